//! Histories of operations on automata as data structures.
use super::*;
use laps_regex::fa::{CachedClosures, Closure, ClosureBuilder, DenseFA, FiniteAutomaton, MultiFA, State};

/// What both kinds of states have in common here. Symbols are numbers; 0 is the empty one.
trait Edges: State<Option<i64>> {
  fn edges(&self) -> Vec<(i64, usize)>;
  fn first(&self, s: i64) -> Option<usize>;
  const DENSE: bool;
}
fn sym(s: i64) -> Option<i64> { Some(s).filter(|s| *s != 0) }
fn unsym(s: &Option<i64>) -> i64 { s.unwrap_or(0) }
impl Edges for laps_regex::fa::DenseState<Option<i64>> {
  fn edges(&self) -> Vec<(i64, usize)> { self.outs().iter().map(|(s, y)| (unsym(s), *y)).collect() }
  fn first(&self, s: i64) -> Option<usize> { self.next_state(&sym(s)) }
  const DENSE: bool = true;
}
impl Edges for laps_regex::fa::MultiState<Option<i64>> {
  fn edges(&self) -> Vec<(i64, usize)> {
    let mut v: Vec<_> = self.outs().iter().flat_map(|(s, ys)| ys.iter().map(|y| (unsym(s), *y))).collect();
    v.sort();
    v
  }
  fn first(&self, _: i64) -> Option<usize> { None }
  const DENSE: bool = false;
}

fn pair(a: i64, b: usize) -> J { J::A(vec![J::I(a), b.into()]) }
fn nums(v: impl IntoIterator<Item = usize>) -> J {
  let mut v: Vec<usize> = v.into_iter().collect();
  v.sort();
  J::A(v.into_iter().map(J::from).collect())
}
fn opt(v: Option<usize>) -> J { J::A(v.into_iter().map(J::from).collect()) }

/// The automaton as Graphviz, read back: finals, edges (state, label, state), and whether all else is as usual.
fn dot<St: Edges>(fa: &FiniteAutomaton<Option<i64>, St>) -> J {
  let mut v = Vec::new();
  fa.dump(&mut v).unwrap();
  let text = String::from_utf8(v).unwrap();
  let (mut finals, mut edges, mut other) = (vec![], vec![], vec![]);
  let mut circle = false;
  for (i, l) in text.lines().enumerate() {
    let t = l.trim();
    let e = t.split_once(" -> ").and_then(|(x, r)| {
      let (y, r) = r.split_once(" [label = \"")?;
      Some((x.parse::<usize>().ok()?, y.parse::<usize>().ok()?, r.strip_suffix("\"]")?.to_string()))
    });
    if let Some((x, y, s)) = e {
      edges.push(J::A(vec![x.into(), s.into(), y.into()]));
      if !circle { other.push("edge before the normal states".to_string()); }
    } else if let Some(f) = t.strip_suffix(';').filter(|f| !f.starts_with("node")) {
      finals.extend(f.split_whitespace().map(|n| n.parse::<usize>().unwrap_or(usize::MAX)));
      if i != 3 || circle { other.push("final states".to_string()); }
    } else {
      if t == "node [shape = circle];" { circle = true; }
      other.push(t.to_string());
    }
  }
  obj! {"finals": nums(finals), "edges": edges, "other": other.into_iter().map(J::S).collect::<Vec<_>>()}
}

fn label(s: i64) -> J { format!("{:?}", sym(s)).into() }

fn go<St: Edges>(s: &J, closures: fn(FiniteAutomaton<Option<i64>, St>, &J) -> J) -> J {
  let mut fas: Vec<Option<FiniteAutomaton<Option<i64>, St>>> = vec![];
  let mut ids: Vec<usize> = vec![];
  let mut out = Vec::new();
  for op in s.at("ops").arr() {
    let i = op.get("fa").map_or(0, |i| i.int() as usize);
    // states are named by the order in which they were made; -1 was never made
    let at = |k: &str, ids: &[usize]| match op.at(k).int() {
      n if n < 0 => usize::MAX,
      n => ids[n as usize],
    };
    let mut o = op.clone();
    if op.get("x").is_some() { o.set("x", if op.at("x").int() < 0 { J::I(-1) } else { at("x", &ids).into() }); }
    if op.get("y").is_some() { o.set("y", if op.at("y").int() < 0 { J::I(-1) } else { at("y", &ids).into() }); }
    if let Some(f) = op.get("from") {
      o.set("from", nums(f.arr().iter().map(|n| ids[n.int() as usize])));
    }
    let r = guard(|| match op.at("op").str() {
      "new" => {
        let fa = if op.at("n").int() == 0 { FiniteAutomaton::new() } else { FiniteAutomaton::default() };
        ids.push(fa.init_id());
        fas.push(Some(fa));
        J::I(ids[ids.len() - 1] as i64)
      }
      "add" | "addf" => {
        let fa = fas[i].as_mut().unwrap();
        let id = if op.at("op").str() == "add" { fa.add_state() } else { fa.add_final_state() };
        ids.push(id);
        id.into()
      }
      "setf" => J::from(fas[i].as_mut().unwrap().set_final_state(at("x", &ids))),
      "setn" => J::from(fas[i].as_mut().unwrap().set_normal_state(at("x", &ids))),
      "edge" => {
        let (x, y) = (at("x", &ids), at("y", &ids));
        let fa = fas[i].as_mut().unwrap();
        // the initial state is there under two names
        let st = if x == fa.init_id() && y % 2 == 0 { Some(fa.init_mut()) } else { fa.state_mut(x) };
        J::from(st.map(|st| st.add(sym(op.at("s").int()), y)).is_some())
      }
      "union" => {
        let fa = fas[op.at("j").int() as usize].take().unwrap();
        fas[i].as_mut().unwrap().union(fa);
        J::I(0)
      }
      "look" => {
        let fa = fas[i].as_ref().unwrap();
        let mut e = Vec::new();
        for (x, st) in fa.states() {
          e.extend(st.edges().into_iter().map(|(s, y)| J::A(vec![(*x).into(), s.into(), y.into(), label(s)])));
        }
        let init = nums(fa.init().edges().into_iter().map(|(_, y)| y));
        obj! {"states": nums(fa.states().keys().copied()), "finals": nums(fa.finals().iter().copied()),
          "init": fa.init_id(), "final": opt(fa.final_id()), "edges": e, "inits": init, "dot": dot(fa)}
      }
      "state" => {
        let fa = fas[i].as_ref().unwrap();
        let x = at("x", &ids);
        match fa.state(x) {
          None => J::A(vec![]),
          Some(st) => J::A(vec![J::A(st.edges().into_iter().map(|(s, y)| pair(s, y)).collect()),
            J::A((0..4).map(|s| opt(st.first(s))).collect())]),
        }
      }
      // several threads make states at the same time
      "threads" => {
        let n = op.at("n").int() as usize;
        let made: Vec<usize> = std::thread::scope(|sc| {
          let h: Vec<_> = (0..n).map(|_| sc.spawn(|| {
            let mut fa: FiniteAutomaton<Option<i64>, laps_regex::fa::DenseState<Option<i64>>> = FiniteAutomaton::new();
            for i in 0..200 { if i % 2 == 0 { fa.add_state(); } else { fa.add_final_state(); } }
            fa.states().keys().copied().collect::<Vec<_>>()
          })).collect();
          h.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        nums(made)
      }
      "closures" => closures(fas[i].take().unwrap(), &o),
      o => usage(o),
    });
    let dead = r.is_err();
    o.set("ret", r.unwrap_or_else(|m| obj! {"panic": m}));
    out.push(o);
    if dead { break; }
  }
  obj! {"dense": St::DENSE, "ops": out}
}

fn closures(fa: MultiFA<Option<i64>>, o: &J) -> J {
  let cb = ClosureBuilder::from(fa);
  let mut cache = CachedClosures::new();
  let mut cur: Closure = o.at("from").arr().iter().map(|n| n.int() as usize).collect();
  let mut v = Vec::new();
  // one cache for everything that is asked, all sets that are met on the way
  for s in o.at("syms").arr() {
    cur = if s.int() == 0 { cb.epsilon_closure(&mut cache, cur) } else { cb.state_closure(&mut cache, &cur, &s.int()) };
    v.push(nums(cur.iter().copied()));
  }
  let mut syms: Vec<i64> = cb.symbol_set().into_iter().collect();
  syms.sort();
  obj! {"syms": syms.into_iter().map(J::I).collect::<Vec<_>>(), "sets": v}
}

pub fn run(s: J) -> J {
  if s.at("dense").int() == 1 {
    go::<laps_regex::fa::DenseState<Option<i64>>>(&s, |_: DenseFA<Option<i64>>, _| usage("closures of a dense automaton"))
  } else {
    go::<laps_regex::fa::MultiState<Option<i64>>>(&s, closures)
  }
}
