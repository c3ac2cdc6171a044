//! The stages on the way from expressions to a table: every one of them is exported.
use super::*;
use laps_regex::dfa::DFA;
use laps_regex::nfa::NFA;
use std::collections::HashMap;

/// A final state that has no tag, an expression without a tag.
pub const UNTAGGED: i64 = 999_999;

/// A MIR of the user's own.
fn mir<S: Sym>(j: &J) -> Mir<S, i64> {
  let subs = || j.at("k").arr().iter().map(mir).collect::<Vec<_>>();
  match j.at("t").str() {
    "eps" => Mir::Empty,
    "cls" => Mir::Ranges(j.at("r").arr().iter().map(|r| (S::of(r.arr()[0].int()), S::of(r.arr()[1].int()))).collect()),
    "cat" => Mir::Concat(subs()),
    "alt" => Mir::Alter(subs().into_iter().zip(j.at("tags").arr())
      .map(|(m, t)| (m, Some(t.int()).filter(|t| *t != UNTAGGED))).collect()),
    "rep" => Mir::Kleene(Box::new(subs().swap_remove(0))),
    t => usage(t),
  }
}

impl Trees {
  fn mir<S: Sym>(&mut self, m: &Mir<S, i64>) -> usize {
    match m {
      Mir::Empty => self.add("eps", vec![], vec![], 0, 0),
      Mir::Ranges(r) => {
        let r = r.iter().map(|(l, r)| (l.code(), r.code())).collect();
        self.add("cls", r, vec![], 0, 0)
      }
      Mir::Concat(c) => {
        let k = c.iter().map(|m| self.mir(m)).collect();
        self.add("cat", vec![], k, 0, 0)
      }
      Mir::Alter(a) => {
        let k = a.iter().map(|(m, _)| self.mir(m)).collect();
        self.add("alt", vec![], k, 0, 0)
      }
      Mir::Kleene(k) => {
        let e = self.mir(k);
        self.add("rep", vec![], vec![e], 0, -1)
      }
    }
  }
}

fn tagged<S>(m: &Mir<S, i64>) -> bool {
  match m {
    Mir::Concat(c) => c.iter().any(tagged),
    Mir::Alter(a) => a.iter().any(|(m, t)| t.is_some() || tagged(m)),
    Mir::Kleene(k) => tagged(k),
    _ => false,
  }
}

/// The tagged alternatives of a MIR. A tag may stand in the last part of a concatenation.
fn rules<S: Sym>(m: &Mir<S, i64>) -> Vec<(Mir<S, i64>, i64)> {
  match m {
    Mir::Alter(a) if tagged(m) => a.iter().flat_map(|(m, t)| match t {
      Some(t) => vec![(m.clone(), *t)],
      None => rules(m),
    }).collect(),
    Mir::Concat(c) if tagged(m) && !c[..c.len() - 1].iter().any(tagged) => rules(&c[c.len() - 1]).into_iter()
      .map(|(m, t)| (Mir::Concat(c[..c.len() - 1].iter().cloned().chain([m]).collect()), t)).collect(),
    m => vec![(m.clone(), UNTAGGED)],
  }
}

/// A MIR as a set of tagged trees.
fn mir_j<S: Sym>(m: &Mir<S, i64>, b: &mut BTreeSet<i64>) -> J {
  let mut t = Trees::default();
  let rules = rules(m).into_iter().map(|(m, tag)| {
    let root = t.mir(&m) + 1;
    obj! {"root": root, "tag": tag}
  }).collect::<Vec<_>>();
  b.append(&mut t.bounds);
  obj! {"rules": rules, "nodes": t.nodes}
}

fn fa_j<S: Sym>(edges: Vec<(usize, Vec<(S, S)>, usize)>, mut ids: Vec<usize>, init: usize, finals: Vec<usize>, tags: HashMap<usize, i64>, b: &mut BTreeSet<i64>) -> J {
  ids.sort();
  let num = |id: usize| ids.binary_search(&id).map_or(J::I(0), |i| (i + 1).into());
  // per state: its edges as (ranges, state); no ranges: the empty symbol. Edges of a state that is not there: "lost"
  let (mut outs, mut lost) = (vec![vec![]; ids.len()], 0);
  for (x, s, y) in edges {
    let r = s.iter().map(|(l, r)| {
      b.insert(l.code());
      b.insert(r.code() + 1);
      J::A(vec![J::I(l.code()), J::I(r.code())])
    }).collect::<Vec<_>>();
    match ids.binary_search(&x) {
      Ok(i) => outs[i].push(obj! {"r": r, "y": num(y)}),
      Err(_) => lost += 1,
    }
  }
  let outs = outs.into_iter().map(J::A).collect::<Vec<_>>();
  let mut fin: Vec<J> = tags.iter().map(|(i, t)| J::A(vec![num(*i), J::I(*t)])).collect();
  fin.extend(finals.iter().filter(|i| !tags.contains_key(i)).map(|i| J::A(vec![num(*i), J::I(UNTAGGED)])));
  let finals = finals.into_iter().map(num).collect::<Vec<_>>();
  obj! {"n": ids.len(), "init": num(init), "outs": outs, "lost": lost, "fin": fin, "finals": finals}
}

fn nfa_j<S: Sym>(m: Mir<S, i64>, b: &mut BTreeSet<i64>) -> J {
  let (fa, tags) = NFA::new(m).into_fa_tags();
  let mut edges = Vec::new();
  for (x, s) in fa.states() {
    for (s, ys) in s.outs() {
      edges.extend(ys.iter().map(|y| (*x, s.clone().unwrap_or_default(), *y)));
    }
  }
  fa_j(edges, fa.states().keys().copied().collect(), fa.init_id(), fa.finals().iter().copied().collect(), tags, b)
}

fn dfa_j<S: Sym>(m: Mir<S, i64>, par: Option<bool>, b: &mut BTreeSet<i64>) -> J {
  let dfa = match par {
    None => DFA::from(NFA::from(m)),
    p => DFA::new(NFA::new(m), p),
  };
  let (fa, tags) = dfa.into_fa_tags();
  let mut edges = Vec::new();
  for (x, s) in fa.states() {
    edges.extend(s.outs().iter().map(|(s, y)| (*x, s.clone(), *y)));
  }
  fa_j(edges, fa.states().keys().copied().collect(), fa.init_id(), fa.finals().iter().copied().collect(), tags, b)
}

pub fn stages<S: Sym>(set: &Set, s: &J) -> J
where
  Mir<S, i64>: MirBuilder,
{
  let none = || obj! {"syms": vec![], "table": vec![], "nst": 0, "init": 0, "fin": vec![], "asks": vec![]};
  let (mut b, max) = (BTreeSet::new(), if set.mode == "char" { 0x10ffff } else { 255 });
  // the reference and the first MIR
  let (refr, raw) = match s.get("mir") {
    Some(j) => {
      let m = mir::<S>(j);
      (mir_j(&m, &mut b), Ok(m))
    }
    None => {
      let (r, t) = set.trees();
      b.extend(&t.bounds);
      let m = guard(|| set.res.iter().zip(&set.tags).map(|(re, tag)| {
        let hir = match set.mode.as_str() {
          "bytes" => regex_syntax::ParserBuilder::new().utf8(false).build().parse(re),
          _ => regex_syntax::parse(re),
        };
        let hir = hir.map_err(|_| "regex")?;
        let m = if re.len() % 2 == 0 { Mir::new(hir) } else { Mir::from_hir(hir) };
        m.map(|m| (m, Some(*tag))).map_err(|_| "mir")
      }).collect::<Result<Vec<_>, _>>().map(Mir::Alter)).unwrap_or_else(|_| Err("panic"));
      (obj! {"rules": r, "nodes": t.nodes}, m)
    }
  };
  let mut k = "ok".to_string();
  let (mut mirs, mut nfas, mut dfas, mut tab) = (vec![], vec![], vec![], none());
  match raw {
    Err(e) => k = e.to_string(),
    Ok(raw) => {
      let r = guard(|| {
        let opt = match raw.clone().optimize() {
          Ok(m) => m,
          Err(MirError::MatchesNothing) => return Some("nothing"),
          Err(_) => return Some("failed"),
        };
        mirs.push(mir_j(&raw, &mut b));
        mirs.push(mir_j(&opt, &mut b));
        nfas.push(nfa_j(raw, &mut b));
        nfas.push(nfa_j(opt.clone(), &mut b));
        for p in [None, Some(true), Some(false)] {
          dfas.push(dfa_j(opt.clone(), p, &mut b));
        }
        tab = table(&StateTransTable::from(DFA::from(NFA::from(opt))), &mut b);
        None
      });
      match r {
        Ok(None) => (),
        Ok(Some(e)) => k = e.to_string(),
        Err(m) => k = format!("panic: {m}"),
      }
    }
  }
  obj! {"mode": set.mode.clone(), "res": set.res.iter().map(|r| json::cps(r)).collect::<Vec<_>>(),
    "ref": refr, "k": k, "mirs": mirs, "nfas": nfas, "dfas": dfas, "tab": tab, "reps": reps(&b, max)}
}

trait FromHir: Sized {
  fn from_hir(h: Hir) -> Result<Self, MirError>;
}
impl<S: Sym> FromHir for Mir<S, i64>
where
  Mir<S, i64>: MirBuilder,
{
  fn from_hir(h: Hir) -> Result<Self, MirError> { Self::try_from(h) }
}
