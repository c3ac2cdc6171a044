//! Harness for `laps_regex`: builds matchers and records what they do, next to the syntax trees
//! of the same regular expressions as `regex-syntax` reads them.
#[path = "../../common/json.rs"]
#[macro_use]
mod json;
#[path = "../../common/driver.rs"]
mod driver;
mod fa;
mod stages;

use driver::guard;
use json::{usage, J};
use laps_regex::mir::{Error as MirError, Mir, MirBuilder, SymbolOp};
use laps_regex::re::{Error, RegexBuilder, RegexMatcher};
use laps_regex::table::StateTransTable;
use regex_syntax::hir::{Class, Hir, HirKind, Literal};
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::hash::Hash;

/// A symbol of the alphabet.
trait Sym: Clone + Hash + Eq + Ord + SymbolOp + Sync + Send + Debug + 'static {
  fn code(&self) -> i64;
  fn of(c: i64) -> Self;
}
impl Sym for char {
  fn code(&self) -> i64 { *self as i64 }
  fn of(c: i64) -> Self { char::from_u32(c as u32).unwrap_or_else(|| usage("bad char")) }
}
impl Sym for u8 {
  fn code(&self) -> i64 { *self as i64 }
  fn of(c: i64) -> Self { c as u8 }
}

/// The syntax trees of a set of regular expressions, flattened: children come first.
#[derive(Default)]
struct Trees {
  nodes: Vec<J>,
  bounds: BTreeSet<i64>,
}

/// What a syntax tree contains that laps does not support.
#[derive(Default, Clone)]
struct Facts {
  look: bool,
  lazy: bool,
  uclass: bool,
  empty: bool,
  badutf8: bool,
}

impl Trees {
  fn add(&mut self, t: &str, r: Vec<(i64, i64)>, k: Vec<usize>, min: i64, max: i64) -> usize {
    for (l, h) in &r {
      self.bounds.insert(*l);
      self.bounds.insert(h + 1);
    }
    let r: Vec<J> = r.into_iter().map(|(l, h)| J::A(vec![J::I(l), J::I(h)])).collect();
    let k: Vec<J> = k.into_iter().map(|i| (i + 1).into()).collect();
    self.nodes.push(obj! {"t": t, "r": r, "k": k, "min": min, "max": max});
    self.nodes.len() - 1
  }

  fn hir(&mut self, h: &Hir, bytes: bool, f: &mut Facts) -> usize {
    match h.kind() {
      HirKind::Empty => self.add("eps", vec![], vec![], 0, 0),
      HirKind::Literal(Literal(bs)) => {
        let cs: Vec<i64> = if bytes {
          bs.iter().map(|b| *b as i64).collect()
        } else {
          match std::str::from_utf8(bs) {
            Ok(s) => s.chars().map(|c| c as i64).collect(),
            Err(_) => {
              f.badutf8 = true;
              vec![]
            }
          }
        };
        let k = cs.into_iter().map(|c| self.add("cls", vec![(c, c)], vec![], 0, 0)).collect();
        self.add("cat", vec![], k, 0, 0)
      }
      HirKind::Class(c) => {
        let r: Vec<(i64, i64)> = match c {
          Class::Unicode(u) => {
            f.uclass = true;
            u.ranges().iter().map(|r| (r.start() as i64, r.end() as i64)).collect()
          }
          Class::Bytes(b) => b.ranges().iter().map(|r| (r.start() as i64, r.end() as i64)).collect(),
        };
        f.empty |= r.is_empty();
        self.add("cls", r, vec![], 0, 0)
      }
      HirKind::Look(_) => {
        f.look = true;
        self.add("eps", vec![], vec![], 0, 0)
      }
      HirKind::Repetition(r) => {
        f.lazy |= !r.greedy;
        let e = self.hir(&r.sub, bytes, f);
        self.add("rep", vec![], vec![e], r.min as i64, r.max.map_or(-1, |m| m as i64))
      }
      HirKind::Capture(c) => self.hir(&c.sub, bytes, f),
      HirKind::Concat(v) => {
        let k = v.iter().map(|h| self.hir(h, bytes, f)).collect();
        self.add("cat", vec![], k, 0, 0)
      }
      HirKind::Alternation(v) => {
        let k = v.iter().map(|h| self.hir(h, bytes, f)).collect();
        self.add("alt", vec![], k, 0, 0)
      }
    }
  }
}

fn par(s: &J) -> Option<bool> {
  match s.get("par").map_or(0, |p| p.int()) {
    0 => None,
    1 => Some(true),
    _ => Some(false),
  }
}

struct Set {
  res: Vec<String>,
  tags: Vec<i64>,
  mode: String,
}

impl Set {
  fn of(s: &J) -> Self {
    Self {
      res: s.at("res").arr().iter().map(|r| r.chars()).collect(),
      tags: s.at("tags").arr().iter().map(|t| t.int()).collect(),
      mode: s.at("mode").str().into(),
    }
  }

  /// The trees, as the documentation says the builder reads the expressions.
  fn trees(&self) -> (J, Trees) {
    let mut t = Trees::default();
    let mut rules = Vec::new();
    for (re, tag) in self.res.iter().zip(&self.tags) {
      let mut f = Facts::default();
      let hir = match self.mode.as_str() {
        "bytes" => regex_syntax::ParserBuilder::new().utf8(false).build().parse(re),
        _ => regex_syntax::parse(re),
      };
      let (ok, root, says) = match hir {
        Ok(h) => (true, t.hir(&h, self.mode != "char", &mut f) + 1, String::new()),
        Err(e) => (false, 0, e.to_string()),
      };
      rules.push(obj! {"ok": ok, "says": says, "root": root, "tag": *tag, "look": f.look, "lazy": f.lazy,
        "uclass": f.uclass, "empty": f.empty, "badutf8": f.badutf8});
    }
    (J::A(rules), t)
  }

  fn build<S: Sym>(&self, par: Option<bool>) -> Result<RegexMatcher<S, i64>, Error<i64>>
  where
    Mir<S, i64>: MirBuilder,
  {
    let mut b = RegexBuilder::new().enable_par(par);
    for (re, tag) in self.res.iter().zip(&self.tags) {
      b = b.add(re, *tag);
    }
    if self.mode == "bytes" { b.build_bytes() } else { b.build() }
  }
}

fn outcome<M>(r: &Result<M, Error<i64>>) -> (&'static str, i64) {
  match r {
    Ok(_) => ("ok", 0),
    Err(Error::EmptyBuilder) => ("emptybuilder", 0),
    Err(Error::Regex(_, t)) => ("regex", *t),
    Err(Error::Mir(MirError::InvalidUtf8)) => ("utf8", 0),
    Err(Error::Mir(MirError::UnsupportedOp(_))) => ("unsupported", 0),
    Err(Error::Mir(MirError::MatchesNothing)) => ("nothing", 0),
    Err(Error::Mir(MirError::FailedToBuildSymbolSet)) => ("symbolset", 0),
  }
}

/// What the error says.
fn says<M>(r: &Result<M, Error<i64>>) -> String { r.as_ref().err().map_or(String::new(), |e| e.to_string()) }

/// The table as its documentation describes it, through its accessors.
fn table<S: Sym>(t: &StateTransTable<S, i64>, b: &mut BTreeSet<i64>) -> J {
  let mut syms = Vec::new();
  for (r, (l, id)) in t.sym_map() {
    b.insert(l.code());
    b.insert(r.code() + 1);
    syms.push(J::A(vec![J::I(l.code()), J::I(r.code()), (*id).into()]));
  }
  let mut fin: Vec<(usize, i64)> = t.tags().iter().map(|(i, t)| (*i, *t)).collect();
  fin.sort();
  // the accessors, on valid and invalid states and on symbols at and next to the bounds (-1: the last state ID there is)
  let n = t.num_states();
  let mut ids: BTreeSet<usize> = [0, t.init_id(), n / 2, n.saturating_sub(1), n, n + 1, 2 * n + 1].into_iter().collect();
  ids.extend(fin.iter().map(|(i, _)| *i).take(3));
  ids.insert(usize::MAX);
  let max = if std::mem::size_of::<S>() == 1 { 255 } else { 0x10ffff };
  let near: BTreeSet<i64> = b.iter().flat_map(|c| [c - 1, *c]).chain([0, max])
    .filter(|c| (0..=max).contains(c) && !(0xd800..0xe000).contains(c)).collect();
  let step = near.len() / 12 + 1;
  let near: Vec<i64> = near.iter().copied().enumerate().filter(|(i, c)| i % step == 0 || *c == max).map(|x| x.1).collect();
  let mut asks = Vec::new();
  for id in ids {
    let i = if id == usize::MAX { -1 } else { id as i64 };
    let tag = tagj(t.is_final(id));
    for c in &near {
      asks.push(J::A(vec![J::I(i), J::I(*c), J::A(t.next_state(id, &S::of(*c)).map(J::from).into_iter().collect()), tag.clone()]));
    }
  }
  obj! {"syms": syms, "table": t.table().iter().map(|x| J::from(*x)).collect::<Vec<_>>(), "nst": t.num_states(),
    "init": t.init_id(), "fin": fin.into_iter().map(|(i, t)| J::A(vec![i.into(), t.into()])).collect::<Vec<_>>(),
    "asks": asks}
}

/// One symbol for every interval between the bounds.
fn reps(b: &BTreeSet<i64>, max: i64) -> J {
  let mut v: BTreeSet<i64> = b.iter().copied().filter(|c| *c <= max)
    .map(|c| if (0xd800..0xe000).contains(&c) { 0xe000 } else { c }).collect();
  v.insert(0);
  J::A(v.into_iter().map(J::I).collect())
}

/// Builds and exports the table.
fn table_trace<S: Sym>(set: &Set, par: Option<bool>) -> J
where
  Mir<S, i64>: MirBuilder,
{
  let (rules, mut trees) = set.trees();
  let (k, tag, said, tab) = match guard(|| {
    let r = set.build::<S>(par);
    let (k, tag) = outcome(&r);
    (k, tag, says(&r), r.ok().map(|m| table(&StateTransTable::from(m), &mut trees.bounds)))
  }) {
    Ok((k, tag, said, tab)) => (k.to_string(), tag, said, tab),
    Err(m) => (format!("panic: {m}"), 0, String::new(), None),
  };
  let max = if set.mode == "char" { 0x10ffff } else { 255 };
  let tab = tab.unwrap_or_else(|| obj! {"syms": vec![], "table": vec![], "nst": 0, "init": 0, "fin": vec![], "asks": vec![]});
  obj! {"mode": set.mode.clone(), "res": set.res.iter().map(|r| json::cps(r)).collect::<Vec<_>>(),
    "rules": rules, "nodes": std::mem::take(&mut trees.nodes), "reps": reps(&trees.bounds, max),
    "k": k, "tag": tag, "says": said, "tab": tab}
}

fn tagj(t: Option<&i64>) -> J { J::A(t.map(|t| J::I(*t)).into_iter().collect()) }

/// Records a history of matcher operations.
fn match_trace<S: Sym>(set: &Set, s: &J, str_match: fn(&RegexMatcher<S, i64>, &str) -> Option<i64>) -> J
where
  Mir<S, i64>: MirBuilder,
{
  let (rules, trees) = set.trees();
  let mut out = Vec::new();
  let built = guard(|| set.build::<S>(par(s)));
  let (k, tag, said) = match &built {
    Ok(r) => (outcome(r).0.to_string(), outcome(r).1, says(r)),
    Err(m) => (format!("panic: {m}"), 0, String::new()),
  };
  if let Ok(Ok(mut m)) = built {
    let mut ids: Vec<usize> = vec![m.state()];
    for op in s.at("ops").arr() {
      let r = guard(|| match op.at("op").str() {
        "acc" => {
          let b = m.is_accept(&S::of(op.at("c").int()));
          ids.push(m.state());
          J::A(vec![J::I(b as i64)])
        }
        "reset" => {
          m.reset();
          ids.push(m.state());
          J::A(vec![])
        }
        "final" => tagj(m.is_final()),
        "sfinal" => tagj(m.is_state_final(ids[op.at("i").int() as usize])),
        "match" => {
          let v: Vec<S> = op.at("s").arr().iter().map(|c| S::of(c.int())).collect();
          tagj(m.is_match(&v))
        }
        "smatch" => tagj(str_match(&m, &op.at("u").chars()).as_ref()),
        o => usage(&format!("op {o}")),
      });
      let mut o = op.clone();
      let dead = r.is_err();
      o.set("ret", r.unwrap_or_else(|m| obj! {"panic": m}));
      out.push(o);
      if dead { break; }
    }
  }
  obj! {"mode": set.mode.clone(), "res": set.res.iter().map(|r| json::cps(r)).collect::<Vec<_>>(),
    "rules": rules, "nodes": trees.nodes, "k": k, "tag": tag, "says": said, "ops": out}
}

fn run(domain: &str, s: J) -> J {
  if domain == "fa" { return fa::run(s); }
  let set = Set::of(&s);
  let chars = set.mode == "char";
  match domain {
    "table" => if chars { table_trace::<char>(&set, par(&s)) } else { table_trace::<u8>(&set, par(&s)) },
    "match" => {
      if chars { match_trace::<char>(&set, &s, |m, t| m.is_str_match(t).copied()) }
      else { match_trace::<u8>(&set, &s, |m, t| m.is_str_match(t).copied()) }
    }
    "stages" => if chars { stages::stages::<char>(&set, &s) } else { stages::stages::<u8>(&set, &s) },
    // only the syntax trees
    "trees" => {
      let (rules, trees) = set.trees();
      let max = if chars { 0x10ffff } else { 255 };
      obj! {"rules": rules, "reps": reps(&trees.bounds, max), "nodes": trees.nodes}
    }
    // the same set built by several threads at once, in all the ways there are
    "conc" => {
      let n = s.at("threads").int();
      let v = std::thread::scope(|sc| {
        let set = &set;
        let h: Vec<_> = (0..n).map(|i| sc.spawn(move || {
          let p = [None, Some(true), Some(false)][i as usize % 3];
          if chars { table_trace::<char>(set, p) } else { table_trace::<u8>(set, p) }
        })).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
      });
      obj! {"many": v}
    }
    d => usage(&format!("unknown domain {d}")),
  }
}

fn main() {
  driver::main_loop(run)
}
