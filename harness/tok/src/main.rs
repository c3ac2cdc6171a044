//! Harness for token streams, parsers and token ASTs. The grammars (types) are generated by the
//! check; the file they are in is named by the environment variable LAPS_GEN.
#![allow(deprecated, dead_code, unused_variables, clippy::all)]
#[path = "../../common/json.rs"]
#[macro_use]
mod json;
#[path = "../../common/driver.rs"]
mod driver;
#[path = "../../core/src/reader.rs"]
mod reader;

use driver::guard;
use json::J;
use laps::ast::*;
use laps::parse::Parse;
use laps::prelude::*;
use laps::span::{Error, FileType, Location, Result, Span, Spanned, TrySpan};
use laps::token::{token_ast, token_kind, Lookahead, Token as LapsToken, TokenBuffer, TokenStream, Tokenizer};
use std::rc::Rc;

pub use gen::Kind;
pub type Token = LapsToken<Kind>;

fn kind(k: i64, v: i64) -> Kind {
  match k {
    0 => Kind::Num(v),
    1 => Kind::Sym(char::from_u32(v as u32).unwrap()),
    2 => Kind::Word(format!("w{v}")),
    3 => Kind::Plus,
    4 => Kind::EndOfFile,
    _ => json::usage("kind"),
  }
}

/// A tokenizer that gives what its script says, and counts how often it is asked.
pub struct Script {
  items: Vec<i64>,
  eof: i64,
  toks: Rc<Vec<Token>>,
  p: usize,
}

fn fault(n: i64) -> Error {
  if n % 2 == 0 { Error::Normal(format!("E{n}")) } else { Error::Fatal(format!("E{n}")) }
}

impl Tokenizer for Script {
  type Token = Token;
  fn next_token(&mut self) -> Result<Token> {
    let i = *self.items.get(self.p).unwrap_or(&self.eof);
    self.p += 1;
    if self.p > 20_000 { panic!("the tokenizer is asked without end"); }
    if i < 0 { Err(fault(-i)) } else { Ok(self.toks[i as usize - 1].clone()) }
  }
}

/// A stream that only defines what it must.
pub struct Own {
  script: Script,
  stack: Vec<Token>,
}

impl Tokenizer for Own {
  type Token = Token;
  fn next_token(&mut self) -> Result<Token> {
    match self.stack.pop() { Some(t) => Ok(t), None => self.script.next_token() }
  }
}
impl TokenStream for Own {
  fn unread(&mut self, token: Token) { self.stack.push(token) }
}

pub type Buf = TokenBuffer<Script, Token>;

/// What the harness needs of a stream.
pub trait Stream: TokenStream<Token = Token> + Sized {
  fn asks(&self) -> usize;
  fn direct(&mut self) -> Result<Token>;
  fn parse_g(&mut self, g: i64, cx: &Cx) -> Out;
  fn maybe_g(&mut self, g: i64) -> Result<bool>;
  fn unwrap_g(&mut self, g: i64, cx: &Cx) -> Result<(Vec<i64>, Vec<i64>)>;
}
impl Stream for Buf {
  fn asks(&self) -> usize { self.inner().p }
  fn direct(&mut self) -> Result<Token> { self.inner_mut().next_token() }
  fn parse_g(&mut self, g: i64, cx: &Cx) -> Out { gen::parse_buf(g, self, cx) }
  fn maybe_g(&mut self, g: i64) -> Result<bool> { gen::maybe_buf(g, self) }
  fn unwrap_g(&mut self, g: i64, cx: &Cx) -> Result<(Vec<i64>, Vec<i64>)> { gen::unwrap_g(g, self, cx) }
}
impl Stream for Own {
  fn asks(&self) -> usize { self.script.p }
  fn direct(&mut self) -> Result<Token> { self.script.next_token() }
  fn parse_g(&mut self, g: i64, cx: &Cx) -> Out { gen::parse_own(g, self, cx) }
  fn maybe_g(&mut self, g: i64) -> Result<bool> { gen::maybe_own(g, self) }
  fn unwrap_g(&mut self, g: i64, cx: &Cx) -> Result<(Vec<i64>, Vec<i64>)> { gen::unwrap_g(g, self, cx) }
}

/// The tokens of the scenario: recognizes which one a token is.
pub struct Cx {
  toks: Rc<Vec<Token>>,
  /// If the tokens are not known in advance: those seen so far.
  seen: Option<std::cell::RefCell<Vec<Token>>>,
}
impl Cx {
  fn find(&self, t: &Token) -> i64 {
    if let Some(seen) = &self.seen {
      let mut seen = seen.borrow_mut();
      return seen.iter().position(|x| x.kind == t.kind && x.span == t.span).unwrap_or_else(|| { seen.push(t.clone()); seen.len() - 1 }) as i64 + 1;
    }
    self.toks.iter().position(|x| x.kind == t.kind && x.span == t.span).map_or(0, |i| i as i64 + 1)
  }
  fn finds(&self, ts: &[Token]) -> Vec<i64> { ts.iter().map(|t| self.find(t)).collect() }
}

// ------------------------------------------------------------------ values as flat sequences
pub type Out = Result<(Vec<i64>, Option<Option<Span>>)>;

pub trait Dump: Sized {
  fn dump(&self, cx: &Cx, o: &mut Vec<i64>);
  // by the other ways to iterate
  fn dump_mut(&mut self, cx: &Cx, o: &mut Vec<i64>) { self.dump(cx, o) }
  fn eat(self, cx: &Cx, o: &mut Vec<i64>) { self.dump(cx, o) }
}
pub fn tag(o: &mut Vec<i64>, t: i64, n: usize) { o.push(t); o.push(n as i64); }

/// A user's own AST: a part that is not kept, and an optional one.
pub struct Shy<P, T>(Option<T>, std::marker::PhantomData<P>);
impl<TS: TokenStream, P: Parse<TS>, T: Parse<TS>> Parse<TS> for Shy<P, T> {
  fn parse(tokens: &mut TS) -> Result<Self> {
    tokens.parse::<P>()?;
    Ok(Self(tokens.parse()?, std::marker::PhantomData))
  }
  fn maybe(tokens: &mut TS) -> Result<bool> { P::maybe(tokens) }
}
impl<P, T: TrySpan> TrySpan for Shy<P, T> { fn try_span(&self) -> Option<Span> { self.0.try_span() } }
impl<P, T: Dump> Dump for Shy<P, T> {
  fn dump(&self, cx: &Cx, o: &mut Vec<i64>) { tag(o, -9, 1); self.0.dump(cx, o) }
}

impl<T: Dump> Dump for Box<T> { fn dump(&self, cx: &Cx, o: &mut Vec<i64>) { (**self).dump(cx, o) } }
impl<T: Dump> Dump for Option<T> {
  fn dump(&self, cx: &Cx, o: &mut Vec<i64>) {
    match self { None => tag(o, -3, 0), Some(t) => { tag(o, -4, 1); t.dump(cx, o) } }
  }
}
impl<T: Dump> Dump for Vec<T> {
  fn dump(&self, cx: &Cx, o: &mut Vec<i64>) { tag(o, -2, self.len()); self.iter().for_each(|t| t.dump(cx, o)) }
}
/// Something a user's generic types may hold: it is made of nothing.
pub struct Mark<'x, T: Level>(std::marker::PhantomData<&'x T>);
pub trait Level { const N: usize; }
pub struct Lv1;
pub struct Lv2;
impl Level for Lv1 { const N: usize = 1; }
impl Level for Lv2 { const N: usize = 2; }
impl<'x, T: Level, TS: TokenStream<Token = Token>> Parse<TS> for Mark<'x, T> {
  fn parse(_: &mut TS) -> Result<Self> { Ok(Self(std::marker::PhantomData)) }
  fn maybe(_: &mut TS) -> Result<bool> { Ok(true) }
}
impl<'x, T: Level> Dump for Mark<'x, T> { fn dump(&self, cx: &Cx, o: &mut Vec<i64>) { tag(o, -9, 0) } }

macro_rules! dump_seq {
  ($($t:ident<$($g:ident),+>;)+) => {$(
    impl<$($g: Dump),+> Dump for $t<$($g),+> {
      fn dump(&self, cx: &Cx, o: &mut Vec<i64>) {
        tag(o, -5, self.0.len());
        // the iterators give the same elements
        let a: Vec<&T> = self.into_iter().collect();
        assert_eq!(a.len(), self.0.len());
        a.iter().for_each(|t| t.dump(cx, o))
      }
      fn dump_mut(&mut self, cx: &Cx, o: &mut Vec<i64>) {
        tag(o, -5, self.0.len());
        for t in self { t.dump_mut(cx, o) }
      }
      fn eat(self, cx: &Cx, o: &mut Vec<i64>) {
        tag(o, -5, self.0.len());
        for t in self { t.eat(cx, o) }
      }
    }
  )+};
}
dump_seq! { NonEmptySeq<T>; SepSeq<T, S>; NonEmptySepSeq<T, S>; OptSepSeq<T, S>; NonEmptyOptSepSeq<T, S>; }
impl<T: Dump, S: Dump> Dump for NonEmptySepList<T, S> {
  fn dump(&self, cx: &Cx, o: &mut Vec<i64>) {
    match self {
      Self::One(t) => { tag(o, -6, 1); t.dump(cx, o) }
      Self::More(t, s, l) => { tag(o, -8, 3); t.dump(cx, o); s.dump(cx, o); l.dump(cx, o) }
    }
  }
}
impl<T: Dump, S: Dump> Dump for NonEmptyOptSepList<T, S> {
  fn dump(&self, cx: &Cx, o: &mut Vec<i64>) {
    match self {
      Self::One(t) => { tag(o, -6, 1); t.dump(cx, o) }
      Self::OneWithSep(t, s) => { tag(o, -7, 2); t.dump(cx, o); s.dump(cx, o) }
      Self::More(t, s, l) => { tag(o, -8, 3); t.dump(cx, o); s.dump(cx, o); l.dump(cx, o) }
    }
  }
}
impl<L: Dump, T: Dump, R: Dump> Dump for Quoted<L, T, R> {
  fn dump(&self, cx: &Cx, o: &mut Vec<i64>) { tag(o, -1, 3); self.0.dump(cx, o); self.1.dump(cx, o); self.2.dump(cx, o) }
}
macro_rules! dump_pair {
  ($($t:ident $p:ty;)+) => {$(
    impl<P: Dump, T: Dump> Dump for $t<P, T> {
      fn dump(&self, cx: &Cx, o: &mut Vec<i64>) { tag(o, -1, 2); self.0.dump(cx, o); self.1.dump(cx, o) }
    }
  )+};
}
dump_pair! { OptPrefix P; OptTokenPrefix P; TokenPrefix P; }
macro_rules! dump_tuple {
  ($($t:ident)+) => {
    impl<$($t: Dump),+> Dump for ($($t,)+) {
      #[allow(non_snake_case)]
      fn dump(&self, cx: &Cx, o: &mut Vec<i64>) {
        let ($($t,)+) = self;
        let n = [$(stringify!($t)),+].len();
        tag(o, -1, n);
        $($t.dump(cx, o);)+
      }
    }
  };
}
macro_rules! dump_tuples {
  ($h:ident) => { dump_tuple!($h); };
  ($h:ident $($t:ident)+) => { dump_tuple!($h $($t)+); dump_tuples!($($t)+); };
}
dump_tuples!(A B C D E F G H I K L M N P Q R S T U V W X Y Z A1 B1);

// the ways to get a span: by Spanned, by TrySpan, not at all
pub fn span_s<T: Spanned>(t: &T) -> Option<Option<Span>> { Some(Some(t.span())) }
pub fn span_t<T: TrySpan>(t: &T) -> Option<Option<Span>> { Some(t.try_span()) }
pub fn span_n<T>(_: &T) -> Option<Option<Span>> { None }

pub fn go<T: Parse<S> + Dump, S: Stream>(s: &mut S, cx: &Cx, span: fn(&T) -> Option<Option<Span>>) -> Out {
  let mut v: T = s.parse()?;
  let mut o = Vec::new();
  v.dump(cx, &mut o);
  let sp = span(&v);
  let (mut a, mut b) = (Vec::new(), Vec::new());
  v.dump_mut(cx, &mut a);
  v.eat(cx, &mut b);
  assert!(a == o && b == o, "the ways to iterate disagree");
  Ok((o, sp))
}

mod gen {
  use super::*;
  include!(env!("LAPS_GEN"));
}

// ------------------------------------------------------------------ running a scenario
fn mk_span(base: &Span, sp: &J) -> Span {
  let a = sp.arr();
  let mut s = base.clone();
  s.update_loc(Location { line: a[0].int() as u32, col: a[1].int() as u32 });
  let mut e = base.clone();
  e.update_loc(Location { line: a[2].int() as u32, col: a[3].int() as u32 });
  s.update_end(e);
  s
}

/// Alternatives [k, lo, hi, m, r].
fn accepts(t: &Kind, pats: &J) -> bool {
  let (k, v) = kv(t);
  pats.arr().iter().any(|a| {
    k == a.at("k").int() && a.at("lo").int() <= v && v <= a.at("hi").int() && v.rem_euclid(a.at("m").int()) == a.at("r").int()
  })
}

fn ret(k: &str, v: Vec<i64>, b: bool) -> J {
  obj! {"k": k, "v": ints(&v), "e": 0, "loc": J::A(vec![]), "msg": "", "b": b, "asks": 0, "val": J::A(vec![]), "span": J::A(vec![]), "un": J::A(vec![])}
}
fn ints(v: &[i64]) -> J { J::A(v.iter().map(|x| J::I(*x)).collect()) }

/// An error: the script's (e), or a message with a location.
fn error(e: Error, v: Vec<i64>) -> J {
  let mut r = ret("err", v, false);
  let fatal = e.is_fatal();
  let msg = match &e { Error::Normal(m) | Error::Fatal(m) => m.clone() };
  if let Some(n) = msg.strip_prefix('E').and_then(|n| n.parse::<i64>().ok()) {
    if (n % 2 != 0) == fatal { r.set("e", J::I(n)); return r; }
  }
  if fatal { r.set("k", J::S("fatal".into())); }
  let parts: Vec<&str> = msg.splitn(4, ':').collect();
  if parts.len() == 4 && parts[0] == "<buffer>" {
    if let (Ok(l), Ok(c)) = (parts[1].parse::<i64>(), parts[2].parse::<i64>()) {
      r.set("loc", ints(&[l, c]));
      r.set("msg", J::S(parts[3].strip_prefix(' ').unwrap_or(parts[3]).into()));
      return r;
    }
  }
  r.set("msg", J::S(msg));
  r
}

fn look<S: Stream>(s: &mut S, steps: &[i64], result: bool, cx: &Cx) -> J {
  let mut outs = Vec::new();
  let mut la = s.lookahead();
  for &st in steps {
    if st == 0 {
      match la.peek_next() {
        Ok(t) => outs.push(cx.find(&t)),
        Err(e) => outs.push(-error(e, vec![]).at("e").int()),
      }
    } else {
      match gen::la_step(la, st) {
        Ok(l) => la = l,
        Err(e) => return error(e, outs),
      }
    }
  }
  if result {
    match la.result() { Ok(b) => ret("ok", outs, b), Err(e) => error(e, outs) }
  } else {
    drop(la);
    ret("ok", outs, false)
  }
}

/// A predicate with a state: true at the nth token that matches.
fn nth<'a>(o: &'a J) -> impl FnMut(&Token) -> bool + 'a {
  let mut left = o.get("nth").map_or(1, |n| n.int());
  move |t| {
    let hit = accepts(&t.kind, o.at("stop"));
    left -= hit as i64;
    hit && left == 0
  }
}

fn op<S: Stream>(s: &mut S, o: &J, hist: &mut Vec<Token>, cx: &Cx) -> J {
  let one = |r: Result<Token>| match r { Ok(t) => ret("ok", vec![cx.find(&t)], false), Err(e) => error(e, vec![]) };
  match o.at("op").str() {
    "next" => {
      let r = s.next_token();
      if let Ok(t) = &r { hist.push(t.clone()); }
      one(r)
    }
    "peek" => one(s.peek()),
    "peek2" => match s.peek2() { Ok((a, b)) => ret("ok", vec![cx.find(&a), cx.find(&b)], false), Err(e) => error(e, vec![]) },
    "peekn" => match s.peek_n(o.at("n").int() as usize) { Ok(v) => ret("ok", cx.finds(&v), false), Err(e) => error(e, vec![]) },
    "unread" => { if let Some(t) = hist.pop() { s.unread(t); } ret("ok", vec![], false) }
    "push" => { s.unread(cx.toks[o.at("i").int() as usize - 1].clone()); ret("ok", vec![], false) }
    "skip" => match s.skip_until(nth(o)) { Ok(()) => ret("ok", vec![], false), Err(e) => error(e, vec![]) },
    "coll" => match s.collect_until(nth(o)) { Ok(v) => ret("ok", cx.finds(&v), false), Err(e) => error(e, vec![]) },
    "expect" => {
      let t = cx.toks[o.at("i").int() as usize - 1].clone();
      if o.get("tok").is_some() { one(s.expect(t)) } else { one(s.expect(t.kind)) }
    }
    "inner" => one(s.direct()),
    "look" => {
      let steps: Vec<i64> = o.at("steps").arr().iter().map(|x| x.int()).collect();
      look(s, &steps, *o.at("result") == J::B(true), cx)
    }
    "maybe" => match s.maybe_g(o.at("g").int()) { Ok(b) => ret("ok", vec![], b), Err(e) => error(e, vec![]) },
    "unwrap" => match s.unwrap_g(o.at("g").int(), cx) {
      Ok((v, un)) => { let mut r = ret("ok", v, false); r.set("un", ints(&un)); r }
      Err(e) => error(e, vec![]),
    },
    "parse" => match s.parse_g(o.at("g").int(), cx) {
      Ok((v, sp)) => {
        let mut r = ret("ok", vec![], false);
        r.set("val", ints(&v));
        r.set("span", match sp {
          None => ints(&[-1]),
          Some(None) => ints(&[]),
          Some(Some(s)) => ints(&[s.start().line as i64, s.start().col as i64, s.end().line as i64, s.end().col as i64]),
        });
        r
      }
      Err(e) => error(e, vec![]),
    },
    x => json::usage(&format!("op {x}")),
  }
}

fn history<S: Stream>(mut s: S, mut sc: J, cx: &Cx) -> J {
  let mut hist = Vec::new();
  let mut ops = Vec::new();
  for o in sc.at("ops").arr() {
    let before = s.asks();
    let mut r = match guard(|| op(&mut s, o, &mut hist, cx)) {
      Ok(r) => r,
      Err(e) => { let mut r = ret("panic", vec![], false); r.set("msg", J::S(e)); r }
    };
    let after = s.asks();
    r.set("asks", J::I(after as i64 - before as i64));
    let end = *r.at("k") == J::S("panic".into());
    let mut o = o.clone();
    o.set("ret", r);
    ops.push(o);
    if end { break; }
  }
  sc.set("ops", J::A(ops));
  sc
}

fn kv(t: &Kind) -> (i64, i64) {
  match t {
    Kind::Num(n) => (0, *n),
    Kind::Sym(c) => (1, *c as i64),
    Kind::Word(w) => (2, w[1..].parse().unwrap()),
    Kind::Plus => (3, 0),
    Kind::EndOfFile => (4, 0),
    #[allow(unreachable_patterns)]
    _ => (9, 0),
  }
}

fn run(domain: &str, sc: J) -> J {
  if domain == "e2e" { return gen::e2e(sc); }
  if domain != "tokens" { json::usage("domain") }
  let base = Span::new(FileType::Buffer);
  let toks: Vec<Token> = sc.at("sc").at("toks").arr().iter()
    .map(|t| LapsToken { kind: kind(t.at("k").int(), t.at("v").int()), span: mk_span(&base, t.at("sp")) })
    .collect();
  let toks = Rc::new(toks);
  let cx = Cx { toks: toks.clone(), seen: None };
  let script = Script {
    items: sc.at("sc").at("items").arr().iter().map(|x| x.int()).collect(),
    eof: sc.at("sc").at("eof").int(),
    toks,
    p: 0,
  };
  match sc.at("kind").str() {
    "buf" => history(TokenBuffer::new(script), sc, &cx),
    "from" => history(TokenBuffer::from(script), sc, &cx),
    "own" => history(Own { script, stack: Vec::new() }, sc, &cx),
    _ => json::usage("stream"),
  }
}

fn main() {
  driver::main_loop(run)
}
