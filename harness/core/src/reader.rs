//! Histories of input stream operations on the readers and on a user-written stream.
use crate::driver::guard;
use crate::json::J;
use laps::input::InputStream;
use laps::reader::{ByteReader, Reader};
use laps::span::{FileType, Location, LocationUpdate, Result, Span};
use std::cell::Cell;
use std::collections::VecDeque;
use std::io::{self, Read};
use std::rc::Rc;

/// A source that returns what its script says: chunks of bytes, or an error.
pub struct Script {
  steps: VecDeque<Step>,
  errors: Rc<Cell<usize>>,
  salt: usize,
}

enum Step {
  Bytes(VecDeque<u8>),
  Error,
  Eof,
}

impl Script {
  /// `256` is an error, `257` ends a read, `258` is a temporary end of input, others are bytes.
  pub fn new(src: &[J], errors: Rc<Cell<usize>>) -> Self {
    let mut steps = VecDeque::new();
    let mut cur = VecDeque::new();
    for x in src {
      match x.int() {
        b @ 0..=255 => cur.push_back(b as u8),
        k => {
          if !cur.is_empty() {
            steps.push_back(Step::Bytes(std::mem::take(&mut cur)));
          }
          if k == 256 {
            steps.push_back(Step::Error);
          } else if k == 258 {
            steps.push_back(Step::Eof);
          }
        }
      }
    }
    if !cur.is_empty() {
      steps.push_back(Step::Bytes(cur));
    }
    let salt = src.iter().fold(src.len(), |a, x| (a * 7 + x.int() as usize) % 1009);
    Self { steps, errors, salt }
  }
}

/// Failures of every sort.
fn failure(n: usize) -> io::Error {
  use io::ErrorKind::*;
  const KINDS: [io::ErrorKind; 14] = [
    Other, UnexpectedEof, Interrupted, WouldBlock, TimedOut, InvalidData, BrokenPipe, PermissionDenied, NotFound, ConnectionReset,
    InvalidInput, WriteZero, AddrInUse, OutOfMemory,
  ];
  match n % 17 {
    k @ 0..=13 if n % 2 == 0 => io::Error::new(KINDS[k], "scripted"),
    k @ 0..=13 => KINDS[k].into(),
    14 => io::Error::from_raw_os_error(5),
    15 => io::Error::from_raw_os_error(4),
    _ => io::Error::new(UnexpectedEof, ""),
  }
}

impl Read for Script {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    if buf.is_empty() {
      return Ok(0);
    }
    match self.steps.front_mut() {
      None => Ok(0),
      Some(Step::Eof) => {
        self.steps.pop_front();
        Ok(0)
      }
      Some(Step::Error) => {
        self.steps.pop_front();
        self.errors.set(self.errors.get() + 1);
        Err(failure(self.salt + self.errors.get()))
      }
      Some(Step::Bytes(c)) => {
        let n = c.len().min(buf.len());
        for b in buf.iter_mut().take(n) {
          *b = c.pop_front().unwrap();
        }
        if c.is_empty() {
          self.steps.pop_front();
        }
        Ok(n)
      }
    }
  }
}

/// A user-written stream that implements the required methods only.
pub struct Custom<C> {
  rest: Vec<C>,
  span: Span,
}

impl<C> Custom<C> {
  pub fn new(mut text: Vec<C>) -> Self {
    text.reverse();
    Self { rest: text, span: Span::new(FileType::Buffer) }
  }
}

impl<C: LocationUpdate> InputStream for Custom<C> {
  type CharType = C;
  fn next_char_loc(&mut self) -> Result<(Option<C>, Location)> {
    let loc = self.span.start();
    let c = self.rest.pop();
    if let Some(c) = &c {
      self.span.update(c);
    }
    Ok((c, loc))
  }
  fn unread(&mut self, last: (Option<C>, Location)) {
    self.span.update_loc(last.1);
    if let Some(c) = last.0 {
      self.rest.push(c);
    }
  }
  fn span(&self) -> &Span {
    &self.span
  }
  fn set_line_col(&mut self, line: u32, col: u32) {
    self.span.update_loc(Location { line, col });
  }
}

pub trait Ch: Copy {
  fn code(self) -> i64;
  fn from_code(c: i64) -> Self;
}
impl Ch for char {
  fn code(self) -> i64 { self as i64 }
  fn from_code(c: i64) -> Self { char::from_u32(c as u32).unwrap() }
}
impl Ch for u8 {
  fn code(self) -> i64 { self as i64 }
  fn from_code(c: i64) -> Self { c as u8 }
}

pub fn sp(s: &Span) -> J {
  J::A(vec![s.start().line.into(), s.start().col.into(), s.end().line.into(), s.end().col.into()])
}

fn och<C: Ch>(c: Option<C>) -> J {
  J::A(c.into_iter().map(|c| J::I(c.code())).collect())
}

/// The answer to one operation: k (ok/err), characters, span or location.
fn ret(k: &str, c: J, s: J) -> J {
  obj! {"k": k, "c": c, "s": s}
}

fn none() -> J { J::A(vec![]) }

pub fn step<I, C>(r: &mut I, op: &J, last: &mut Vec<(Option<C>, Location)>) -> J
where
  I: InputStream<CharType = C>,
  C: Ch + PartialEq,
{
  // a predicate with a state: true from the nth hit on is not the same as true at it
  let mut left = op.get("nth").map_or(1, |n| n.int());
  let mut stop = |c: C| {
    let hit = op.at("stop").arr().iter().any(|x| x.int() == c.code());
    left -= hit as i64;
    hit && left == 0
  };
  let err = |e: laps::span::Error| ret(if e.is_fatal() { "fatal" } else { "normal" }, none(), none());
  match op.at("op").str() {
    "next" => match r.next_char_loc() {
      Ok((c, l)) => {
        last.push((c, l));
        ret("ok", och(c), J::A(vec![l.line.into(), l.col.into()]))
      }
      Err(e) => err(e),
    },
    "nextc" => r.next_char().map_or_else(err, |c| ret("ok", och(c), none())),
    "nexts" => r.next_char_span().map_or_else(err, |(c, s)| ret("ok", och(c), sp(&s))),
    "nspan" => match r.next_span() {
      Ok(s) => ret("ok", none(), sp(s)),
      Err(e) => err(e),
    },
    "peek" => r.peek().map_or_else(err, |c| ret("ok", och(c), none())),
    "peeks" => r.peek_with_span().map_or_else(err, |(c, s)| ret("ok", och(c), sp(&s))),
    "unread" => {
      if let Some(l) = last.pop() {
        r.unread(l);
      }
      ret("ok", none(), none())
    }
    "push" => {
      let c = C::from_code(op.at("c").int());
      r.unread((Some(c), Location { line: op.at("line").int() as u32, col: op.at("col").int() as u32 }));
      ret("ok", none(), none())
    }
    "set" => {
      r.set_line_col(op.at("line").int() as u32, op.at("col").int() as u32);
      ret("ok", none(), none())
    }
    "skip" => r.skip_until(|c| stop(c)).map_or_else(err, |_| ret("ok", none(), none())),
    "coll" => r.collect_until(|c| stop(*c)).map_or_else(err, |v| {
      ret("ok", J::A(v.into_iter().map(|c| J::I(c.code())).collect()), none())
    }),
    "colls" => r.collect_with_span_until(|c| stop(*c)).map_or_else(err, |(v, s)| {
      ret("ok", J::A(v.into_iter().map(|c| J::I(c.code())).collect()), sp(&s))
    }),
    o => crate::json::usage(&format!("op {o}")),
  }
}

fn go<I, C>(mut r: I, s: &J, errors: &Cell<usize>) -> Vec<J>
where
  I: InputStream<CharType = C>,
  C: Ch + PartialEq,
{
  let mut out = Vec::new();
  let mut last = Vec::new();
  for op in s.at("ops").arr() {
    errors.set(0);
    let mut x = match guard(|| {
      let a = step(&mut r, op, &mut last);
      (a, sp(r.span()), r.span().error_num())
    }) {
      Ok((a, s, e)) => {
        let mut a = a;
        a.set("sp", s);
        a.set("en", e.into());
        a.set("io", errors.get().into());
        a
      }
      Err(m) => obj! {"k": format!("panic: {m}"), "c": none(), "s": none(), "sp": none(), "en": 0, "io": 0},
    };
    let dead = x.at("k").str().starts_with("panic");
    let mut o = op.clone();
    o.set("ret", std::mem::replace(&mut x, J::B(true)));
    out.push(o);
    if dead {
      break;
    }
  }
  out
}

/// Readers made from text in memory or in a file.
macro_rules! by_ctor {
  ($name:ident, $s:expr, $src:expr, $errors:expr) => {{
    let bytes: Vec<u8> = $src.iter().filter(|x| x.int() < 256).map(|x| x.int() as u8).collect();
    let text = || String::from_utf8(bytes.clone()).unwrap();
    match $s.get("ctor").map_or("new", |c| c.str()) {
      "new" => go($name::<_>::new(Script::new($src, $errors.clone()), FileType::Buffer), &$s, &$errors),
      "str" => { let t = text(); go($name::from(t.as_str()), &$s, &$errors) }
      "string" => go($name::from(text()), &$s, &$errors),
      "slice" => go($name::from(bytes.as_slice()), &$s, &$errors),
      "path" => {
        let p = std::env::temp_dir().join(format!("laps-harness-{}", std::process::id()));
        std::fs::write(&p, &bytes).unwrap();
        let r = $name::from_path(&p);
        std::fs::remove_file(&p).unwrap();
        match r {
          Ok(r) => go(r, &$s, &$errors),
          Err(e) => vec![obj! {"op": "open", "ret": obj! {"k": format!("{e}")}}],
        }
      }
      c => crate::json::usage(&format!("ctor {c}")),
    }
  }};
}

pub fn run(s: J) -> J {
  let src = s.at("src").arr();
  let errors = Rc::new(Cell::new(0));
  let ops = match s.at("kind").str() {
    "char" => by_ctor!(Reader, s, src, errors),
    "byte" => by_ctor!(ByteReader, s, src, errors),
    "custom" => {
      let b: Vec<u8> = src.iter().filter(|x| x.int() < 256).map(|x| x.int() as u8).collect();
      let text = String::from_utf8(b).unwrap().chars().collect();
      go(Custom::<char>::new(text), &s, &errors)
    }
    k => crate::json::usage(&format!("kind {k}")),
  };
  obj! {"kind": s.at("kind").clone(), "src": s.at("src").clone(), "ops": J::A(ops)}
}

impl From<&J> for J {
  fn from(v: &J) -> J { v.clone() }
}
