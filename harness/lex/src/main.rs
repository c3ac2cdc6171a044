//! Harness for derived lexers and token kinds. The enums are generated by the check; the file
//! they are in is named by the environment variable LAPS_GEN.
#![allow(deprecated, dead_code, unused_variables, unused_imports, clippy::all)]
#[path = "../../common/json.rs"]
#[macro_use]
mod json;
#[path = "../../common/driver.rs"]
mod driver;
#[path = "../../core/src/reader.rs"]
mod reader;

use driver::guard;
use json::{usage, J};
use laps::input::InputStream;
use laps::lexer::{int_literal, Lexer, Tokenize};
use laps::reader::{ByteReader, Reader};
use laps::span::{Error, FileType, Span};
use laps::token::{token_kind, Tokenizer};
use reader::{sp, step, Ch, Custom, Script};
use std::cell::Cell;
use std::fmt::Display;
use std::str::FromStr;
use std::rc::Rc;

/// A generated token kind: the number of the variant, and the value it holds.
pub trait Lx {
  fn dump(&self) -> (i64, Vec<i64>);
}
pub trait Val { fn ints(&self) -> Vec<i64>; }
impl Val for String { fn ints(&self) -> Vec<i64> { self.chars().map(|c| c as i64).collect() } }
impl Val for Vec<u8> { fn ints(&self) -> Vec<i64> { self.iter().map(|c| *c as i64).collect() } }
impl Val for char { fn ints(&self) -> Vec<i64> { vec![*self as i64] } }
impl Val for u8 { fn ints(&self) -> Vec<i64> { vec![*self as i64] } }
impl Val for i16 { fn ints(&self) -> Vec<i64> { vec![*self as i64] } }
impl Val for &str { fn ints(&self) -> Vec<i64> { vec![self.len() as i64] } }
impl<const N: usize> Val for [u8; N] { fn ints(&self) -> Vec<i64> { vec![N as i64] } }
impl Val for bool { fn ints(&self) -> Vec<i64> { vec![*self as i64] } }

/// A generated token kind with conversions (K01).
pub trait Kx {
  /// Number of the variant.
  fn var(&self) -> i64;
}

mod gen {
  use super::*;
  include!(env!("LAPS_GEN"));
}

fn ints(v: &[i64]) -> J { J::A(v.iter().map(|x| J::I(*x)).collect()) }

fn tok<I, K, C>(lexer: &mut Lexer<I, K>) -> J
where
  I: InputStream<CharType = C>,
  K: Tokenize<CharType = C> + Lx,
{
  let mut o = obj! {"k": "tok", "var": 0, "val": ints(&[]), "sp": ints(&[]), "msg": "", "loc": ints(&[])};
  match lexer.next_token() {
    Ok(t) => {
      let (var, val) = t.kind.dump();
      o.set("var", J::I(var));
      o.set("val", ints(&val));
      o.set("sp", sp(&t.span));
    }
    Err(e) => {
      let fatal = e.is_fatal();
      o.set("k", J::S(if fatal { "fatal" } else { "err" }.into()));
      let msg = match e { Error::Normal(m) | Error::Fatal(m) => m };
      let parts: Vec<&str> = msg.splitn(4, ':').collect();
      if !fatal && parts.len() == 4 {
        if let (Ok(l), Ok(c)) = (parts[1].parse::<i64>(), parts[2].parse::<i64>()) {
          o.set("loc", ints(&[l, c]));
          o.set("msg", J::S(parts[3].strip_prefix(' ').unwrap_or(parts[3]).into()));
        }
      }
    }
  }
  o
}

fn go<I, K, C>(input: I, s: &J, errors: &Cell<usize>) -> Vec<J>
where
  I: InputStream<CharType = C>,
  K: Tokenize<CharType = C> + Lx,
  C: Ch + PartialEq,
{
  let mut lexer = K::lexer(input);
  let mut last = Vec::new();
  let mut out = Vec::new();
  for op in s.at("ops").arr() {
    errors.set(0);
    let r = guard(|| {
      if op.at("op").str() == "tok" {
        let mut r = tok(&mut lexer);
        r.set("pos", sp(lexer.input().span()));
        r
      } else {
        let mut r = step(lexer.input_mut(), op, &mut last);
        r.set("sp", sp(lexer.input().span()));
        r
      }
    });
    let dead = r.is_err();
    let mut r = r.unwrap_or_else(|m| obj! {"k": format!("panic: {m}"), "var": 0, "val": ints(&[]), "sp": ints(&[]),
      "msg": m, "loc": ints(&[]), "pos": ints(&[]), "c": ints(&[]), "s": ints(&[])});
    r.set("en", lexer.input().span().error_num().into());
    r.set("io", errors.get().into());
    let mut o = op.clone();
    o.set("ret", r);
    out.push(o);
    if dead { break; }
  }
  // the input is handed back as it is
  let sp1 = sp(lexer.input().span());
  assert!(sp(lexer.into_input().span()) == sp1);
  out
}

pub fn run_char<K: Tokenize<CharType = char> + Lx>(s: &J) -> Vec<J> {
  let src = s.at("src").arr();
  let errors = Rc::new(Cell::new(0));
  let bytes: Vec<u8> = src.iter().filter(|x| x.int() < 256).map(|x| x.int() as u8).collect();
  let text = || String::from_utf8(bytes.clone()).unwrap_or_else(|_| usage("text"));
  match s.at("ctor").str() {
    "new" => go::<_, K, _>(Reader::<_>::new(Script::new(src, errors.clone()), FileType::Buffer), s, &errors),
    "str" => { let t = text(); go::<_, K, _>(Reader::from(t.as_str()), s, &errors) }
    "string" => go::<_, K, _>(Reader::from(text()), s, &errors),
    "custom" => go::<_, K, _>(Custom::new(text().chars().collect()), s, &errors),
    _ => usage("ctor"),
  }
}

pub fn run_u8<K: Tokenize<CharType = u8> + Lx>(s: &J) -> Vec<J> {
  let src = s.at("src").arr();
  let errors = Rc::new(Cell::new(0));
  let bytes: Vec<u8> = src.iter().filter(|x| x.int() < 256).map(|x| x.int() as u8).collect();
  match s.at("ctor").str() {
    "new" => go::<_, K, _>(ByteReader::<_>::new(Script::new(src, errors.clone()), FileType::Buffer), s, &errors),
    "custom" => go::<_, K, _>(Custom::new(bytes), s, &errors),
    "str" | "string" => go::<_, K, _>(ByteReader::from(bytes.as_slice()), s, &errors),
    _ => usage("ctor"),
  }
}

fn run(domain: &str, mut s: J) -> J {
  match domain {
    "lex" => {
      let ops = gen::run_lexer(s.at("lx").int(), &s);
      s.set("ops", J::A(ops));
      s
    }
    "kind" => {
      let ops: Vec<J> = s.at("ops").arr().iter().map(|o| {
        let r = guard(|| gen::run_kind(s.at("e").int(), o)).unwrap_or_else(|m| obj! {"panic": m});
        let mut o = o.clone();
        o.set("ret", r);
        o
      }).collect();
      s.set("ops", J::A(ops));
      s
    }
    d => usage(&format!("domain {d}")),
  }
}

/// The answer to `Result<payload, ()>`: its text, if any.
pub fn opt<T: Display>(r: Result<T, ()>) -> J {
  J::A(r.ok().into_iter().map(|x| J::S(x.to_string())).collect())
}

fn main() {
  driver::main_loop(run)
}
