//! Declarations the macros accept or reject. The file with them is generated by the check and
//! named by the environment variable LAPS_GEN.
#![allow(deprecated, dead_code, unused, clippy::all)]
use laps::parse::Parse;
use laps::prelude::*;
use laps::span::{Result, Span, Spanned, TrySpan};
use laps::token::{token_ast, token_kind, TokenStream};
use laps::lexer::Tokenize;

#[token_kind]
#[derive(Debug)]
pub enum Kind {
  Num(i64),
  Sym(char),
  Word(String),
  Plus,
  EndOfFile,
}
pub type Token = laps::token::Token<Kind>;

token_ast! {
  #[derive(Clone, Debug, PartialEq)]
  macro Tok<Kind> {
    [num] => { kind: Kind::Num(_), prompt: "number" },
    [+] => { kind: Kind::Sym('+') },
    [word] => { kind: Kind::Word(_), prompt: "word" },
  }
}

/// Parsed from any stream, without a span.
pub struct Any;
impl<TS: TokenStream> Parse<TS> for Any {
  fn parse(_: &mut TS) -> Result<Self> { Ok(Any) }
  fn maybe(_: &mut TS) -> Result<bool> { Ok(true) }
}
/// Nothing at all.
pub struct Nothing;

mod gen {
  use super::*;
  include!(env!("LAPS_GEN"));
}

fn main() {}
