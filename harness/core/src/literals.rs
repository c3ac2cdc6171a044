//! Conversions of integer, string and character literals.
use crate::driver::guard;
use crate::json::{cps, J};
use laps::lexer::{char_literal, int_literal, signed_int_literal, str_literal};

fn some(v: Option<J>) -> J {
  J::A(v.into_iter().collect())
}

macro_rules! all {
  ($f:ident, $s:expr; $($t:ty)*) => { J::A(vec![$(some($f::<$t>($s).map(|v| J::A(v.to_le_bytes().iter().map(|b| J::I(*b as i64)).collect())))),*]) };
}

fn one(op: &str, s: &str) -> J {
  match op {
    "int" => obj! {
      "int": all!(int_literal, s; i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize),
      "sint": all!(signed_int_literal, s; i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize),
    },
    "text" => obj! {
      "str": some(str_literal(s).map(|s| cps(&s))),
      "chr": some(char_literal(s).map(|c| J::I(c as i64))),
    },
    o => crate::json::usage(&format!("op {o}")),
  }
}

pub fn run(s: J) -> J {
  let mut ops = Vec::new();
  for o in s.at("ops").arr() {
    let text = o.at("s").chars();
    let op = o.at("op").str();
    let mut o = o.clone();
    o.set("ret", guard(|| one(op, &text)).unwrap_or_else(|m| obj! {"panic": m}));
    ops.push(o);
  }
  obj! {"ops": J::A(ops)}
}
