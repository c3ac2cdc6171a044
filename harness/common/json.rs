//! A minimal JSON reader and writer, so that the harness crates need no dependencies.
#![allow(dead_code)]
use std::fmt::{self, Write as _};

#[derive(Clone, Debug, PartialEq)]
pub enum J {
  I(i64),
  B(bool),
  S(String),
  A(Vec<J>),
  O(Vec<(String, J)>),
}

impl From<i64> for J { fn from(v: i64) -> J { J::I(v) } }
impl From<i32> for J { fn from(v: i32) -> J { J::I(v as i64) } }
impl From<u32> for J { fn from(v: u32) -> J { J::I(v as i64) } }
impl From<usize> for J { fn from(v: usize) -> J { J::I(v as i64) } }
impl From<bool> for J { fn from(v: bool) -> J { J::B(v) } }
impl From<&str> for J { fn from(v: &str) -> J { J::S(v.into()) } }
impl From<String> for J { fn from(v: String) -> J { J::S(v) } }
impl From<Vec<J>> for J { fn from(v: Vec<J>) -> J { J::A(v) } }

/// Characters of a string as an array of code points.
pub fn cps(s: &str) -> J { J::A(s.chars().map(|c| J::I(c as i64)).collect()) }
pub fn bytes(s: &[u8]) -> J { J::A(s.iter().map(|c| J::I(*c as i64)).collect()) }

#[macro_export]
macro_rules! obj {
  ($($k:literal : $v:expr),* $(,)?) => { $crate::json::J::O(vec![$(($k.to_string(), $crate::json::J::from($v))),*]) };
}

impl J {
  pub fn get(&self, k: &str) -> Option<&J> {
    match self { J::O(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v), _ => None }
  }
  pub fn at(&self, k: &str) -> &J { self.get(k).unwrap_or_else(|| usage(&format!("no field {k} in {self}"))) }
  pub fn int(&self) -> i64 { match self { J::I(v) => *v, _ => usage(&format!("not an int: {self}")) } }
  pub fn str(&self) -> &str { match self { J::S(v) => v, _ => usage(&format!("not a string: {self}")) } }
  pub fn arr(&self) -> &[J] { match self { J::A(v) => v, _ => usage(&format!("not an array: {self}")) } }
  pub fn bytes(&self) -> Vec<u8> { self.arr().iter().map(|j| j.int() as u8).collect() }
  pub fn chars(&self) -> String { self.arr().iter().map(|j| char::from_u32(j.int() as u32).unwrap()).collect() }
  pub fn set(&mut self, k: &str, v: J) {
    if let J::O(f) = self {
      match f.iter_mut().find(|(n, _)| n == k) { Some(x) => x.1 = v, None => f.push((k.into(), v)) }
    }
  }
}

/// The harness was used wrongly: not the fault of the code under test.
pub fn usage(msg: &str) -> ! {
  eprintln!("harness usage error: {msg}");
  std::process::exit(3)
}

impl fmt::Display for J {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    match self {
      J::I(v) => write!(f, "{v}"),
      J::B(v) => write!(f, "{v}"),
      J::S(s) => {
        f.write_char('"')?;
        for c in s.chars() {
          match c {
            '"' => f.write_str("\\\"")?,
            '\\' => f.write_str("\\\\")?,
            c if (c as u32) < 0x20 || c as u32 >= 0x7f => {
              let mut b = [0u16; 2];
              for u in c.encode_utf16(&mut b) { write!(f, "\\u{:04x}", u)?; }
            }
            c => f.write_char(c)?,
          }
        }
        f.write_char('"')
      }
      J::A(v) => {
        f.write_char('[')?;
        for (i, x) in v.iter().enumerate() {
          if i > 0 { f.write_char(',')?; }
          write!(f, "{x}")?;
        }
        f.write_char(']')
      }
      J::O(v) => {
        f.write_char('{')?;
        for (i, (k, x)) in v.iter().enumerate() {
          if i > 0 { f.write_char(',')?; }
          write!(f, "\"{k}\":{x}")?;
        }
        f.write_char('}')
      }
    }
  }
}

pub fn parse(s: &str) -> J {
  let b: Vec<char> = s.chars().collect();
  let mut i = 0;
  val(&b, &mut i)
}

fn ws(b: &[char], i: &mut usize) { while *i < b.len() && b[*i].is_whitespace() { *i += 1; } }

fn val(b: &[char], i: &mut usize) -> J {
  ws(b, i);
  match b[*i] {
    '{' => {
      *i += 1;
      let mut v = Vec::new();
      loop {
        ws(b, i);
        match b[*i] {
          '}' => { *i += 1; break J::O(v); }
          ',' => *i += 1,
          _ => {
            let k = match val(b, i) { J::S(s) => s, _ => usage("json key") };
            ws(b, i);
            if b[*i] != ':' { usage("json colon"); }
            *i += 1;
            v.push((k, val(b, i)));
          }
        }
      }
    }
    '[' => {
      *i += 1;
      let mut v = Vec::new();
      loop {
        ws(b, i);
        match b[*i] {
          ']' => { *i += 1; break J::A(v); }
          ',' => *i += 1,
          _ => v.push(val(b, i)),
        }
      }
    }
    '"' => {
      *i += 1;
      let mut u: Vec<u16> = Vec::new();
      loop {
        let c = b[*i];
        *i += 1;
        match c {
          '"' => break J::S(String::from_utf16(&u).unwrap_or_else(|_| usage("json string"))),
          '\\' => {
            let e = b[*i];
            *i += 1;
            match e {
              'u' => {
                let h: String = b[*i..*i + 4].iter().collect();
                *i += 4;
                u.push(u16::from_str_radix(&h, 16).unwrap_or_else(|_| usage("json escape")));
              }
              'n' => u.push(10), 't' => u.push(9), 'r' => u.push(13), 'b' => u.push(8), 'f' => u.push(12),
              c => { let mut t = [0; 2]; u.extend_from_slice(c.encode_utf16(&mut t)); }
            }
          }
          c => { let mut t = [0; 2]; u.extend_from_slice(c.encode_utf16(&mut t)); }
        }
      }
    }
    't' => { *i += 4; J::B(true) }
    'f' => { *i += 5; J::B(false) }
    _ => {
      let st = *i;
      while *i < b.len() && (b[*i] == '-' || b[*i].is_ascii_digit()) { *i += 1; }
      let t: String = b[st..*i].iter().collect();
      J::I(t.parse().unwrap_or_else(|_| usage(&format!("json number {t:?}"))))
    }
  }
}
