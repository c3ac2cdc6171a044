// A part of the generated module: from characters to syntax trees. The token kind derives
// Tokenize; `CharOf` is the type of its characters and `Chars` its reader.
use crate::reader::{sp, step, Script as Source};
use laps::lexer::{Lexer, Tokenize};
use std::cell::{Cell, RefCell};
use std::io::Read;

pub type Lexed = TokenBuffer<Lexer<Chars, Kind>, Token>;

impl Stream for Lexed {
  fn asks(&self) -> usize { 0 }
  fn direct(&mut self) -> Result<Token> { self.inner_mut().next_token() }
  fn parse_g(&mut self, g: i64, cx: &Cx) -> Out { parse_lex(g, self, cx) }
  fn maybe_g(&mut self, g: i64) -> Result<bool> { maybe_lex(g, self) }
  fn unwrap_g(&mut self, g: i64, cx: &Cx) -> Result<(Vec<i64>, Vec<i64>)> { unwrap_g(g, self, cx) }
}
fn source(s: &J) -> Box<dyn Read> {
  let src = s.at("src").arr();
  let bytes: Vec<u8> = src.iter().filter(|x| x.int() < 256).map(|x| x.int() as u8).collect();
  match s.at("ctor").str() {
    "pieces" => Box::new(Source::new(src, std::rc::Rc::new(Cell::new(0)))),
    "slice" => Box::new(std::io::Cursor::new(bytes)),
    "chain" => { let (a, b) = bytes.split_at(bytes.len() / 2); Box::new(std::io::Cursor::new(a.to_vec()).chain(std::io::Cursor::new(b.to_vec()))) }
    _ => json::usage("ctor"),
  }
}

pub fn e2e(mut s: J) -> J {
  let input = Chars::new(source(&s), FileType::Buffer);
  // tokens of the user's own are counted with the rest
  let base = laps::input::InputStream::span(&input).clone();
  let toks: Vec<Token> = s.at("toks").arr().iter()
    .map(|t| LapsToken { kind: kind(t.at("k").int(), t.at("v").int()), span: mk_span(&base, t.at("sp")) })
    .collect();
  let cx = Cx { toks: Rc::new(toks), seen: Some(RefCell::new(Vec::new())) };
  let mut buf: Lexed = TokenBuffer::new(Kind::lexer(input));
  let mut hist = Vec::new();
  let mut last = Vec::new();
  let mut ops = Vec::new();
  for o in s.at("ops").arr() {
    let mut r = match o.at("op").str() {
      // the tokens in the buffer go away, the lexer stays
      "rewrap" => { buf = TokenBuffer::new(buf.into_inner()); ret("ok", vec![], false) }
      "relex" => { buf = TokenBuffer::from(Kind::lexer(buf.into_inner().into_input())); ret("ok", vec![], false) }
      _ => guard(|| match o.at("op").str() {
        "char" => {
          let c = step(buf.inner_mut().input_mut(), o.at("do"), &mut last);
          let mut r = ret("ok", vec![], false);
          r.set("k", c.at("k").clone());
          r.set("c", c.at("c").clone());
          r.set("s", c.at("s").clone());
          r
        }
        _ => op(&mut buf, o, &mut hist, &cx),
      }).unwrap_or_else(|e| { let mut r = ret("panic", vec![], false); r.set("msg", J::S(e)); r }),
    };
    let span = buf.inner().input().span();
    r.set("pos", sp(span));
    r.set("en", span.error_num().into());
    let end = *r.at("k") == J::S("panic".into());
    let mut o = o.clone();
    o.set("ret", r);
    ops.push(o);
    if end { break; }
  }
  let leaves = cx.seen.unwrap().into_inner().iter().map(|t| {
    let (k, v) = kv(&t.kind);
    obj! {"k": k, "v": v, "sp": sp(&t.span), "disp": t.to_string()}
  }).collect();
  s.set("leaves", J::A(leaves));
  s.set("ops", J::A(ops));
  s
}
