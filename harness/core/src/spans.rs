//! Histories of spans, logging calls and tokens; what is printed is captured.
use crate::driver::guard;
use crate::json::{cps, usage, J};
use crate::{message, width};
use laps::span::{Error, FileType, Location, Span, Spanned};
use laps::token::Token;
use std::borrow::{Borrow, BorrowMut};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::fmt;
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::io::{Read, Seek, Write};
use std::os::fd::AsRawFd;

extern "C" {
  fn dup(fd: i32) -> i32;
  fn dup2(a: i32, b: i32) -> i32;
  fn close(fd: i32) -> i32;
}

/// What `f` prints on standard output and standard error.
pub fn captured<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
  thread_local! {
    static TMP: File = {
      let p = std::env::temp_dir().join(format!("laps-harness-out-{}", std::process::id()));
      let f = File::options().read(true).append(true).create(true).open(&p).unwrap();
      std::fs::remove_file(&p).unwrap();
      f
    };
  }
  TMP.with(|mut t| {
    t.set_len(0).unwrap();
    std::io::stdout().flush().unwrap();
    let (o, e) = unsafe { (dup(1), dup(2)) };
    unsafe { dup2(t.as_raw_fd(), 1); dup2(t.as_raw_fd(), 2); }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let _ = std::io::stdout().flush();
    unsafe { dup2(o, 1); dup2(e, 2); close(o); close(e); }
    let mut v = Vec::new();
    t.rewind().unwrap();
    t.read_to_end(&mut v).unwrap();
    if std::env::var_os("LAPS_COLORED").is_some() { v = plain(&v); }
    (r.unwrap_or_else(|e| std::panic::resume_unwind(e)), v)
  })
}

/// A text without the sequences that set colours (ESC [ numbers m).
fn plain(v: &[u8]) -> Vec<u8> {
  let (mut out, mut i) = (Vec::new(), 0);
  while i < v.len() {
    if v[i..].starts_with(b"\x1b[") {
      let n = v[i + 2..].iter().take_while(|b| b.is_ascii_digit() || **b == b';').count();
      if v.get(i + 2 + n) == Some(&b'm') { i += n + 3; continue; }
    }
    out.push(v[i]);
    i += 1;
  }
  out
}

/// A kind that is compared by its number, and displayed as its word.
#[derive(Clone, Debug)]
pub struct Kind {
  k: i64,
  w: String,
}
impl PartialEq for Kind { fn eq(&self, o: &Self) -> bool { self.k == o.k } }
impl Eq for Kind {}
impl Hash for Kind { fn hash<H: Hasher>(&self, h: &mut H) { self.k.hash(h) } }
impl fmt::Display for Kind { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.pad(&self.w) } }
impl From<(i64, String)> for Kind { fn from((k, w): (i64, String)) -> Self { Self { k, w } } }

fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
  let mut h = DefaultHasher::new();
  x.hash(&mut h);
  h.finish()
}

fn sp(s: &Span) -> Vec<J> {
  vec![s.start().line.into(), s.start().col.into(), s.end().line.into(), s.end().col.into()]
}

pub fn log(s: &Span, kind: &str, via: &str, msg: &str) -> Option<Error> {
  fn returns(s: &Span, msg: &str) -> laps::span::Result<()> {
    laps::return_error!(s, "{}", msg)
  }
  match (kind, via) {
    ("error", "return") => returns(s, msg).err(),
    ("error", "macro") => Some(laps::log_error!(s, "{msg}")),
    ("error", _) => Some(s.log_error(format_args!("{msg}"))),
    ("fatal", "macro") => Some(laps::log_fatal_error!(s, "{msg}")),
    ("fatal", _) => Some(s.log_fatal_error(format_args!("{msg}"))),
    ("warning", "macro") => { laps::log_warning!(s, "{}", msg); None }
    ("warning", _) => { s.log_warning(format_args!("{msg}")); None }
    ("rawerror", "macro") => Some(laps::log_raw_error!(s, "{}", msg)),
    ("rawerror", _) => Some(s.log_raw_error(format_args!("{msg}"))),
    ("rawfatal", "macro") => Some(laps::log_raw_fatal_error!(s, "{msg}")),
    ("rawfatal", _) => Some(s.log_raw_fatal_error(format_args!("{msg}"))),
    ("rawwarning", "macro") => { laps::log_raw_warning!(s, "{msg}"); None }
    ("rawwarning", _) => { s.log_raw_warning(format_args!("{msg}")); None }
    ("summary", _) => { s.log_summary(); None }
    _ => usage(&format!("log {kind} {via}")),
  }
}

fn text(v: &[u8]) -> J {
  match std::str::from_utf8(v) { Ok(s) => cps(s), Err(_) => J::S("not UTF-8".into()) }
}

struct World<'a> {
  files: &'a [J],
  spans: Vec<Span>,
  toks: Vec<Token<Kind>>,
}

impl World<'_> {
  fn source(&self, n: i64, how: &str) -> Span {
    use laps::input::InputStream;
    use laps::reader::{ByteReader, Reader};
    let f = &self.files[n as usize - 1];
    let name = f.at("name").chars();
    match (f.at("kind").str(), how) {
      ("stdin", "reader") => Reader::from_stdin().span().clone(),
      ("stdin", "bytes") => ByteReader::from_stdin().span().clone(),
      ("stdin", _) => Span::new(FileType::Stdin),
      ("buffer", "reader") => Reader::from("ab").span().clone(),
      ("buffer", "bytes") => ByteReader::from("ab").span().clone(),
      ("buffer", _) => Span::new(FileType::Buffer),
      ("file", "reader") => Reader::from_path(&name).unwrap().span().clone(),
      ("file", "bytes") => ByteReader::from_path(&name).unwrap().span().clone(),
      (_, _) => Span::new(FileType::File(std::path::Path::new(&name).into())),
    }
  }

  fn step(&mut self, o: &J) -> J {
    let i = o.get("i").map_or(0, |x| x.int() as usize - 1);
    let j = o.get("j").map_or(0, |x| x.int() as usize - 1);
    let byte = o.get("byte").is_some();
    let none = J::A(vec![]);
    match o.at("op").str() {
      "new" => self.spans.push(self.source(o.at("ft").int(), o.at("how").str())),
      "clone" => self.spans.push(self.spans[i].clone()),
      "drop" => { self.spans.remove(i); }
      "update" if byte => self.spans[i].update(&(o.at("c").int() as u8)),
      "update" => self.spans[i].update(&char::from_u32(o.at("c").int() as u32).unwrap()),
      "intoup" if byte => self.spans.push(self.spans[i].clone().into_updated(&(o.at("c").int() as u8))),
      "intoup" => self.spans.push(self.spans[i].clone().into_updated(&char::from_u32(o.at("c").int() as u32).unwrap())),
      "loc" => self.spans[i].update_loc(Location { line: o.at("line").int() as u32, col: o.at("col").int() as u32 }),
      "end" if byte => { let t = self.spans[j].clone(); self.spans[i].update_end(&t) }
      "end" => { let t = self.spans[j].clone(); self.spans[i].update_end(t) }
      "intoend" => { let s = self.spans[i].clone().into_end_updated(&self.spans[j]); self.spans.push(s) }
      "same" => return self.spans[i].is_in_same_line_as(&self.spans[j]).into(),
      "eq" => return (self.spans[i] == self.spans[j]).into(),
      "disp" => return cps(&self.spans[i].to_string()),
      "name" => return cps(&self.spans[i].file_type().to_string()),
      "log" => {
        let msg = o.at("msg").chars();
        let (e, out) = captured(|| log(&self.spans[i], o.at("kind").str(), o.at("via").str(), &msg));
        return obj! {"printed": text(&out), "err": J::A(e.iter().map(|e| obj! {"fatal": e.is_fatal(), "msg": message(e)}).collect())};
      }
      "logbig" => {
        let num = |k: &str| o.at(k).chars().parse::<u32>().unwrap();
        let mut s = self.spans[i].clone();
        s.update_loc(Location { line: num("eline"), col: num("ecol") });
        let mut t = self.spans[i].clone();
        t.update_loc(Location { line: num("line"), col: num("col") });
        t.update_end(s);
        let msg = o.at("msg").chars();
        let (e, out) = captured(|| t.log_error(format_args!("{msg}")));
        return match message(&e).arr() {
          [] => {
            let n = out.iter().enumerate().filter(|(_, b)| **b == b'\n').nth(1).map_or(out.len(), |(n, _)| n + 1);
            text(&out[..n])
          }
          m => m[0].clone(),
        };
      }
      "tok" => self.toks.push(Token::new((o.at("k").int(), o.at("w").str().to_string()), self.spans[i].clone())),
      "tclone" => self.toks.push(self.toks[i].clone()),
      "tset" => {
        let k = Kind { k: o.at("k").int(), w: o.at("w").str().into() };
        let t = &mut self.toks[i];
        match o.at("via").str() {
          "field" => t.kind = k,
          "borrow" => *<Token<Kind> as BorrowMut<Kind>>::borrow_mut(t) = k,
          _ => *<Token<Kind> as AsMut<Kind>>::as_mut(t) = k,
        }
      }
      "teq" => {
        let (a, b) = (&self.toks[i], &self.toks[j]);
        return obj! {"eq": a == b, "ne": a != b, "kind": *a == b.kind, "hash": hash(a) == hash(b)};
      }
      "tlike" => {
        let (a, b) = (&self.toks[i], &self.toks[j]);
        let set: HashSet<Token<Kind>> = [a.clone()].into_iter().collect();
        return obj! {
          "hash": hash(a) == hash(&a.kind), "found": set.contains(&b.kind), "borrow": <Token<Kind> as Borrow<Kind>>::borrow(a).w.clone(),
          "asref": <Token<Kind> as AsRef<Kind>>::as_ref(a).w.clone(), "text": a.to_string(),
          "pad": format!("{a:>7}|{a:*<9}|{a:.2}") == format!("{:>7}|{:*<9}|{:.2}", a.kind.w, a.kind.w, a.kind.w)
        };
      }
      "tspan" => {
        let s = self.toks[i].span();
        let v = J::A(sp(&s));
        self.spans.push(s);
        return v;
      }
      x => usage(&format!("op {x}")),
    }
    none
  }

  fn view(&self) -> J {
    obj! {
      "sps": J::A(self.spans.iter().map(|s| { let mut v = sp(s); v.push(s.error_num().into()); v.push(s.warning_num().into()); J::A(v) }).collect()),
      "toks": J::A(self.toks.iter().map(|t| { let mut v = vec![J::S(t.kind.w.clone())]; v.extend(sp(&t.span)); J::A(v) }).collect()),
    }
  }
}

/// A scratch directory that files are created in; it is the working directory while it exists.
struct Scratch(std::path::PathBuf);
impl Scratch {
  fn new() -> Self {
    let p = std::env::temp_dir().join(format!("laps-harness-spans-{}", std::process::id()));
    std::fs::create_dir_all(&p).unwrap();
    std::env::set_current_dir(&p).unwrap();
    Self(p)
  }
}
impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = std::env::set_current_dir(std::env::temp_dir());
    let _ = std::fs::remove_dir_all(&self.0);
  }
}

pub fn run(s: J) -> J {
  let _dir = Scratch::new();
  let mut chars = HashSet::new();
  for f in s.at("files").arr() {
    let name = f.at("name").chars();
    match f.at("kind").str() {
      "file" => {
        let mut v = Vec::new();
        for r in f.at("bytes").arr() {
          for _ in 0..r.arr()[0].int() { v.extend(r.arr()[1].bytes()); }
        }
        chars.extend(String::from_utf8_lossy(&v).chars());
        std::fs::write(&name, &v).unwrap();
      }
      "dir" => std::fs::create_dir_all(&name).unwrap(),
      _ => {}
    }
  }
  let wd = chars.into_iter().map(|c| J::A(vec![J::I(c as i64), width(c).into()])).collect();
  let mut w = World { files: s.at("files").arr(), spans: vec![], toks: vec![] };
  let mut ops = Vec::new();
  for o in s.at("ops").arr() {
    let mut x = o.clone();
    let r = guard(|| { let v = w.step(o); obj! {"k": "ok", "v": v, "view": w.view()} });
    let dead = r.is_err();
    x.set("ret", r.unwrap_or_else(|m| obj! {"k": format!("panic: {m}")}));
    ops.push(x);
    if dead { break; }
  }
  obj! {"files": s.at("files").clone(), "wd": J::A(wd), "ops": J::A(ops)}
}
