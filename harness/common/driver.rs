//! The main loop of the harness crates: scenarios in, traces out, panics recorded as observations.
#![allow(dead_code)]
use crate::json::{self, J};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Records the operations of one scenario: what is recorded before a panic is kept.
#[derive(Default)]
pub struct Log {
  pub ops: Vec<J>,
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
  if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
  else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
  else { "panic".into() }
}

/// Calls `f`; a panic becomes `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_text(&*e))
}

pub fn main_loop(run: fn(&str, J) -> J) {
  std::panic::set_hook(Box::new(|_| {}));
  let args: Vec<String> = std::env::args().collect();
  if args.len() != 4 { json::usage("DOMAIN IN OUT"); }
  let input = BufReader::new(File::open(&args[2]).unwrap_or_else(|e| json::usage(&e.to_string())));
  let mut out = BufWriter::new(File::create(&args[3]).unwrap_or_else(|e| json::usage(&e.to_string())));
  let stdout = std::io::stdout();
  for (i, line) in input.lines().enumerate() {
    let line = line.unwrap();
    {
      let mut so = stdout.lock();
      let _ = writeln!(so, "{i}");
      let _ = so.flush();
    }
    let t = run(&args[1], json::parse(&line));
    // one scenario may give several traces
    match t.get("many") {
      Some(v) => v.arr().iter().for_each(|t| writeln!(out, "{t}").unwrap()),
      None => writeln!(out, "{t}").unwrap(),
    }
  }
  out.flush().unwrap();
}
