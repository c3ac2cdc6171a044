//! Harness for `laps` without the logger.
#[path = "../../common/json.rs"]
#[macro_use]
mod json;
#[path = "../../common/driver.rs"]
mod driver;
#[path = "../../core/src/reader.rs"]
mod reader;
#[path = "../../core/src/spans.rs"]
mod spans;
#[path = "../../core/src/threads.rs"]
mod threads;

use json::J;
use laps::span::Error;

/// The message that an error carries.
pub fn message(e: &Error) -> J {
  match e {
    Error::Normal(m) | Error::Fatal(m) => J::A(vec![json::cps(m)]),
  }
}

pub fn width(_: char) -> usize {
  0
}

fn run(domain: &str, s: J) -> J {
  match domain {
    "reader" => reader::run(s),
    "spans" => spans::run(s),
    "threads" => threads::small(s),
    "stress" => threads::stress(s),
    d => json::usage(&format!("unknown domain {d}")),
  }
}

fn main() {
  driver::main_loop(run)
}
