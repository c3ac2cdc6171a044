//! Harness for the parts of `laps` that need no macros.
#[path = "../../common/json.rs"]
#[macro_use]
mod json;
#[path = "../../common/driver.rs"]
mod driver;
mod literals;
mod reader;
mod spans;
mod threads;

use json::J;
use unicode_width::UnicodeWidthChar;

/// The message that an error carries: none if it has been printed.
pub fn message(_: &laps::span::Error) -> J {
  J::A(vec![])
}

pub fn width(c: char) -> usize {
  c.width().unwrap_or(0)
}

fn run(domain: &str, s: J) -> J {
  match domain {
    "reader" => reader::run(s),
    "literals" => literals::run(s),
    "spans" => spans::run(s),
    "threads" => threads::small(s),
    "stress" => threads::stress(s),
    d => json::usage(&format!("unknown domain {d}")),
  }
}

fn main() {
  driver::main_loop(run)
}
