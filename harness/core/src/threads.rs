//! Logging calls from several threads at the same time.
use crate::driver::guard;
use crate::json::{usage, J};
use crate::spans::{captured, log};
use laps::span::{FileType, Span};
use std::sync::Barrier;

/// Threads with scripts of calls, each followed by looks at the counters; what they saw.
pub fn small(s: J) -> J {
  let spans: Vec<Span> = (0..s.at("sources").int()).map(|_| Span::new(FileType::Buffer)).collect();
  let threads = s.at("threads").arr();
  let barrier = Barrier::new(threads.len());
  let r = guard(|| {
    captured(|| {
      std::thread::scope(|sc| {
        let hs: Vec<_> = threads
          .iter()
          .map(|t| {
            let (barrier, mine): (_, Vec<Span>) = (&barrier, spans.clone());
            sc.spawn(move || {
              let mut out = Vec::new();
              barrier.wait();
              for c in t.arr() {
                let s = &mine[c.at("src").int() as usize - 1];
                let mut c = c.clone();
                let v = match c.at("kind").str() {
                  "errors" => s.error_num() as i64,
                  "warnings" => s.warning_num() as i64,
                  k => { log(s, k, "method", ""); 0 }
                };
                c.set("v", J::I(v));
                out.push(c);
              }
              J::A(out)
            })
          })
          .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
      })
    })
    .0
  });
  match r {
    Ok(t) => obj! {"k": "ok", "threads": J::A(t), "end": J::A(spans.iter().map(|s| J::A(vec![s.error_num().into(), s.warning_num().into()])).collect())},
    Err(m) => obj! {"k": format!("panic: {m}"), "threads": J::A(vec![]), "end": J::A(vec![])},
  }
}

/// Many calls of one kind for each thread; the counts at the end.
pub fn stress(s: J) -> J {
  let span = Span::new(FileType::Buffer);
  let other = Span::new(FileType::Buffer);
  let calls = s.at("calls").arr();
  let barrier = Barrier::new(calls.len());
  let (_, _) = captured(|| {
    std::thread::scope(|sc| {
      for c in calls {
        let (barrier, s, o) = (&barrier, span.clone(), other.clone());
        sc.spawn(move || {
          let kind = c.at("kind").str();
          let n = c.at("n").int();
          if kind == "summary" { usage("stress"); }
          barrier.wait();
          for i in 0..n {
            // clones made and dropped on the way share the counters, too
            if i % 64 == 0 { log(&s.clone(), kind, "method", ""); } else { log(&s, kind, "method", ""); }
            let _ = o.error_num();
          }
        });
      }
    });
  });
  obj! {
    "calls": s.at("calls").clone(), "errors": span.error_num(), "warnings": span.warning_num(),
    "others": other.error_num() + other.warning_num()
  }
}
