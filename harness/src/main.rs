mod dom;
mod obs;
mod obs2;
mod recorder;
mod run;

use run::Input;
use serde_json::{Value as J, json};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

/// Evaluates one case: returns (observation name, variant, expected, actual) mismatches.
fn eval_case(c: &J) -> Vec<J> {
  let mut fails = vec![];
  let mut variants: Vec<String> = vec!["base".into()];
  if let Some(J::Array(v)) = c.get("also") {
    variants.extend(v.iter().filter_map(|x| x.as_str().map(String::from)));
  }
  for var in &variants {
    let eol = if var.contains("crlf") { "\r\n" } else { "\n" };
    let mut inp = Input::from_case(c, eol);
    if var.contains("html5s") {
      inp.html5s = true;
    }
    if var.contains("strict") {
      inp.strict = true;
    }
    if var.contains("incnoeol") {
      for b in inp.files.values_mut() {
        // (a final blank line would be lost with the line end, not just the line end)
        let text_end = b.len().saturating_sub(eol.len());
        if b.ends_with(eol.as_bytes()) && text_end > 0 && b[text_end - 1] != b'\n' {
          b.truncate(b.len() - eol.len());
        }
      }
    } else if var.contains("noeol") && inp.text.ends_with(eol) {
      inp.text.truncate(inp.text.len() - eol.len());
    }
    if var.contains("full") {
      inp.embedded = false;
    }
    let J::Object(exp) = &c["expect"] else { continue };
    let want_events = exp.contains_key("events");
    let res = std::panic::catch_unwind(|| {
      let o = run::run(&inp, want_events);
      let mut bad = vec![];
      for (k, v) in exp {
        if var.contains("strict") && k != "status" {
          continue;
        }
        let got = obs::observe(k, &inp, &o, c);
        // a set of [file, line] pairs
        let sorted = (k == "diagset").then(|| {
          let mut l: Vec<String> = v.as_array().into_iter().flatten().map(|d| format!("{}:{}", d[0].as_str().unwrap_or(""), d[1])).collect();
          l.sort();
          json!(l)
        });
        let v = sorted.as_ref().unwrap_or(v);
        if &got != v {
          bad.push(json!({"obs": k, "variant": var, "expected": v, "actual": got}));
        }
      }
      bad
    });
    match res {
      Ok(b) => fails.extend(b),
      Err(e) => {
        let m = e
          .downcast_ref::<String>()
          .cloned()
          .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
          .unwrap_or_else(|| "panic".into());
        let m = format!("{} {m}", PANIC_AT.with(|p| p.borrow().clone()));
        fails.push(json!({"obs": "panic", "variant": var, "expected": "no panic", "actual": m}));
      }
    }
  }
  fails
}

thread_local!(static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });
static STARTED: AtomicU64 = AtomicU64::new(0);
static CURRENT: AtomicUsize = AtomicUsize::new(usize::MAX);

fn main() {
  let args: Vec<String> = std::env::args().collect();
  match args.get(1).map(|s| s.as_str()) {
    Some("run") => {
      // run CASES OUT STATUS i n [start [EVENTS]]: to EVENTS go the event traces, each distinct one once
      let cases = &args[2];
      let out = &args[3];
      let status = &args[4];
      let i: usize = args[5].parse().unwrap();
      let n: usize = args[6].parse().unwrap();
      let start: usize = args.get(7).and_then(|s| s.parse().ok()).unwrap_or(0);
      run_shard(cases, out, status, i, n, start, args.get(8).map(|s| s.as_str()));
    }
    Some("show") => {
      let s = std::fs::read_to_string(&args[2]).unwrap();
      let c: J = serde_json::from_str(&s).unwrap();
      show(&c, args.get(3).map(|s| s.as_str()).unwrap_or(""));
    }
    Some("doc") => {
      // doc FILE.adoc [variant]
      let s = std::fs::read_to_string(&args[2]).unwrap();
      let c = json!({"lines": s, "expect": {}});
      show(&c, args.get(3).map(|s| s.as_str()).unwrap_or(""));
    }
    Some("replay") => {
      let s = std::fs::read_to_string(&args[2]).unwrap();
      let r: J = serde_json::from_str(&s).unwrap();
      let c = if r.get("case").is_some() { r["case"].clone() } else { r };
      let f = eval_case(&c);
      println!("{}", serde_json::to_string_pretty(&f).unwrap());
      std::process::exit(if f.is_empty() { 0 } else { 1 });
    }
    _ => {
      eprintln!("usage: adk-conf run|show|doc|replay ...");
      std::process::exit(2);
    }
  }
}

/// the events a backend gets, without their text and without repeated visits
fn trace(c: &J) -> Option<Vec<String>> {
  std::panic::catch_unwind(|| {
    let o = run::run(&Input::from_case(c, "\n"), true);
    o.ok.then(|| {
      let mut ev: Vec<String> = o.events;
      for e in ev.iter_mut().filter(|e| e.starts_with("=inline_text")) {
        e.truncate("=inline_text".len());
      }
      ev.dedup_by(|a, b| a == b && a.starts_with('='));
      ev
    })
  })
  .ok()
  .flatten()
}

fn show(c: &J, var: &str) {
  let eol = if var.contains("crlf") { "\r\n" } else { "\n" };
  let mut inp = Input::from_case(c, eol);
  inp.html5s = var.contains("html5s");
  inp.strict = inp.strict || var.contains("strict");
  if var.contains("full") {
    inp.embedded = false;
  }
  println!("--- input\n{}", inp.text);
  for (k, v) in &inp.files {
    println!("--- file {k}\n{}", String::from_utf8_lossy(v));
  }
  let o = run::run(&inp, true);
  println!("--- ok={} html\n{}", o.ok, o.html.clone().unwrap_or_default());
  for k in ["diagmsgs", "outline", "paras", "calls", "wf"] {
    println!("--- {k}: {}", obs::observe(k, &inp, &o, c));
  }
  if let J::Object(e) = &c["expect"] {
    for (k, v) in e {
      println!("--- expect {k}: {v}\n    actual {k}: {}", obs::observe(k, &inp, &o, c));
    }
  }
}

fn run_shard(cases: &str, out: &str, status: &str, i: usize, n: usize, start: usize, events: Option<&str>) {
  let mut traces = events.map(|e| {
    std::io::BufWriter::new(std::fs::OpenOptions::new().create(true).append(true).open(format!("{e}-{i}")).unwrap())
  });
  let mut seen = std::collections::HashSet::new();
  std::panic::set_hook(Box::new(|i| {
    let at = i.location().map(|l| format!("{}:{}", l.file().rsplit("/repo/").next().unwrap_or(""), l.line())).unwrap_or_default();
    PANIC_AT.with(|p| *p.borrow_mut() = at);
  }));
  let f = std::io::BufReader::new(std::fs::File::open(cases).unwrap());
  let out = std::fs::OpenOptions::new().create(true).append(true).open(out).unwrap();
  let mut out = std::io::BufWriter::new(out);
  let status_path = status.to_string();
  let t0 = Instant::now();
  // watchdog: a case that runs for more than 20 s is a hang
  std::thread::spawn(move || {
    loop {
      std::thread::sleep(Duration::from_millis(500));
      let cur = CURRENT.load(Ordering::SeqCst);
      if cur == usize::MAX {
        continue;
      }
      let st = STARTED.load(Ordering::SeqCst);
      if (t0.elapsed().as_millis() as u64).saturating_sub(st) > 20_000 {
        std::process::exit(42);
      }
    }
  });
  use std::os::unix::fs::FileExt;
  let st = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&status_path).unwrap();
  let (mut done, mut failed) = (0u64, 0u64);
  for (idx, line) in f.lines().enumerate() {
    if idx % n != i || idx < start {
      continue;
    }
    let line = line.unwrap();
    STARTED.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
    CURRENT.store(idx, Ordering::SeqCst);
    st.write_all_at(format!("{idx:>20}").as_bytes(), 0).unwrap();
    let c: J = serde_json::from_str(&line).unwrap();
    // the parser recurses over nested structure: use a stack like the main thread's
    let want_trace = traces.is_some();
    let res = std::thread::Builder::new().stack_size(8 << 20).spawn(move || (eval_case(&c), want_trace.then(|| trace(&c)))).unwrap().join();
    let (fails, ev) = res.unwrap_or_else(|_| (vec![json!({"obs": "panic", "variant": "?", "expected": "no panic", "actual": "panic"})], None));
    if let (Some(w), Some(Some(ev))) = (&mut traces, ev)
      && seen.insert(ev.clone())
    {
      writeln!(w, "{}", json!({"idx": idx, "ev": ev})).unwrap();
    }
    CURRENT.store(usize::MAX, Ordering::SeqCst);
    done += 1;
    if !fails.is_empty() {
      failed += 1;
      writeln!(out, "{}", json!({"idx": idx, "fails": fails})).unwrap();
      out.flush().unwrap();
      if failed >= 300 {
        break;
      }
    }
  }
  out.flush().unwrap();
  println!("{}", json!({"done": done, "failed": failed}));
}
