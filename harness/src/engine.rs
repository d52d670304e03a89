use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
  ($cond:expr, $($arg:tt)*) => {
    if !$cond { return Err(format!($($arg)*)); }
  };
}

/// `want == got` or a violation.
#[macro_export]
macro_rules! same {
  ($what:expr, $want:expr, $got:expr) => {
    match (&$want, &$got) { (w, g) => if w != g { return Err(format!("{}: expected {:?}, got {:?}", $what, w, g)); } }
  };
}

thread_local! {
  static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Per-worker counters.
#[derive(Default)]
pub struct Ctx {
  pub states: u64,
  pub ops: u64,
  pub traces: u64,
  outcomes: Vec<(&'static str, u64)>,
}
impl Ctx {
  /// A distinct configuration of the explored space.
  #[inline]
  pub fn state(&mut self) {
    self.states += 1;
  }
  #[inline]
  pub fn states(&mut self, n: u64) {
    self.states += n;
  }
  /// Calls into the implementation whose answer was compared with the oracle.
  #[inline]
  pub fn op(&mut self, n: u64) {
    self.ops += n;
  }
  /// One complete execution (configuration x scalar type x schedule) of the implementation.
  #[inline]
  pub fn trace(&mut self) {
    self.traces += 1;
  }
  pub fn traces(&mut self, n: u64) {
    self.traces += n;
  }
  #[inline]
  pub fn outcome(&mut self, name: &'static str) {
    self.outcome_n(name, 1)
  }
  pub fn outcome_n(&mut self, name: &'static str, n: u64) {
    for e in self.outcomes.iter_mut() {
      if e.0.as_ptr() == name.as_ptr() && e.0.len() == name.len() {
        e.1 += n;
        return;
      }
    }
    self.outcomes.push((name, n));
  }
}

struct SpaceRec {
  name: String,
  note: String,
  size: u64,
  states: u64,
  ops: u64,
  traces: u64,
  wall: f64,
  outcomes: BTreeMap<String, u64>,
  samples: Vec<String>,
}

pub struct Check {
  id: &'static str,
  tier: String,
  seed: i64,
  start: Instant,
  root: String,
  spaces: Vec<SpaceRec>,
  known: Vec<(String, String)>, // (key, text)
  known_hit: BTreeMap<String, u64>,
  slowest_ms: u64,
  assumptions: Vec<String>,
  replay: Option<(String, u64)>,
  threads: usize,
}

struct Slot {
  seq: AtomicU64,
  idx: AtomicU64,
  active: AtomicBool,
}

const HANG_TICKS: u64 = 900; // x 100 ms
const MEM_LIMIT_MB: u64 = 6000;

fn rss_mb() -> u64 {
  std::fs::read_to_string("/proc/self/statm")
    .ok()
    .and_then(|s| s.split_whitespace().nth(1).and_then(|v| v.parse::<u64>().ok()))
    .map(|p| p * 4096 / (1 << 20))
    .unwrap_or(0)
}

pub fn json_str(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

/// Runs `f`, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  PANIC_MSG.with(|m| *m.borrow_mut() = None);
  match catch_unwind(AssertUnwindSafe(f)) {
    Ok(v) => Ok(v),
    Err(_) => Err(
      PANIC_MSG
        .with(|m| m.borrow_mut().take())
        .unwrap_or_else(|| "panic".to_string()),
    ),
  }
}

impl Check {
  pub fn new(id: &'static str) -> Check {
    std::panic::set_hook(Box::new(|info| {
      let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
        s.to_string()
      } else if let Some(s) = info.payload().downcast_ref::<String>() {
        s.clone()
      } else {
        "panic".to_string()
      };
      let loc = info
        .location()
        .map(|l| format!(" at {}:{}", l.file(), l.line()))
        .unwrap_or_default();
      PANIC_MSG.with(|m| {
        if let Ok(mut m) = m.try_borrow_mut() {
          *m = Some(format!("panic: {}{}", msg, loc))
        }
      });
    }));
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let tier = match std::env::var("VERIF_TIER").as_deref() {
      Ok("thorough") => "thorough",
      _ => "quick",
    }
    .to_string();
    let seed = std::env::var("VERIF_SEED")
      .ok()
      .and_then(|s| s.parse().ok())
      .unwrap_or(1);
    let args: Vec<String> = std::env::args().collect();
    let mut replay = None;
    if let Some(p) = args.iter().position(|a| a == "--replay") {
      let body = std::fs::read_to_string(&args[p + 1]).expect("replay file");
      let get = |k: &str| {
        body
          .lines()
          .find_map(|l| l.strip_prefix(&format!("{}=", k)))
          .expect("replay key")
          .to_string()
      };
      replay = Some((get("space"), get("index").parse().unwrap()));
    }
    // known findings: lines  "known: property=<id> key=<key> :: <text>"
    let mut known = vec![];
    if let Ok(body) = std::fs::read_to_string(format!("{}/known_findings.txt", root)) {
      for l in body.lines() {
        if let Some(rest) = l.strip_prefix(&format!("known: property={} key=", id)) {
          if let Some((k, t)) = rest.split_once(" :: ") {
            known.push((k.trim().to_string(), t.trim().to_string()));
          }
        }
      }
    }
    Check {
      id,
      tier,
      seed,
      start: Instant::now(),
      root,
      spaces: vec![],
      known,
      known_hit: BTreeMap::new(),
      slowest_ms: 0,
      assumptions: vec![],
      replay,
      threads: std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(8)
        .min(16),
    }
  }
  pub fn thorough(&self) -> bool {
    self.tier == "thorough"
  }
  /// Picks a bound by tier.
  pub fn pick<T>(&self, quick: T, thorough: T) -> T {
    if self.thorough() {
      thorough
    } else {
      quick
    }
  }
  pub fn assume(&mut self, s: &str) {
    self.assumptions.push(s.to_string());
  }

  /// Explores indices 0..n of one finite space completely.
  pub fn space<D, F>(&mut self, name: &str, note: &str, n: u64, describe: D, eval: F)
  where
    D: Fn(u64) -> String + Sync,
    F: Fn(u64, &mut Ctx) -> R + Sync,
  {
    if let Some((sp, idx)) = &self.replay {
      if sp == name {
        println!("replay {} index {}: {}", name, idx, describe(*idx));
        let mut ctx = Ctx::default();
        let r = guarded(|| eval(*idx, &mut ctx)).unwrap_or_else(Err);
        match r {
          Ok(()) => {
            println!("replay: property holds on this input");
            std::process::exit(0)
          }
          Err(e) => {
            println!("replay: {}", e);
            std::process::exit(1)
          }
        }
      }
      return;
    }
    let t0 = Instant::now();
    let threads = self.threads;
    let chunk = (n / (threads as u64 * 64)).clamp(1, 8192);
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let viol: Mutex<BTreeMap<u64, String>> = Mutex::new(BTreeMap::new());
    let known_hits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let slots: Vec<Slot> = (0..threads)
      .map(|_| Slot {
        seq: AtomicU64::new(0),
        idx: AtomicU64::new(0),
        active: AtomicBool::new(false),
      })
      .collect();
    let done = AtomicBool::new(false);
    let slowest = AtomicU64::new(0);
    let total = Mutex::new((Ctx::default(), BTreeMap::<String, u64>::new()));
    let this = &*self;
    std::thread::scope(|s| {
      let mut handles = vec![];
      for w in 0..threads {
        let (slots, next, best, viol, total, eval, describe, known_hits, slowest) =
          (&slots, &next, &best, &viol, &total, &eval, &describe, &known_hits, &slowest);
        handles.push(
          std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
              let slot = &slots[w];
              let mut ctx = Ctx::default();
              loop {
                let a = next.fetch_add(chunk, Relaxed);
                if a >= n {
                  break;
                }
                for i in a..(a + chunk).min(n) {
                  if i >= best.load(Relaxed) {
                    break;
                  }
                  slot.idx.store(i, Relaxed);
                  slot.seq.fetch_add(1, Release);
                  slot.active.store(true, Release);
                  let began = Instant::now();
                  let r = guarded(|| eval(i, &mut ctx)).unwrap_or_else(Err);
                  slot.active.store(false, Release);
                  slowest.fetch_max(began.elapsed().as_millis() as u64, Relaxed);
                  if let Err(msg) = r {
                    let key = format!("{}#{}", name, describe(i));
                    if this.known.iter().any(|(k, _)| *k == key) {
                      *known_hits.lock().unwrap().entry(key).or_insert(0) += 1;
                    } else {
                      best.fetch_min(i, Relaxed);
                      viol.lock().unwrap().insert(i, msg);
                    }
                  }
                }
              }
              let mut t = total.lock().unwrap();
              t.0.states += ctx.states;
              t.0.ops += ctx.ops;
              t.0.traces += ctx.traces;
              for (k, v) in ctx.outcomes {
                *t.1.entry(k.to_string()).or_insert(0) += v;
              }
            })
            .unwrap(),
        );
      }
      // Watchdog: the main thread polls the workers.
      let mut last = vec![(0u64, 0u64); threads];
      let base = rss_mb();
      while !handles.iter().all(|h| h.is_finished()) {
        // Short waits first so that tiny spaces finish promptly.
        let el = t0.elapsed();
        if el < Duration::from_millis(100) {
          std::thread::sleep(Duration::from_millis(2));
          continue;
        }
        std::thread::sleep(Duration::from_millis(if el < Duration::from_secs(1) { 20 } else { 100 }));
        let fast = el < Duration::from_secs(1);
        let mut oldest = (0u64, usize::MAX);
        for w in 0..threads {
          let seq = slots[w].seq.load(Acquire);
          if slots[w].active.load(Acquire) && last[w].0 == seq {
            if !fast {
              last[w].1 += 1;
            }
            if last[w].1 >= oldest.0 {
              oldest = (last[w].1, w);
            }
          } else {
            last[w] = (seq, 0);
          }
        }
        let mem = rss_mb().saturating_sub(base) > MEM_LIMIT_MB;
        if oldest.1 != usize::MAX && (mem || oldest.0 > HANG_TICKS) {
          let i = slots[oldest.1].idx.load(Relaxed);
          let msg = if mem {
            "does not terminate: memory use grows without bound".to_string()
          } else {
            format!("does not terminate within {} s", HANG_TICKS / 10)
          };
          this.report(name, i, &describe(i), &msg);
          this.write_evidence(1, Some((name, n)));
          std::process::exit(1);
        }
      }
      done.store(true, Relaxed);
    });
    self.slowest_ms = self.slowest_ms.max(slowest.into_inner());
    for (k, v) in known_hits.into_inner().unwrap() {
      *self.known_hit.entry(k).or_insert(0) += v;
    }
    let (ctx, outcomes) = total.into_inner().unwrap();
    let mut samples = vec![];
    if n > 0 {
      let mut picks = vec![0, n / 3, n - 1];
      picks.dedup();
      for i in picks {
        let mut d = describe(i);
        if d.len() > 400 {
          d.truncate(400);
          d.push_str("...");
        }
        samples.push(format!("{}[{}]: {}", name, i, d));
      }
    }
    self.spaces.push(SpaceRec {
      name: name.to_string(),
      note: note.to_string(),
      size: n,
      states: ctx.states,
      ops: ctx.ops,
      traces: ctx.traces,
      wall: t0.elapsed().as_secs_f64(),
      outcomes,
      samples,
    });
    let v = viol.into_inner().unwrap();
    if let Some((i, msg)) = v.into_iter().next() {
      self.report(name, i, &describe(i), &msg);
      self.write_evidence(1, None);
      std::process::exit(1);
    }
  }

  fn report(&self, space: &str, index: u64, input: &str, msg: &str) {
    let dir = format!("{}/replays", self.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}.txt", dir, self.id, space.replace([' ', '/'], "_"), index);
    let body = format!(
      "property={}\ntier={}\nspace={}\nindex={}\ninput={}\nmessage={}\nreproduce=VERIF_TIER={} {}/check {} {} --replay {}\n",
      self.id, self.tier, space, index, input, msg, self.tier, self.root, self.id, self.tier, path
    );
    let _ = std::fs::write(&path, body);
    println!("{}: space {} index {}", self.id, space, index);
    println!("  input: {}", input);
    println!("  {}", msg);
    println!("VIOLATION property={} replay={}", self.id, path);
  }

  fn write_evidence(&self, violations: u64, partial: Option<(&str, u64)>) {
    let dir = format!("{}/evidence", self.root);
    let _ = std::fs::create_dir_all(&dir);
    let sum = |f: fn(&SpaceRec) -> u64| self.spaces.iter().map(f).sum::<u64>();
    let mut o = String::new();
    o.push_str("{\n");
    o.push_str(&format!("  \"property\": {},\n", json_str(self.id)));
    o.push_str(&format!("  \"tier\": {},\n", json_str(&self.tier)));
    o.push_str(&format!("  \"seed\": {},\n", self.seed));
    o.push_str("  \"level\": \"model_checking\",\n  \"coverage\": {\n");
    o.push_str(&format!("    \"states\": {},\n", sum(|s| s.states)));
    o.push_str(&format!("    \"transitions\": {},\n", sum(|s| s.ops)));
    o.push_str(&format!(
      "    \"traces_validated_against_impl\": {},\n",
      sum(|s| s.traces)
    ));
    o.push_str(&format!(
      "    \"exhaustive\": {},\n",
      violations == 0 && partial.is_none()
    ));
    o.push_str("    \"legend\": \"states = distinct configurations enumerated; transitions = implementation calls compared with the oracle; traces = complete executions of the implementation (configuration x number type x schedule)\",\n");
    o.push_str("    \"spaces\": [\n");
    for (k, s) in self.spaces.iter().enumerate() {
      let oc: Vec<String> = s
        .outcomes
        .iter()
        .map(|(k, v)| format!("{}: {}", json_str(k), v))
        .collect();
      o.push_str(&format!(
        "      {{\"name\": {}, \"bound\": {}, \"indices\": {}, \"states\": {}, \"transitions\": {}, \"traces\": {}, \"wall_s\": {:.3}, \"outcomes\": {{{}}}}}{}\n",
        json_str(&s.name),
        json_str(&s.note),
        s.size,
        s.states,
        s.ops,
        s.traces,
        s.wall,
        oc.join(", "),
        if k + 1 < self.spaces.len() { "," } else { "" }
      ));
    }
    o.push_str("    ],\n    \"samples\": [\n");
    let samples: Vec<String> = self
      .spaces
      .iter()
      .flat_map(|s| s.samples.iter())
      .take(60)
      .map(|s| format!("      {}", json_str(s)))
      .collect();
    o.push_str(&samples.join(",\n"));
    o.push_str("\n    ]\n  },\n");
    o.push_str(&format!(
      "  \"assumptions\": [{}],\n",
      self
        .assumptions
        .iter()
        .map(|a| json_str(a))
        .collect::<Vec<_>>()
        .join(", ")
    ));
    o.push_str(&format!("  \"wall_s\": {:.3},\n", self.start.elapsed().as_secs_f64()));
    o.push_str(&format!("  \"violations\": {}\n}}\n", violations));
    std::fs::write(format!("{}/{}.json", dir, self.id), o).expect("write evidence");
  }

  pub fn finish(self) -> ! {
    if let Some((s, _)) = &self.replay {
      println!("replay: no space named {} in tier {}", s, self.tier);
      std::process::exit(2);
    }
    for (k, t) in &self.known {
      if let Some(n) = self.known_hit.get(k) {
        println!("KNOWN-FINDING: property={} {} ({} hit(s))", self.id, t, n);
      }
    }
    // Vacuity guard: every space must have explored and compared something.
    for s in &self.spaces {
      if s.states == 0 || s.ops == 0 || s.traces == 0 {
        println!("error: space {} explored nothing", s.name);
        std::process::exit(2);
      }
    }
    self.write_evidence(0, None);
    for s in &self.spaces {
      println!(
        "  {:<34} {:>12} states {:>13} compared calls {:>12} executions {:>7.2}s  {:?}",
        s.name, s.states, s.ops, s.traces, s.wall, s.outcomes
      );
    }
    println!(
      "{} held on everything explored ({}; {:.1}s; slowest case {:.1}s)",
      self.id,
      self.tier,
      self.start.elapsed().as_secs_f64(),
      self.slowest_ms as f64 / 1000.0
    );
    std::process::exit(0)
  }
}

/// Mixed-radix decoding: splits `i` by the given radices (first digit fastest).
#[inline]
pub fn digits<const N: usize>(mut i: u64, radix: u64) -> [usize; N] {
  let mut o = [0usize; N];
  for d in o.iter_mut() {
    *d = (i % radix) as usize;
    i /= radix;
  }
  o
}
pub fn digits_vec(mut i: u64, radix: u64, n: usize) -> Vec<usize> {
  let mut o = Vec::with_capacity(n);
  for _ in 0..n {
    o.push((i % radix) as usize);
    i /= radix;
  }
  o
}
/// i-th permutation (factoradic) of 0..n.
pub fn permutation(mut i: u64, n: usize) -> Vec<usize> {
  let mut pool: Vec<usize> = (0..n).collect();
  let mut o = Vec::with_capacity(n);
  for k in (1..=n).rev() {
    let d = (i % k as u64) as usize;
    i /= k as u64;
    o.push(pool.remove(d));
  }
  o
}
pub fn factorial(n: usize) -> u64 {
  (1..=n as u64).product()
}
