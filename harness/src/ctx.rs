//! Per-worker monitor state: what was observed, what was violated.

use crate::rng::{hash_str, mix, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}
impl Tier {
  pub fn name(self) -> &'static str {
    match self {
      Tier::Quick => "quick",
      Tier::Thorough => "thorough",
    }
  }
}

pub struct Stage {
  pub name: &'static str,
  pub quick: u64,
  pub thorough: u64,
}
pub fn st(name: &'static str, quick: u64, thorough: u64) -> Stage {
  Stage { name, quick, thorough }
}

pub struct Ctx {
  pub prop: String,
  pub seed: u64,
  pub tier: Tier,
  pub stage: String,
  pub index: u64,
  pub counters: BTreeMap<String, u64>,
  pub seen: BTreeMap<String, HashSet<u64>>,
  pub evals: u64,
  pub distinct: HashSet<u64>,
  pub samples: Vec<Value>,
  pub violations: u64,
  pub sigs: HashSet<String>,
  pub viol_file: Option<std::fs::File>,
  pub scratch: std::path::PathBuf,
  /// input of the case being run, for replay files
  pub input: Option<String>,
  /// when set, violations are not recorded (used by the workloads of P21)
  pub mute: bool,
}

thread_local! {
  static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
pub fn quiet_panics() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "?".to_string()
    };
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
  }));
}
pub fn last_panic() -> String {
  PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

/// Calls the library; a panic inside is an observation, not an accident.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn no_digits(s: &str) -> String {
  let mut o = String::new();
  let mut last = false;
  for c in s.chars() {
    if c.is_ascii_digit() {
      if !last {
        o.push('#');
      }
      last = true;
    } else {
      o.push(c);
      last = false;
    }
  }
  o
}

impl Ctx {
  pub fn new(prop: &str, seed: u64, tier: Tier, scratch: &std::path::Path) -> Ctx {
    Ctx {
      prop: prop.to_string(),
      seed,
      tier,
      stage: String::new(),
      index: 0,
      counters: BTreeMap::new(),
      seen: BTreeMap::new(),
      evals: 0,
      distinct: HashSet::new(),
      samples: vec![],
      violations: 0,
      sigs: HashSet::new(),
      viol_file: None,
      scratch: scratch.to_path_buf(),
      input: None,
      mute: false,
    }
  }
  pub fn case_rng(&self) -> R {
    R::new(mix(self.seed ^ hash_str(&self.prop).rotate_left(17) ^ hash_str(&self.stage)).wrapping_add(mix(self.index ^ 0x5151)))
  }
  /// one oracle evaluation; `h` identifies the input, `nontrivial` says whether it counts
  pub fn eval(&mut self, h: u64, nontrivial: bool) {
    self.evals += 1;
    if nontrivial {
      self.distinct.insert(h);
    }
  }
  pub fn count(&mut self, k: &str, n: u64) {
    if let Some(v) = self.counters.get_mut(k) {
      *v += n;
    } else {
      self.counters.insert(k.to_string(), n);
    }
  }
  /// records that a distinct `what` was seen in the category `k`
  pub fn see(&mut self, k: &str, what: &str) {
    let h = hash_str(what);
    if let Some(s) = self.seen.get_mut(k) {
      s.insert(h);
    } else {
      self.seen.insert(k.to_string(), HashSet::from([h]));
    }
  }
  pub fn sample(&mut self, max: usize, f: impl FnOnce() -> Value) {
    if self.samples.len() < max {
      let v = f();
      self.samples.push(v);
    }
  }
  /// a violation of the property; `sig` identifies the kind of failure
  pub fn fail(&mut self, sig: &str, detail: &str) {
    if self.mute {
      return;
    }
    self.violations += 1;
    let sig = if sig.starts_with("known:") { sig.to_string() } else { no_digits(sig) };
    if self.sigs.len() < 12 && self.sigs.insert(sig.clone()) {
      let cut = |s: &str, n: usize| -> String { s.chars().take(n).collect() };
      let v = json!({
        "property": self.prop, "signature": sig, "detail": cut(detail, 4000),
        "seed": self.seed, "tier": self.tier.name(), "stage": self.stage, "index": self.index,
        "input": self.input.as_deref().map(|s| cut(s, 200_000)),
      });
      if let Some(f) = &mut self.viol_file {
        let _ = f.write_all(format!("{v}\n").as_bytes());
        let _ = f.flush();
      } else {
        println!("{}: {}\n  {}", self.prop, sig, cut(detail, 1500));
      }
    }
  }
  /// calls the library; a panic is a violation
  pub fn sut<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    match guard(f) {
      Ok(v) => Some(v),
      Err(m) => {
        // the position is left out of the signature: it moves with unrelated edits
        let short = m.split(" at ").next().unwrap_or("").chars().take(80).collect::<String>();
        self.fail(&format!("panic in {what}: {short}"), &m);
        None
      }
    }
  }
  pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
    if !ok {
      let d = detail();
      self.fail(sig, &d);
    }
    ok
  }
}

pub fn cpu_self() -> f64 {
  let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
  unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
  t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}
