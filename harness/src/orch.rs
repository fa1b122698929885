//! Orchestrator (`run`), worker processes and replay.

use crate::ctx::*;
use crate::props;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const CASE_CPU_LIMIT: f64 = 60.0;

fn tier(s: &str) -> Tier {
  if s == "thorough" {
    Tier::Thorough
  } else {
    Tier::Quick
  }
}

fn deadline(t: Tier) -> f64 {
  match t {
    Tier::Quick => std::env::var("LAWMON_QUICK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(480.0),
    Tier::Thorough => std::env::var("LAWMON_THOROUGH_S").ok().and_then(|s| s.parse().ok()).unwrap_or(2400.0),
  }
}

// ------------------------------------------------------------------ worker

/// worker PROP TIER SEED SHARD NSHARDS WORKDIR [START_STAGE START_INDEX]
pub fn worker(a: &[String]) -> i32 {
  quiet_panics();
  let (prop, tr, seed) = (a[0].as_str(), tier(&a[1]), a[2].parse::<u64>().unwrap());
  let (shard, n) = (a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap());
  let dir = PathBuf::from(&a[5]);
  let start: (u64, u64) = if a.len() > 7 { (a[6].parse().unwrap(), a[7].parse().unwrap()) } else { (0, 0) };
  let scratch = dir.join(format!("s{shard}"));
  let _ = std::fs::create_dir_all(&scratch);
  let mut ctx = Ctx::new(prop, seed, tr, &scratch);
  ctx.viol_file = std::fs::OpenOptions::new().create(true).append(true).open(dir.join(format!("w{shard}.viol"))).ok();
  let progress = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(dir.join(format!("w{shard}.progress"))).unwrap();
  let t0 = Instant::now();
  let limit = deadline(tr);
  let mut truncated = false;
  let mut harness_error = None;
  let stages = props::stages(prop);
  // a sample of the cases, for measuring how surely the planted changes are caught
  let percent: u64 = std::env::var("LAWMON_PERCENT").ok().and_then(|s| s.parse().ok()).unwrap_or(100);
  'all: for (si, stage) in stages.iter().enumerate() {
    if (si as u64) < start.0 {
      continue;
    }
    let count = match tr {
      Tier::Quick => stage.quick,
      Tier::Thorough => stage.thorough,
    };
    ctx.stage = stage.name.to_string();
    let mut i = shard;
    while i < count {
      if (si as u64) == start.0 && i < start.1 || crate::rng::mix(seed ^ crate::rng::mix(i ^ (si as u64) << 40)) % 100 >= percent {
        i += n;
        continue;
      }
      if t0.elapsed().as_secs_f64() > limit {
        truncated = true;
        break 'all;
      }
      if ctx.sigs.len() >= 6 || ctx.violations > 300 {
        break 'all;
      }
      let mut b = [0u8; 24];
      b[..8].copy_from_slice(&(si as u64).to_le_bytes());
      b[8..16].copy_from_slice(&i.to_le_bytes());
      b[16..].copy_from_slice(&cpu_process().to_le_bytes());
      let _ = progress.write_at(&b, 0);
      ctx.index = i;
      ctx.input = None;
      let mut r = ctx.case_rng();
      if let Err(m) = guard(|| props::case(prop, stage.name, &mut ctx, &mut r)) {
        harness_error = Some(format!("{prop} {} {}: {m}", stage.name, i));
        break 'all;
      }
      i += n;
    }
  }
  props::finish(prop, &mut ctx);
  let out = json!({
    "evals": ctx.evals,
    "distinct": ctx.distinct.iter().collect::<Vec<_>>(),
    "counters": ctx.counters,
    "seen": ctx.seen.iter().map(|(k, v)| (k.clone(), v.iter().collect::<Vec<_>>())).collect::<BTreeMap<_, _>>(),
    "samples": ctx.samples,
    "violations": ctx.violations,
    "truncated": truncated,
    "harness_error": harness_error,
  });
  std::fs::write(dir.join(format!("w{shard}.{}.json", std::process::id())), out.to_string()).unwrap();
  if harness_error.is_some() {
    3
  } else {
    0
  }
}

fn cpu_process() -> f64 {
  let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
  unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
  t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

fn cpu_of(pid: u32) -> Option<f64> {
  let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
  let f: Vec<&str> = s.rsplit(')').next()?.split_whitespace().collect();
  let u: f64 = f.get(11)?.parse().ok()?;
  let k: f64 = f.get(12)?.parse().ok()?;
  Some((u + k) / unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64)
}

fn read_progress(dir: &Path, shard: u64) -> Option<(u64, u64, f64)> {
  let b = std::fs::read(dir.join(format!("w{shard}.progress"))).ok()?;
  if b.len() < 24 {
    return None;
  }
  Some((u64::from_le_bytes(b[..8].try_into().ok()?), u64::from_le_bytes(b[8..16].try_into().ok()?), f64::from_le_bytes(b[16..24].try_into().ok()?)))
}

fn spawn(a: &[String; 3], shard: u64, n: u64, dir: &Path, start: Option<(u64, u64)>) -> Child {
  let exe = std::env::current_exe().expect("own path");
  let open = |name: String| std::fs::OpenOptions::new().create(true).append(true).open(dir.join(name)).expect("log file");
  let mut c = Command::new(exe);
  c.arg("worker").args(a).arg(shard.to_string()).arg(n.to_string()).arg(dir);
  if let Some((s, i)) = start {
    c.arg(s.to_string()).arg(i.to_string());
  }
  c.stdin(Stdio::null()).stdout(open(format!("w{shard}.out"))).stderr(open(format!("w{shard}.err")));
  unsafe {
    c.pre_exec(|| {
      let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: libc::RLIM_INFINITY };
      libc::setrlimit(libc::RLIMIT_AS, &lim);
      let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
      libc::setrlimit(libc::RLIMIT_CORE, &core);
      Ok(())
    });
  }
  c.spawn().expect("spawn worker")
}

// ------------------------------------------------------------------ orchestrator

/// run PROP TIER SEED  (cwd: /verif)
pub fn run(a: &[String]) -> i32 {
  let t0 = Instant::now();
  let (prop, tr, seed) = (a[0].clone(), tier(&a[1]), a[2].parse::<u64>().unwrap_or(1));
  let verif = std::env::current_dir().unwrap();
  let n = std::env::var("LAWMON_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64);
  let dir = std::env::temp_dir().join(format!("lawmon.{}.{}", prop, std::process::id()));
  let _ = std::fs::remove_dir_all(&dir);
  std::fs::create_dir_all(&dir).expect("work directory");
  let args = [prop.clone(), tr.name().to_string(), seed.to_string()];
  let mut extra: Vec<Value> = vec![]; // violations found by the orchestrator itself
  let mut inconclusive: Vec<String> = vec![];
  let mut kids: Vec<(u64, Child, u32)> = (0..n).map(|s| (s, spawn(&args, s, n, &dir, None), 0)).collect();
  let stages = props::stages(&prop);
  let hard = deadline(tr) + if tr == Tier::Quick { 180.0 } else { 300.0 };
  while !kids.is_empty() {
    std::thread::sleep(Duration::from_millis(20));
    let mut next = vec![];
    for (shard, mut kid, restarts) in kids.into_iter() {
      let mut ended: Option<(String, bool)> = None; // signature, restart
      match kid.try_wait() {
        Ok(Some(st)) => match (st.code(), st.signal()) {
          (Some(0), _) => continue,
          (Some(3), _) => {
            inconclusive.push(format!("harness error in worker {shard}"));
            continue;
          }
          (_, Some(9)) => {
            inconclusive.push(format!("worker {shard} was killed from outside"));
            continue;
          }
          (c, s) => {
            let err = std::fs::read_to_string(dir.join(format!("w{shard}.err"))).unwrap_or_default();
            let what = if err.contains("overflowed its stack") { "stack overflow" } else if err.contains("memory allocation") { "out of memory" } else { "abort" };
            ended = Some((format!("process died: {what} (signal {}, exit {})", s.unwrap_or(0), c.unwrap_or(-1)), true));
          }
        },
        Ok(None) => {
          if let (Some((_, _, c0)), Some(c)) = (read_progress(&dir, shard), cpu_of(kid.id())) {
            if c - c0 > CASE_CPU_LIMIT * props::cpu_factor(&prop) {
              let _ = kid.kill();
              let _ = kid.wait();
              ended = Some((format!("no end: one case used {} s of processor time", CASE_CPU_LIMIT), true));
            }
          }
          if ended.is_none() && t0.elapsed().as_secs_f64() > hard {
            let _ = kid.kill();
            let _ = kid.wait();
            inconclusive.push(format!("worker {shard} did not finish in {hard} s"));
            continue;
          }
        }
        Err(e) => {
          inconclusive.push(format!("worker {shard}: {e}"));
          continue;
        }
      }
      if let Some((sig, restart)) = ended {
        if let Some((s, i, _)) = read_progress(&dir, shard) {
          extra.push(json!({"property": prop, "signature": sig, "detail": sig, "seed": seed, "tier": tr.name(),
            "stage": stages.get(s as usize).map(|x| x.name).unwrap_or("?"), "index": i, "input": Value::Null}));
          if restart && restarts < 2 {
            let k = spawn(&args, shard, n, &dir, Some((s, i + 1)));
            next.push((shard, k, restarts + 1));
          }
        } else {
          inconclusive.push(format!("worker {shard} died before its first case: {sig}"));
        }
        continue;
      }
      next.push((shard, kid, restarts));
    }
    kids = next;
  }

  // ---- merge
  let mut evals = 0u64;
  let mut distinct: HashSet<u64> = HashSet::new();
  let mut counters: BTreeMap<String, u64> = BTreeMap::new();
  let mut seen: BTreeMap<String, HashSet<u64>> = BTreeMap::new();
  let mut samples: Vec<Value> = vec![];
  let mut viols: Vec<Value> = extra;
  let mut truncated = false;
  let mut names: Vec<PathBuf> = std::fs::read_dir(&dir).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).collect();
  names.sort();
  for p in &names {
    let name = p.file_name().unwrap().to_string_lossy().to_string();
    if name.ends_with(".json") {
      let Some(v) = std::fs::read_to_string(p).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) else {
        inconclusive.push(format!("{name} unreadable"));
        continue;
      };
      evals += v["evals"].as_u64().unwrap_or(0);
      distinct.extend(v["distinct"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
      for (k, c) in v["counters"].as_object().into_iter().flatten() {
        *counters.entry(k.clone()).or_default() += c.as_u64().unwrap_or(0);
      }
      for (k, s) in v["seen"].as_object().into_iter().flatten() {
        seen.entry(k.clone()).or_default().extend(s.as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
      }
      for s in v["samples"].as_array().into_iter().flatten() {
        if samples.len() < 6 {
          samples.push(s.clone());
        }
      }
      truncated |= v["truncated"].as_bool().unwrap_or(false);
      if let Some(e) = v["harness_error"].as_str() {
        inconclusive.push(e.to_string());
      }
    } else if name.ends_with(".viol") {
      for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Ok(v) = serde_json::from_str::<Value>(l) {
          viols.push(v);
        }
      }
    }
  }
  for (k, min) in props::minimum(&prop) {
    let have = counters.get(k).copied().unwrap_or(0).max(seen.get(k).map(|s| s.len() as u64).unwrap_or(0));
    if have < min && tr == Tier::Quick && viols.is_empty() {
      inconclusive.push(format!("observed only {have} of `{k}`, {min} wanted"));
    }
  }

  // ---- verdict
  let known = known_findings(&verif.join("known_findings.txt"), &prop);
  let mut known_hit: BTreeSet<String> = BTreeSet::new();
  let mut by_sig: BTreeMap<String, Value> = BTreeMap::new();
  for v in &viols {
    let sig = v["signature"].as_str().unwrap_or("?").to_string();
    if let Some(d) = known.get(&sig) {
      known_hit.insert(d.clone());
    } else {
      by_sig.entry(sig).or_insert_with(|| v.clone());
    }
  }
  for d in &known_hit {
    println!("KNOWN-FINDING: property={prop} {d}");
  }
  let rdir = verif.join("evidence").join("replay");
  let _ = std::fs::create_dir_all(&rdir);
  if let Ok(rd) = std::fs::read_dir(&rdir) {
    for e in rd.filter_map(|e| e.ok()) {
      if e.file_name().to_string_lossy().starts_with(&format!("{prop}-")) {
        let _ = std::fs::remove_file(e.path());
      }
    }
  }
  for (i, (sig, v)) in by_sig.iter().enumerate().take(12) {
    let p = rdir.join(format!("{prop}-{i}.json"));
    let _ = std::fs::write(&p, serde_json::to_string_pretty(v).unwrap());
    println!("VIOLATION property={prop} replay={}", p.display());
    let d: String = v["detail"].as_str().unwrap_or("").chars().take(600).collect();
    println!("  {sig}\n  {}", d.replace('\n', "\n  "));
  }
  let wall = t0.elapsed().as_secs_f64();
  let mut coverage = json!({
    "evaluations": evals,
    "distinct_nontrivial": distinct.len(),
    "rule": props::rule(&prop),
    "samples": samples,
    "observed": counters,
    "distinct_observed": seen.iter().map(|(k, v)| (k.clone(), v.len())).collect::<BTreeMap<_, _>>(),
    "worker_processes": n,
    "stopped_by_time_limit": truncated,
    "known_findings_seen": known_hit,
  });
  if !inconclusive.is_empty() {
    coverage["inconclusive"] = json!(inconclusive);
  }
  let ev = json!({
    "property": prop, "tier": tr.name(), "seed": seed, "level": props::level(&prop),
    "coverage": coverage,
    "assumptions": props::assumptions(&prop),
    "wall_s": (wall * 10.0).round() / 10.0,
    "violations": by_sig.len(),
  });
  let _ = std::fs::write(verif.join("evidence").join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n");
  let _ = std::fs::remove_dir_all(&dir);
  println!("{prop} {} seed {seed}: {evals} evaluations, {} distinct non-trivial, {} violation signature(s), {:.1} s", tr.name(), distinct.len(), by_sig.len(), wall);
  if !by_sig.is_empty() {
    1
  } else if !inconclusive.is_empty() {
    for i in &inconclusive {
      println!("INCONCLUSIVE: {i}");
    }
    2
  } else {
    0
  }
}

fn known_findings(p: &Path, prop: &str) -> BTreeMap<String, String> {
  let mut m = BTreeMap::new();
  for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
    // known: property=P05 sig=known:deep-nesting what fails
    let Some(rest) = l.strip_prefix(&format!("known: property={prop} sig=")) else { continue };
    let (sig, d) = rest.split_once(' ').unwrap_or((rest, rest));
    m.insert(sig.to_string(), d.to_string());
  }
  m
}

// ------------------------------------------------------------------ replay

pub fn replay(a: &[String]) -> i32 {
  quiet_panics();
  let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[0]).expect("replay file")).expect("json");
  let dir = std::env::temp_dir().join(format!("lawmon.replay.{}", std::process::id()));
  let _ = std::fs::create_dir_all(&dir);
  let prop = v["property"].as_str().unwrap();
  let mut ctx = Ctx::new(prop, v["seed"].as_u64().unwrap(), tier(v["tier"].as_str().unwrap()), &dir);
  ctx.stage = v["stage"].as_str().unwrap().to_string();
  ctx.index = v["index"].as_u64().unwrap();
  let stage = ctx.stage.clone();
  let mut r = ctx.case_rng();
  let res = guard(|| props::case(prop, &stage, &mut ctx, &mut r));
  let _ = std::fs::remove_dir_all(&dir);
  if let Err(m) = res {
    println!("harness error: {m}");
    return 2;
  }
  if let Some(i) = &ctx.input {
    println!("--- input\n{i}");
  }
  println!("{} violation(s)", ctx.violations);
  (ctx.violations > 0) as i32
}
