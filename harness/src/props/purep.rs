//! P20: every call is a pure function of its argument, whatever was called before or is called meanwhile.
//! P21: nothing arrives at standard output or standard error.
use super::*;
use crate::xml::{self, norm, Lex, N};
use japanese_law_xml_schema::article_number::*;
use japanese_law_xml_schema::law::Law;
use japanese_law_xml_schema::utils::*;
use japanese_law_xml_schema::{parse_xml, to_xml, write_file};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::os::fd::AsRawFd;

pub fn stages20() -> Vec<Stage> {
  vec![st("history", 200, 12_000), st("threads", 48, 4_000), st("one function", 60, 5_000), st("processes", 80, 4_000), st("long series", 24, 400), st("each kind", 144, 1_200), st("tsan", 32, 600), st("miri", 0, 24)]
}

// ------------------------------------------------------------------ P20: operations

/// the arguments of the calls
pub struct World {
  docs: Vec<Vec<u8>>,
  laws: Vec<Law>,
  texts: Vec<String>,
  strs: Vec<String>,
  nums: Vec<ArticleNumber>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Op {
  ParseXml(usize),
  ToXml(usize),
  WriteFile(usize),
  WriteFail(usize),
  Toc(usize),
  Lists(usize),
  Texts(usize),
  Json(usize),
  Hash(usize),
  ParseText(usize),
  Date(usize),
  HeadingNumber(usize),
  ItemNumber(usize),
  NumStr(usize),
  Render(usize),
}
const OPS: usize = 15;

fn op_name(o: Op) -> String {
  format!("{o:?}").split('(').next().unwrap_or("").to_string()
}

fn dig<T: Debug>(t: &T) -> u64 {
  hash_str(&format!("{t:?}"))
}
fn tree_dig(doc: &[u8]) -> u64 {
  match xml::parse(&String::from_utf8_lossy(doc)) {
    Ok(t) => dig(&norm(&t)),
    Err(e) => hash_str(&e.to_string()),
  }
}

/// a writer that refuses after some bytes
struct Full(usize);
impl std::io::Write for Full {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    if self.0 == 0 {
      return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
    }
    let n = b.len().min(self.0);
    self.0 -= n;
    Ok(n)
  }
  fn flush(&mut self) -> std::io::Result<()> {
    Ok(())
  }
}

fn exec_raw(w: &World, op: Op) -> u64 {
  match op {
    Op::ParseXml(i) => dig(&parse_xml(&w.docs[i])),
    Op::ToXml(i) => to_xml(&w.laws[i]).map(|s| tree_dig(s.as_bytes())).unwrap_or(1),
    Op::WriteFile(i) => {
      let mut v = vec![];
      let r = write_file(&w.laws[i], &mut v);
      dig(&r.is_ok()) ^ tree_dig(&v)
    }
    Op::WriteFail(i) => dig(&write_file(&w.laws[i], &mut Full(i * 37 % 400))),
    Op::Toc(i) => {
      let b = &w.laws[i].law_body;
      let mut h = dig(&toc_list_from_main_provision(&b.main_provision));
      for s in &b.suppl_provision {
        h = mix(h ^ dig(&toc_list_from_suppl_provision(s)));
      }
      h
    }
    Op::Lists(i) => {
      let b = &w.laws[i].law_body;
      let mut h = dig(&with_number_article_list_from_main_provision(&b.main_provision)) ^ dig(&article_list_from_main_provision(&b.main_provision)).rotate_left(1);
      for s in &b.suppl_provision {
        h = mix(h ^ dig(&with_number_article_list_from_suppl_provision(s)) ^ dig(&article_list_from_suppl_provision(s)).rotate_left(1));
      }
      h
    }
    Op::Texts(i) => {
      let b = &w.laws[i].law_body;
      let (a, p) = article_list_from_main_provision(&b.main_provision);
      let mut h = 0;
      for a in &a {
        h = mix(h ^ dig(&text_from_article(a)) ^ dig(&a.number_text()).rotate_left(3));
      }
      for p in &p {
        h = mix(h ^ dig(&text_from_paragraph_list(p)) ^ dig(&text_info_list_from_paragraph(p)).rotate_left(3));
      }
      if let Some(p) = &b.preamble {
        h = mix(h ^ dig(&text_info_list_from_paragraph(&p.children)));
      }
      mix(h ^ dig(&b.law_title.as_ref().map(|t| t.text.to_string())))
    }
    Op::Json(i) => match serde_json::to_value(&w.laws[i]) {
      Ok(v) => dig(&v) ^ dig(&serde_json::from_value::<Law>(v).ok()).rotate_left(9),
      Err(_) => 1,
    },
    Op::Hash(i) => {
      let mut h = Fnv(0xcbf29ce484222325);
      w.laws[i].hash(&mut h);
      h.finish()
    }
    Op::ParseText(i) => {
      // everything else differs between the texts too
      use japanese_law_xml_schema::law::{Lang, LawType};
      let num = ArticleNumber { base_number: i + 1, eda_numbers: vec![], range_end_numbers: vec![] };
      let lt = if i % 2 == 0 { LawType::Act } else { LawType::CabinetOrder };
      dig(&japanese_law_xml_schema::parse_text(&w.texts[i], 1900 + i * 5, Some(1 + i % 12), Some(1 + i % 28), lt, Lang::Ja, Some(num), format!("法律第{i}号"), &format!("題{i}")))
    }
    Op::Date(i) => {
      use japanese_law_xml_schema::law::{Lang, LawType};
      let (y, m, d) = DATES[i % DATES.len()];
      dig(&japanese_law_xml_schema::parse_text(&w.texts[i % w.texts.len()], y, m, d, LawType::Rule, Lang::En, None, String::new(), ""))
    }
    Op::HeadingNumber(i) => dig(&parse_article_number(&w.strs[i])),
    Op::ItemNumber(i) => dig(&parse_item_number(&w.strs[i])) ^ dig(&split_number(&w.strs[i])).rotate_left(5),
    Op::NumStr(i) => dig(&ArticleNumber::from_num_str(&w.strs[i])),
    Op::Render(i) => {
      let n = &w.nums[i];
      let mut s = n.num_str();
      if super::nump::positive(n) {
        s = format!("{s} {} {} {}", n.part_text(), n.article_text(), n.paragraph_text());
      }
      for p in super::nump::PATTERNS {
        if super::nump::item_ref(n, p).is_some() {
          s.push_str(&n.item_text(p));
          s.push(' ');
        }
      }
      hash_str(&s)
    }
  }
}

const DATES: &[(usize, Option<usize>, Option<usize>)] = &[(1989, Some(1), Some(7)), (1989, Some(1), Some(8)), (2019, Some(4), Some(30)), (2019, Some(5), None), (1867, None, None), (2023, Some(2), Some(29)), (1926, Some(12), Some(25)), (99999, None, None)];

struct Fnv(u64);
impl Hasher for Fnv {
  fn finish(&self) -> u64 {
    self.0
  }
  fn write(&mut self, b: &[u8]) {
    for x in b {
      self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
    }
  }
}

fn exec(w: &World, op: Op) -> u64 {
  // what a panic says is not part of the result
  guard(|| exec_raw(w, op)).unwrap_or(0xdead)
}

/// the same but for one character, and as long: what two calls must not be mistaken for each other by
fn twin(s: &str, r: &mut R) -> String {
  let mut v: Vec<char> = s.chars().collect();
  let at: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_ascii_digit() || ('\u{3041}'..'\u{9fff}').contains(&v[*i])).collect();
  if !at.is_empty() {
    let i = *r.pick(&at);
    let c = v[i];
    let others: &[char] = match c {
      '0'..='9' => &['1', '2', '3', '7'],
      '一' | '二' | '三' | '四' | '五' | '六' | '七' | '八' | '九' => &['一', '二', '三', '八'],
      'ぁ'..='ん' => &['い', 'ろ', 'の'],
      'ァ'..='ン' => &['イ', 'ロ', 'ノ'],
      _ => &['乙', '丙', '編'],
    };
    v[i] = others.iter().copied().find(|o| *o != c && r.n(3) > 0).unwrap_or(others[(others[0] == c) as usize]);
  }
  v.into_iter().collect()
}

fn world(r: &mut R, size: usize) -> World {
  crate::model::reset();
  r.b = *r.pick(&[15, 40, 80]);
  let b = r.b;
  let mut laws: Vec<Law> = (0..size)
    .map(|_| {
      r.b = b;
      super::xmlp::gen_law(r)
    })
    .collect();
  use crate::model::M;
  let mut docs: Vec<Vec<u8>> = vec![];
  for l in &laws {
    let lex = Lex::wild(r);
    docs.push(xml::to_bytes(&l.x(), &lex, r));
  }
  for i in 0..size {
    if let Ok(t) = std::str::from_utf8(&docs[i]) {
      let t = twin(t, r);
      docs.push(t.into_bytes());
    }
    let mut d = docs[i].clone();
    let ops = r.rg(1, 6);
    super::xmlp::mutate_bytes(&mut d, r, ops);
    docs.push(d);
    r.b = 20;
    let st = *r.pick(&["tree", "soup"]);
    docs.push(super::xmlp::p05_doc(st, r));
  }
  let mut other = laws[0].clone();
  super::listp::tweak(&mut other, r);
  laws.push(other);
  let mut texts = vec![];
  for _ in 0..size {
    let t = super::textp::any_text(r);
    let mut lines: Vec<String> = t.lines().take(14).map(|s| s.to_string()).collect();
    texts.push(lines.join("\n"));
    let t = twin(&texts[texts.len() - 1], r);
    texts.push(t);
    super::textp::mutate_lines(&mut lines, r);
    texts.push(lines.join("\n"));
    texts.push((0..r.rg(1, 6)).map(|_| super::textp::chaos_line(r)).collect::<Vec<_>>().join("\n"));
  }
  let mut strs = vec![];
  for _ in 0..size * 2 {
    strs.push(super::nump::heading_string(r));
    strs.push(super::nump::item_string(r));
    strs.push(super::nump::num_string(r));
    let t = twin(r.clone().pick(&strs), r);
    strs.push(t);
  }
  let mut nums: Vec<ArticleNumber> = (0..size * 2).map(|_| super::nump::anyan(r)).collect();
  let mut n = r.pick(&nums).clone();
  match r.n(3) {
    0 => n.base_number ^= 1,
    1 => n.eda_numbers.push(1),
    _ => std::mem::swap(&mut n.eda_numbers, &mut n.range_end_numbers),
  }
  nums.push(n);
  World { docs, laws, texts, strs, nums }
}

fn ops_of(w: &World) -> Vec<Op> {
  let mut v = vec![];
  for i in 0..w.docs.len() {
    v.push(Op::ParseXml(i));
  }
  for i in 0..w.laws.len() {
    v.extend([Op::ToXml(i), Op::WriteFile(i), Op::WriteFail(i), Op::Toc(i), Op::Lists(i), Op::Texts(i), Op::Json(i), Op::Hash(i)]);
  }
  for i in 0..w.texts.len() {
    v.push(Op::ParseText(i));
  }
  v.push(Op::Date(w.texts.len() * 3));
  v.push(Op::Date(w.texts.len() * 5 + 1));
  for i in 0..w.strs.len() {
    v.extend([Op::HeadingNumber(i), Op::ItemNumber(i), Op::NumStr(i)]);
  }
  for i in 0..w.nums.len() {
    v.push(Op::Render(i));
  }
  v
}

/// one function with arguments of its own only: the narrowest window for two calls to meet
fn ops_of_kind(w: &World, k: usize) -> Vec<Op> {
  let all = ops_of(w);
  let mut names: Vec<String> = all.iter().map(|o| op_name(*o)).collect();
  names.sort();
  names.dedup();
  let n = names[k % names.len()].clone();
  all.into_iter().filter(|o| op_name(*o) == n).collect()
}

fn case_seed(c: &Ctx) -> u64 {
  mix(c.seed ^ hash_str(&c.stage).rotate_left(11)).wrapping_add(mix(c.index))
}

fn world_of(seed: u64) -> World {
  let mut r = R::new(seed);
  let size = r.rg(2, 3);
  world(&mut r, size)
}

pub fn p20(stage: &str, c: &mut Ctx, r: &mut R) {
  let seed = case_seed(c);
  c.input = Some(format!("world {seed}"));
  if stage == "tsan" || stage == "miri" {
    return sanitized(stage, seed, c);
  }
  if stage == "long series" {
    return series(c, r);
  }
  if stage == "each kind" {
    return each_kind(c, r);
  }
  let w = world_of(seed);
  let before = (w.laws.clone(), w.docs.clone(), w.texts.clone(), dig(&w.laws));
  let mut ops = ops_of(&w);
  match stage {
    "history" => {
      let reference: Vec<u64> = ops.iter().map(|o| exec(&w, *o)).collect();
      for round in 0..2 {
        let mut order: Vec<usize> = (0..ops.len()).collect();
        // some calls three times in a row, some not at all
        for _ in 0..6 {
          let k = r.n(ops.len());
          order.extend([k, k, k]);
        }
        r.shuffle(&mut order);
        if round == 1 {
          order.truncate(order.len() * 2 / 3);
        }
        let mut prev = String::from("-");
        for k in order {
          let d = exec(&w, ops[k]);
          let name = op_name(ops[k]);
          c.count(&format!("calls: {name}"), 1);
          c.see("neighbouring calls", &format!("{prev} {name}"));
          c.eval(mix(seed ^ hash_str(&format!("{:?}", ops[k])) ^ hash_str(&prev)), true);
          if d != reference[k] {
            return c.fail(&format!("{name} gives another result when repeated"), &format!("{:?} after {prev}; world {seed}", ops[k]));
          }
          if reference[k] == 0xdead {
            c.count("calls that panicked (see P05, P17)", 1);
          }
          prev = name;
        }
      }
    }
    "threads" | "one function" => {
      if stage == "one function" {
        ops = ops_of_kind(&w, c.index as usize);
      }
      let n = r.rg(4, 8);
      // on some runs the concurrent calls are the first ones of this world
      let first = r.p(50);
      let reference: Vec<u64> = if first { vec![] } else { ops.iter().map(|o| exec(&w, *o)).collect() };
      let rounds = if stage == "one function" { 40 } else { 2 };
      let (orders, logs) = on_threads(&w, &ops, n, rounds, 150, r);
      let reference = if first { ops.iter().map(|o| exec(&w, *o)).collect() } else { reference };
      let mut sched = 0u64;
      for (t, log) in logs.iter().enumerate() {
        if log.len() != orders[t].len() {
          return c.fail("a thread ended early", &format!("world {seed}"));
        }
        for (t0, t1, k, d, others) in log {
          c.count("concurrent calls", 1);
          if *others > 0 {
            c.count("calls that overlapped another", 1);
          }
          sched = mix(sched ^ t0.wrapping_mul(31) ^ *t1 ^ ((t as u64) << 48));
          c.eval(mix(seed ^ t1.wrapping_mul(7919) ^ hash_str(&format!("{:?}", ops[*k]))), *others > 0);
          if *d != reference[*k] {
            return c.fail(&format!("{} gives another result on {n} threads", op_name(ops[*k])), &format!("{:?}; world {seed}", ops[*k]));
          }
        }
      }
      c.see("distinct interleavings", &sched.to_string());
      // which calls overlapped which
      let mut all: Vec<(u64, u64, usize)> = logs.iter().flatten().map(|l| (l.0, l.1, l.2)).collect();
      all.sort();
      for (i, a) in all.iter().enumerate() {
        for b in all[i + 1..].iter().take_while(|b| b.0 < a.1).take(8) {
          c.see("overlapping pairs of functions", &format!("{} {}", op_name(ops[a.2]), op_name(ops[b.2])));
        }
      }
    }
    "processes" => {
      // this process has a long history of other calls; a fresh one with another order and environment has none
      let mine: Vec<u64> = ops.iter().map(|o| exec(&w, *o)).collect();
      let exe = std::env::current_exe().expect("own path");
      let order = ["forward", "reverse", "shuffled", "single"][r.n(4)];
      let single = r.n(ops.len());
      let mut cmd = std::process::Command::new(exe);
      cmd.args(["probe", "p20", &seed.to_string(), order, &single.to_string()]);
      match r.n(4) {
        0 => {
          cmd.env_clear();
          // the same generators
          cmd.envs(std::env::vars_os().filter(|(k, _)| k == "LAWMON_SRC" || k == "LAWMON_ALL_NEW"));
        }
        1 => drop(cmd.env("LANG", "ja_JP.SJIS").env("LC_ALL", "tr_TR.UTF-8").env("TZ", "Asia/Tokyo")),
        2 => drop(cmd.current_dir("/").env("HOME", "/nonexistent").env("RUST_LOG", "trace").env("DEBUG", "1")),
        _ => (),
      }
      let out = match cmd.stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null()).output() {
        Ok(o) => String::from_utf8_lossy(&o.stdout).to_string(),
        Err(_) => return c.count("process could not be started", 1),
      };
      let mut n = 0;
      for l in out.lines() {
        let mut f = l.strip_prefix("DIGEST ").unwrap_or("").split(' ');
        let (Some(k), Some(d)) = (f.next().and_then(|s| s.parse::<usize>().ok()), f.next().and_then(|s| s.parse::<u64>().ok())) else { continue };
        n += 1;
        c.count("results compared between processes", 1);
        c.eval(mix(seed ^ k as u64 ^ hash_str(order)), true);
        if mine.get(k) != Some(&d) {
          return c.fail(&format!("{} gives another result in another process ({order})", op_name(ops[k])), &format!("{:?}; world {seed}", ops[k]));
        }
      }
      if n != if order == "single" { 1 } else { ops.len() } {
        return c.fail("the other process did not finish", &format!("world {seed}, {order}: {n} of {} results", ops.len()));
      }
      c.count(&format!("processes: {order}"), 1);
    }
    _ => (),
  }
  // neither the arguments nor the other laws were changed
  let same = before.0 == w.laws && before.1 == w.docs && before.2 == w.texts && before.3 == dig(&w.laws);
  c.count("worlds compared before and after", 1);
  c.check(same, "an argument was changed", || format!("world {seed}"));
  c.sample(2, || json!({"world": seed, "stage": stage, "calls": ops.iter().take(8).map(|o| format!("{o:?}")).collect::<Vec<_>>()}));
  let _ = OPS;
}

/// one call tens of thousands of times: the result must not change with the number of calls made
fn series(c: &mut Ctx, r: &mut R) {
  let again = |c: &mut Ctx, what: &str, n: usize, f: &dyn Fn() -> String| {
    let Ok(first) = guard(f) else { return c.count("calls that panicked (see P05, P17)", 1) };
    c.count("calls in long series", n as u64);
    c.see("long series", what);
    c.eval(mix(hash_str(what) ^ hash_str(&first) ^ c.index), true);
    for k in 0..n {
      match guard(f) {
        Ok(s) if s == first => (),
        x => return c.fail(&format!("{} gives another result after many calls", what.split(' ').next().unwrap_or("")), &format!("{what}: call {k} gave {x:?} instead of {first:?}")),
      }
    }
  };
  let an = |b: usize| ArticleNumber { base_number: b, eda_numbers: vec![], range_end_numbers: vec![] };
  let k = c.index as usize % 24;
  if k < 16 {
    // all styles of item numbers, all letters
    let p = super::nump::PATTERNS[k];
    for b in 1..=48 {
      let n = an(b);
      if super::nump::item_ref(&n, p).is_some() {
        again(c, &format!("item_text {p:?} {b}"), 70_000, &|| n.item_text(p));
      }
    }
    return;
  }
  if k < 18 {
    for _ in 0..6 {
      let n = super::nump::anyan(r);
      let s = super::nump::num_string(r);
      again(c, &format!("num_str {n:?}"), 70_000, &|| n.num_str());
      again(c, &format!("from_num_str {s:?}"), 70_000, &|| format!("{:?}", ArticleNumber::from_num_str(&s)));
      if super::nump::positive(&n) {
        again(c, &format!("headings {n:?}"), 70_000, &|| format!("{}{}{}{}{}{}{}", n.part_text(), n.chapter_text(), n.section_text(), n.subsection_text(), n.division_text(), n.article_text(), n.paragraph_text()));
      }
    }
    return;
  }
  if k < 20 {
    // these compile their expressions at every call
    let s = if k == 18 { super::nump::heading_string(r) } else { super::nump::item_string(r) };
    if k == 18 {
      again(c, &format!("parse_article_number {s:?}"), 11_000, &|| format!("{:?}", parse_article_number(&s)));
    } else {
      again(c, &format!("parse_item_number {s:?}"), 11_000, &|| format!("{:?}", parse_item_number(&s)));
    }
    return;
  }
  crate::model::reset();
  r.b = 12;
  let l = super::xmlp::gen_law(r);
  use crate::model::M;
  let doc = xml::to_bytes(&l.x(), &Lex::plain(), r);
  let mut bad = doc.clone();
  super::xmlp::mutate_bytes(&mut bad, r, 3);
  match k {
    20 => {
      again(c, "parse_xml", 12_000, &|| format!("{:?}", parse_xml(&doc)));
      again(c, "parse_xml (damaged)", 12_000, &|| format!("{:?}", parse_xml(&bad)));
    }
    21 => {
      again(c, "to_xml", 12_000, &|| to_xml(&l).map(|s| tree_dig(s.as_bytes()).to_string()).unwrap_or_default());
      again(c, "write_file (failing)", 12_000, &|| dig(&write_file(&l, &mut Full(137))).to_string());
    }
    22 => {
      let w = World { docs: vec![], laws: vec![l], texts: vec![], strs: vec![], nums: vec![] };
      for o in [Op::Toc(0), Op::Lists(0), Op::Texts(0), Op::Hash(0)] {
        again(c, &op_name(o), 20_000, &|| exec_raw(&w, o).to_string());
      }
    }
    _ => {
      let w = World { docs: vec![], laws: vec![l], texts: vec!["第一条　文\n一　文\nイ　文".to_string()], strs: vec![], nums: vec![] };
      again(c, "Json", 12_000, &|| exec_raw(&w, Op::Json(0)).to_string());
      again(c, "ParseText", 3_000, &|| exec_raw(&w, Op::ParseText(0)).to_string());
    }
  }
}
/// for every kind of element a small law that has it, and the way to that element
fn samples(which: u64) -> &'static Vec<(String, xml::E, Vec<usize>)> {
  type Samples = Vec<(String, xml::E, Vec<usize>)>;
  static P: std::sync::Mutex<Vec<(u64, &'static Samples)>> = std::sync::Mutex::new(vec![]);
  let mut all = P.lock().unwrap();
  if let Some((_, p)) = all.iter().find(|(k, _)| *k == which) {
    return p;
  }
  use crate::model::M;
  let mut r = R::new(mix(8_101 + which));
  let mut best: std::collections::BTreeMap<String, (usize, xml::E, Vec<usize>)> = Default::default();
  for _ in 0..400 {
    crate::model::reset();
    let t = super::xmlp::gen_law(&mut r).x();
    let mut ps = vec![];
    super::costp::paths(&t, &mut vec![], &mut ps);
    for p in &ps {
      let mut e = &t;
      let mut text = false;
      for i in p {
        match &e.kids[*i] {
          N::E(k) => e = k,
          _ => text = true,
        }
      }
      if !text {
        if best.get(&e.name).is_none_or(|b| b.0 > ps.len()) {
          best.insert(e.name.clone(), (ps.len(), t.clone(), p.clone()));
        }
      }
    }
  }
  let v: &'static Samples = Box::leak(Box::new(best.into_iter().map(|(k, (_, t, p))| (k, t, p)).collect()));
  all.push((which, v));
  v
}

/// smaller: what is not needed for reading goes, apart from the element at `path`
pub fn pruned(tree: &xml::E, path: &[usize]) -> Option<(xml::E, Vec<usize>)> {
  let mut tree = tree.clone();
  let mut path = path.to_vec();
  let ok = |t: &xml::E| matches!(guard(|| parse_xml(&doc_of(t))), Ok(Ok(_)));
  if !ok(&tree) {
    return None;
  }
  // from the last child to the first, so that the paths still to be tried stay valid
  fn shrink(tree: &mut xml::E, at: &mut Vec<usize>, keep: &mut [usize], ok: &dyn Fn(&xml::E) -> bool) {
    let mut e = &*tree;
    for i in at.iter() {
      let N::E(k) = &e.kids[*i] else { return };
      e = k;
    }
    for i in (0..e.kids.len()).rev() {
      at.push(i);
      let holds = keep.starts_with(at);
      if at.as_slice() != keep {
        let mut t = tree.clone();
        super::costp::parent_of(&mut t, at).kids.remove(i);
        if !holds && ok(&t) {
          *tree = t;
          let d = at.len() - 1;
          if keep.starts_with(&at[..d]) && keep[d] > i {
            keep[d] -= 1;
          }
        } else {
          shrink(tree, at, keep, ok);
        }
      }
      at.pop();
    }
  }
  shrink(&mut tree, &mut vec![], &mut path, &ok);
  Some((tree, path))
}

/// a rich example of one kind of element, in a law that has little besides
pub fn example(which: u64, r: &mut R) -> Option<(String, xml::E, Vec<usize>)> {
  use crate::model::M;
  let all = samples(0);
  let (kind, tree, path) = &all[which as usize % all.len()];
  let mut best = (0, tree.clone(), path.clone());
  for _ in 0..40 {
    crate::model::reset();
    let t = super::xmlp::gen_law(r).x();
    let mut ps = vec![];
    super::costp::paths(&t, &mut vec![], &mut ps);
    if ps.len() > 200 {
      continue;
    }
    for p in &ps {
      let mut e = &t;
      let mut text = false;
      for i in p {
        match &e.kids[*i] {
          N::E(k) => e = k,
          _ => text = true,
        }
      }
      if !text && &e.name == kind && e.count() <= 60 {
        let mut names: Vec<&str> = e.kids.iter().map(|k| if let N::E(k) = k { k.name.as_str() } else { "text" }).collect();
        names.sort();
        names.dedup();
        let score = 10 * (names.len() + e.attrs.len()) + e.kids.len().min(9);
        if score > best.0 {
          best = (score, t.clone(), p.clone());
        }
      }
    }
  }
  let (t, p) = pruned(&best.1, &best.2)?;
  Some((kind.clone(), t, p))
}
pub fn doc_of(t: &xml::E) -> Vec<u8> {
  xml::to_doc(t, &Lex::plain(), &mut R::new(1)).into_bytes()
}

/// thousands of laws of one kind read and written, and thousands refused for a fault in that kind of element:
/// afterwards the law is read and written as before
fn each_kind(c: &mut Ctx, r: &mut R) {
  // a number in the source may be a count of calls
  let new = &crate::dict::dict().new_ints;
  let m = if new.is_empty() {
    0
  } else {
    let at = c.index as usize;
    let m = new[at % new.len()] as usize;
    if m < 17 && at / new.len() % 2 == 1 {
      1 << m
    } else {
      m
    }
  };
  let n = if (2_000..10_000).contains(&m) { m + 20 } else { 2_000 };
  let reads = if (2_000..if c.index < 16 { 100_000 } else { 20_000 }).contains(&m) { m + 20 } else { 2_000 };
  let all = samples(c.index / 144);
  let k = (c.index % 144) as usize;
  if k >= all.len() {
    // texts
    let good = "第一条　甲は、乙とする。\n一　文\nイ　文\n附則\n１　文";
    let first = format!("{:?}", super::textp::parse(good));
    let mut bad = String::new();
    for _ in 0..200 {
      bad = (0..r.rg(1, 3)).map(|_| super::textp::chaos_line(r)).collect::<Vec<_>>().join("\n");
      if matches!(guard(|| super::textp::parse(&bad)), Ok(Err(_))) {
        break;
      }
    }
    c.input = Some(bad.clone());
    let err = guard(|| format!("{:?}", super::textp::parse(&bad)));
    c.eval(mix(hash_str(&bad)), true);
    for _ in 0..1_100 {
      c.count("refused texts in long series", 1);
      if guard(|| format!("{:?}", super::textp::parse(&bad))) != err {
        return c.fail("parse_text gives another result after many refusals", &bad);
      }
    }
    let now = guard(|| format!("{:?}", super::textp::parse(good)));
    c.check(now.as_ref() == Ok(&first), "parse_text gives another result after many refusals of another text", || format!("{bad}\n{now:?}"));
    return;
  }
  let (kind, tree, path) = &all[k];
  let Some((tree, path)) = pruned(tree, path) else {
    return c.count("kinds not read (see P01)", 1);
  };
  let good = doc_of(&tree);
  c.input = Some(String::from_utf8_lossy(&good).to_string());
  c.see("kinds of element in long series", kind);
  c.count("bytes of the laws of long series", good.len() as u64);
  let Ok(Ok(law)) = guard(|| parse_xml(&good)) else { return };
  let (first, first_doc) = (format!("{law:?}"), to_xml(&law).map(|s| tree_dig(s.as_bytes())).unwrap_or(1));
  let still = |c: &mut Ctx, after: &str| {
    let now = guard(|| format!("{:?}", parse_xml(&good).unwrap()));
    c.check(now.as_ref() == Ok(&first), &format!("parse_xml gives another result {after}"), || format!("{kind}: {now:?}"));
    let now = guard(|| to_xml(&law).map(|s| tree_dig(s.as_bytes())).unwrap_or(1));
    c.check(now == Ok(first_doc), &format!("to_xml gives another result {after}"), || kind.to_string());
  };
  // the faults
  let mut faults: Vec<xml::E> = vec![];
  for f in 0..5 {
    let mut t = tree.clone();
    let at = *path.last().unwrap();
    let up = super::costp::parent_of(&mut t, &path);
    let N::E(e) = &mut up.kids[at] else { return };
    match f {
      0 => e.kids.push(N::E(xml::E::n("Nowhere"))),
      1 => e.kids.insert(0, N::E(xml::E::n("Nowhere"))),
      2 => e.attrs.values_mut().for_each(|v| *v = "x".into()),
      3 => e.attrs.clear(),
      _ => e.kids.clear(),
    }
    if t != tree {
      faults.push(t);
    }
  }
  for t in faults {
    let bad = doc_of(&t);
    let Ok(Err(e)) = guard(|| parse_xml(&bad)) else { continue };
    let e = format!("{e:?}");
    c.eval(mix(hash_str(&String::from_utf8_lossy(&bad))), true);
    for _ in 0..n {
      c.count("refused documents in long series", 1);
      if guard(|| format!("{:?}", parse_xml(&bad).err())) != Ok(format!("Some({e})")) {
        return c.fail("parse_xml gives another result after many refusals", &format!("{kind}: {e}"));
      }
    }
    still(c, "after many refusals of another document");
  }
  c.eval(mix(hash_str(&first)), true);
  let n = if good.len() < 6_000 { reads } else { n };
  for _ in 0..n {
    c.count("read and written documents in long series", 1);
    let ok = guard(|| matches!(parse_xml(&good), Ok(l) if l == law));
    if ok != Ok(true) {
      return c.fail("parse_xml gives another result after many calls", kind);
    }
    if !matches!(guard(|| to_xml(&law).is_ok()), Ok(true)) {
      return c.fail("to_xml gives another result after many calls", kind);
    }
  }
  still(c, "after many calls");
}
/// the calls on n threads at once: the order of each thread, and (start, end, call, result, calls running at the start) of every call
#[allow(clippy::type_complexity)]
fn on_threads(w: &World, ops: &[Op], n: usize, rounds: usize, most: usize, r: &mut R) -> (Vec<Vec<usize>>, Vec<Vec<(u64, u64, usize, u64, u64)>>) {
  let orders: Vec<Vec<usize>> = (0..n)
    .map(|_| {
      let mut v: Vec<usize> = (0..ops.len()).collect();
      r.shuffle(&mut v);
      let mut o = vec![];
      while o.len() < ops.len() * rounds && o.len() < most {
        o.extend(v.iter().cloned());
      }
      o.truncate(most);
      o
    })
    .collect();
  let barrier = std::sync::Barrier::new(n);
  let clock = std::sync::atomic::AtomicU64::new(0);
  let running = std::sync::atomic::AtomicU64::new(0);
  let logs = std::thread::scope(|s| {
    let hs: Vec<_> = orders
      .iter()
      .map(|o| {
        let (barrier, clock, running) = (&barrier, &clock, &running);
        let seed = mix(r.n(1 << 40) as u64);
        let t = std::thread::Builder::new().stack_size(16 << 20);
        let t = t.spawn_scoped(s, move || {
          // relaxed: the monitor must not order the calls it watches
          use std::sync::atomic::Ordering::Relaxed;
          let mut r = R::new(seed);
          let mut log = Vec::with_capacity(o.len());
          barrier.wait();
          for k in o {
            if r.p(15) {
              std::thread::yield_now();
            }
            let t0 = clock.fetch_add(1, Relaxed);
            let others = running.fetch_add(1, Relaxed);
            let d = exec(w, ops[*k]);
            running.fetch_sub(1, Relaxed);
            let t1 = clock.fetch_add(1, Relaxed);
            log.push((t0, t1, *k, d, others));
          }
          log
        });
        t.expect("thread")
      })
      .collect();
    hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
  });
  (orders, logs)
}

/// probe p20s SEED KIND: concurrent calls in a process of their own, for a sanitizer to look at
pub fn probe_sanitized(a: &[String]) -> i32 {
  quiet_panics();
  let seed: u64 = a[0].parse().unwrap_or(0);
  let mut r = R::new(mix(seed));
  let (w, ops, n, most) = match a[1].as_str() {
    "small" => {
      let w = small_world(&mut r);
      let mut ops = ops_of(&w);
      r.shuffle(&mut ops);
      ops.truncate(5);
      (w, ops, 2, 5)
    }
    "threads" => {
      let w = world_of(seed);
      let ops = ops_of(&w);
      (w, ops, 4, 25)
    }
    "symbols" => {
      let w = symbols(&mut r);
      let ops = ops_of(&w);
      (w, ops, 4, 130)
    }
    k => {
      let w = world_of(seed);
      let ops = ops_of_kind(&w, k.parse().unwrap_or(0));
      (w, ops, 4, 25)
    }
  };
  // each call alone on all threads first: a sanitizer forgets an access after some time
  let mut single = vec![];
  if a[1] != "small" {
    for (k, o) in ops.iter().enumerate() {
      if k % 40 == 0 || a[1] == "symbols" || r.n(ops.len()) < 40 {
        single.push((k, on_threads(&w, &[*o], 3, 1, 1, &mut r).1));
      }
    }
  }
  let (_, mut logs) = on_threads(&w, &ops, n, 20, most, &mut r);
  for (k, s) in single {
    logs.extend(s.into_iter().map(|l| l.into_iter().map(|(t0, t1, _, d, others)| (t0, t1, k, d, others)).collect()));
  }
  let reference: Vec<u64> = ops.iter().map(|o| exec(&w, *o)).collect();
  let all: Vec<_> = logs.iter().flatten().collect();
  for l in &all {
    if l.3 != reference[l.2] {
      println!("DIFFERENT {} {:?}", op_name(ops[l.2]), ops[l.2]);
    }
  }
  for o in &ops {
    println!("FUNCTION {}", op_name(*o));
  }
  println!("CALLS {} OVERLAPPING {}", all.len(), all.iter().filter(|l| l.4 > 0).count());
  0
}

/// probe race | norace: what the sanitizer must and must not report
pub fn probe_race(race: bool) -> i32 {
  use std::sync::atomic::{AtomicUsize, Ordering};
  static ATOMIC: AtomicUsize = AtomicUsize::new(0);
  struct Cell(std::cell::UnsafeCell<usize>);
  unsafe impl Sync for Cell {}
  static CELL: Cell = Cell(std::cell::UnsafeCell::new(0));
  std::thread::scope(|s| {
    for _ in 0..2 {
      s.spawn(|| {
        for _ in 0..1000 {
          if race {
            unsafe { *CELL.0.get() += 1 };
          }
          ATOMIC.fetch_add(1, Ordering::Relaxed);
        }
      });
    }
  });
  println!("{}", ATOMIC.load(Ordering::Relaxed));
  0
}

/// a process under a sanitizer; its report is a violation, its absence is not
fn sanitized(stage: &str, seed: u64, c: &mut Ctx) {
  let Ok(path) = std::env::var(if stage == "tsan" { "LAWMON_TSAN" } else { "LAWMON_MIRI" }) else {
    return c.count(&format!("{stage}: not available"), 1);
  };
  let mut cmd;
  if stage == "tsan" {
    cmd = std::process::Command::new("timeout");
    cmd.args(["-k", "5", "120", &path]);
    cmd.env("TSAN_OPTIONS", "halt_on_error=0 exitcode=66 second_deadlock_stack=1 history_size=7");
    let kind = if c.index % 2 == 0 { "threads".to_string() } else if c.index % 8 == 3 { "symbols".to_string() } else { (c.index / 2).to_string() };
    cmd.args(["probe", "p20s", &seed.to_string(), &kind]);
  } else {
    // LAWMON_MIRI is a script that starts the interpreter
    cmd = std::process::Command::new("timeout");
    cmd.args(["-k", "5", "900", &path]);
    cmd.args([&(seed % 100_000).to_string(), "probe", "p20s", &seed.to_string(), "small"]);
  }
  use std::os::unix::process::CommandExt;
  // the shadow memory of a sanitizer does not fit into the address space of a worker
  unsafe {
    cmd.pre_exec(|| {
      let lim = libc::rlimit { rlim_cur: libc::RLIM_INFINITY, rlim_max: libc::RLIM_INFINITY };
      libc::setrlimit(libc::RLIMIT_AS, &lim);
      Ok(())
    });
  }
  let out = match cmd.stdin(std::process::Stdio::null()).output() {
    Ok(o) => o,
    Err(_) => return c.count(&format!("{stage}: could not be started"), 1),
  };
  let (so, se) = (String::from_utf8_lossy(&out.stdout).to_string(), String::from_utf8_lossy(&out.stderr).to_string());
  let report = ["WARNING: ThreadSanitizer: data race", "error: Undefined Behavior", "ThreadSanitizer: heap-use-after-free"];
  if report.iter().any(|m| se.contains(m)) {
    let own: Vec<&str> = se.lines().filter(|l| l.contains("/repo/src/") || l.contains("japanese_law_xml_schema::")).take(6).map(|l| l.trim()).collect();
    let head = se.lines().find(|l| report.iter().any(|m| l.contains(m))).unwrap_or("").trim();
    return c.fail(&format!("{stage} reports undefined behaviour"), &format!("world {seed}: {head}\n{}\n{}", own.join("\n"), se.chars().take(3000).collect::<String>()));
  }
  if let Some(l) = so.lines().find(|l| l.starts_with("DIFFERENT")) {
    return c.fail("concurrent calls give another result", &format!("{l}; world {seed}"));
  }
  let Some(l) = so.lines().find(|l| l.starts_with("CALLS ")) else {
    return c.count(&format!("{stage}: no answer"), 1);
  };
  let f: Vec<u64> = l.split(' ').filter_map(|s| s.parse().ok()).collect();
  c.count(&format!("{stage}: runs without a report"), 1);
  c.count(&format!("{stage}: calls"), f[0]);
  c.count(&format!("{stage}: overlapping calls"), f[1]);
  for l in so.lines().filter_map(|l| l.strip_prefix("FUNCTION ")) {
    c.see(&format!("{stage}: functions"), l);
  }
  c.eval(mix(seed), f[1] > 0);
}

/// every symbol of every style of item number, written and read, small numbers in headings
fn symbols(r: &mut R) -> World {
  crate::model::reset();
  let nums: Vec<ArticleNumber> = (1..=60).map(|b| ArticleNumber { base_number: b, eda_numbers: vec![], range_end_numbers: vec![] }).collect();
  let mut strs = vec![];
  for _ in 0..40 {
    let n = r.pick(&nums).clone();
    let p = *r.pick(&super::nump::PATTERNS);
    strs.extend(super::nump::item_ref(&n, p));
    strs.push(n.article_text());
  }
  World { docs: vec![], laws: vec![], texts: vec!["第一条　文\n一　文".to_string()], strs, nums }
}

fn small_world(r: &mut R) -> World {
  crate::model::reset();
  r.b = 6;
  let law = super::xmlp::gen_law(r);
  use crate::model::M;
  let lex = Lex::wild(r);
  let doc = xml::to_bytes(&law.x(), &lex, r);
  let mut bad = doc.clone();
  super::xmlp::mutate_bytes(&mut bad, r, 3);
  let texts = vec![(0..r.rg(1, 2)).map(|_| super::textp::chaos_line(r)).collect::<Vec<_>>().join("\n")];
  let strs = vec![super::nump::heading_string(r), super::nump::item_string(r)];
  let nums = vec![super::nump::anyan(r)];
  World { docs: vec![doc, bad], laws: vec![law], texts, strs, nums }
}

/// probe p20 SEED ORDER K: the results of the calls in this process
pub fn probe(a: &[String]) -> i32 {
  quiet_panics();
  let seed: u64 = a[0].parse().unwrap_or(0);
  let w = world_of(seed);
  let ops = ops_of(&w);
  let mut order: Vec<usize> = (0..ops.len()).collect();
  match a[1].as_str() {
    "reverse" => order.reverse(),
    "shuffled" => R::new(seed ^ 77).shuffle(&mut order),
    "single" => order = vec![a[2].parse().unwrap_or(0)],
    _ => (),
  }
  let mut out = String::new();
  for k in order {
    out.push_str(&format!("DIGEST {k} {}\n", exec(&w, ops[k])));
  }
  print!("{out}");
  0
}

// ------------------------------------------------------------------ P21

/// the workloads of the other properties that call the library, with the number of cases in the quick tier
const LOADS: &[(&str, &str, u64)] = &[
  ("P01", "plain", 1500),
  ("P02", "laws", 2500),
  ("P03", "read", 250),
  ("P03", "memory", 150),
  ("P04", "spellings", 600),
  ("P05", "tree", 2400),
  ("P05", "bytes", 2400),
  ("P05", "soup", 2000),
  ("P05", "wild", 600),
  ("P06", "mutations", 1600),
  ("P06", "malformed", 200),
  ("P07", "writers", 250),
  ("P07", "files", 200),
  ("P07", "paths", 16),
  ("P08", "random", 4000),
  ("P08", "strings", 10000),
  ("P09", "random", 500),
  ("P09", "strings", 1200),
  ("P10", "random", 800),
  ("P10", "ambiguous", 40),
  ("P10", "strings", 1200),
  ("P11", "laws", 6000),
  ("P12", "laws", 6000),
  ("P13", "paragraphs", 6000),
  ("P14", "sentence", 4000),
  ("P14", "table", 3000),
  ("P14", "text", 4000),
  ("P15", "structured", 80),
  ("P15", "shuffled", 80),
  ("P15", "chaos", 240),
  ("P16", "structured", 100),
  ("P16", "styles", 100),
  ("P17", "text", 240),
  ("P17", "numbers", 2000),
  ("P18", "random", 20000),
  ("P19", "memory", 300),
  ("P20", "history", 40),
  ("P20", "threads", 16),
];

pub fn stages21() -> Vec<Stage> {
  // stage names are "P05/tree"; the names live as long as the program
  LOADS.iter().map(|(p, s, n)| st(Box::leak(format!("{p}/{s}").into_boxed_str()), *n, *n * 30)).collect()
}

fn size(fd: i32) -> Option<u64> {
  let mut s: libc::stat = unsafe { std::mem::zeroed() };
  if unsafe { libc::fstat(fd, &mut s) } != 0 || (s.st_mode & libc::S_IFMT) != libc::S_IFREG {
    return None;
  }
  Some(s.st_size as u64)
}

/// makes a file of standard output and error where they are not one (replay)
fn into_file(fd: i32, c: &Ctx) {
  if size(fd).is_none() {
    if let Ok(f) = std::fs::OpenOptions::new().create(true).append(true).open(c.scratch.join(format!("fd{fd}"))) {
      unsafe { libc::dup2(f.as_raw_fd(), fd) };
    }
  }
}

fn sizes() -> [u64; 2] {
  use std::io::Write;
  let _ = std::io::stdout().flush();
  let _ = std::io::stderr().flush();
  [size(1).unwrap_or(0), size(2).unwrap_or(0)]
}

fn tail(fd: i32, from: u64) -> String {
  use std::os::unix::fs::FileExt;
  let mut b = vec![0u8; 400];
  let n = std::fs::File::open(format!("/proc/self/fd/{fd}")).and_then(|f| f.read_at(&mut b, from)).unwrap_or(0);
  String::from_utf8_lossy(&b[..n]).to_string()
}

pub fn p21(stage: &str, c: &mut Ctx, r: &mut R) {
  let Some((p, s)) = stage.split_once('/') else { return };
  let replay = size(1).is_none() || size(2).is_none();
  let saved = if replay { unsafe { [libc::dup(1), libc::dup(2)] } } else { [-1, -1] };
  if replay {
    into_file(1, c);
    into_file(2, c);
  }
  let before = sizes();
  // the oracle of the other property is not asked; what it counted is kept apart
  let counters = std::mem::take(&mut c.counters);
  let seen = std::mem::take(&mut c.seen);
  let (evals, distinct, samples) = (c.evals, std::mem::take(&mut c.distinct), std::mem::take(&mut c.samples));
  c.mute = true;
  let stage_name = std::mem::replace(&mut c.stage, s.to_string());
  let res = guard(|| super::case(p, s, c, r));
  c.mute = false;
  c.stage = stage_name;
  let calls = c.evals - evals;
  c.counters = counters;
  c.seen = seen;
  c.evals = evals;
  c.distinct = distinct;
  c.samples = samples;
  let after = sizes();
  let mut said = vec![];
  for (i, fd) in [1, 2].into_iter().enumerate() {
    if after[i] != before[i] {
      said.push(format!("{} bytes at file descriptor {fd}: {:?}", after[i].wrapping_sub(before[i]), tail(fd, before[i])));
    }
  }
  if replay {
    unsafe {
      libc::dup2(saved[0], 1);
      libc::dup2(saved[1], 2);
      libc::close(saved[0]);
      libc::close(saved[1]);
    }
  }
  c.eval(mix(hash_str(stage) ^ mix(c.index ^ c.seed)), calls > 0);
  c.count("silent library workloads judged", calls);
  c.count(&format!("workload {p}"), calls);
  c.sample(2, || json!({"workload": stage, "judgements of the other monitor": calls, "bytes at file descriptors 1 and 2": [after[0] - before[0], after[1] - before[1]]}));
  if !said.is_empty() {
    c.fail(&format!("something is printed ({p})"), &said.join("\n"));
  }
  if let Err(m) = res {
    panic!("{m}");
  }
}
