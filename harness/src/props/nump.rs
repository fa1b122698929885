//! P08–P10: numbers in machine form, heading numbers, item numbers.

use super::*;
use crate::model::num_ref;
use japanese_law_xml_schema::article_number::*;
use std::collections::BTreeSet;

type AN = ArticleNumber;
fn an(b: usize, e: &[usize], r: &[usize]) -> AN {
  AN { base_number: b, eda_numbers: e.to_vec(), range_end_numbers: r.to_vec() }
}

// ------------------------------------------------------------------ P08

/// reference reading of the machine form; `None` in the outer option: unspecified spelling
fn ref_num(s: &str) -> Option<Result<AN, ()>> {
  if s.contains('+') {
    return None; // "+1": neither promised nor forbidden
  }
  let halves: Vec<&str> = s.split(':').collect();
  if halves.len() > 2 {
    return Some(Err(()));
  }
  let list = |h: &str| -> Result<Vec<usize>, ()> {
    h.split('_')
      .map(|p| {
        if p.is_empty() || !p.bytes().all(|b| b.is_ascii_digit()) {
          return Err(());
        }
        let mut n: u128 = 0;
        for b in p.bytes() {
          n = n.saturating_mul(10).saturating_add((b - b'0') as u128);
        }
        usize::try_from(n).map_err(|_| ())
      })
      .collect()
  };
  let a = match list(halves[0]) {
    Ok(a) => a,
    Err(()) => return Some(Err(())),
  };
  let b = match halves.get(1).map(|h| list(h)) {
    None => vec![],
    Some(Ok(b)) => b,
    Some(Err(())) => return Some(Err(())),
  };
  Some(Ok(an(a[0], &a[1..], &b)))
}

fn check_num(c: &mut Ctx, n: &AN) {
  let want = num_ref(n);
  c.input = Some(format!("{n:?}"));
  c.eval(hash_str(&want), !n.eda_numbers.is_empty() || !n.range_end_numbers.is_empty() || n.base_number > 99);
  c.see("shapes (branches, range length)", &format!("{},{}", n.eda_numbers.len(), n.range_end_numbers.len()));
  let Some(s) = c.sut("num_str", || n.num_str()) else { return };
  if s != want {
    return c.fail("num_str", &format!("{n:?} written as {s:?}, expected {want:?}"));
  }
  let Some(b) = c.sut("from_num_str", || AN::from_num_str(&s)) else { return };
  c.check(b.as_ref().ok() == Some(n), "from_num_str does not give the number back", || format!("{s:?} -> {b:?}"));
  let Some(b) = c.sut("from_str", || s.parse::<AN>()) else { return };
  c.check(b.as_ref().ok() == Some(n), "from_str does not give the number back", || format!("{s:?} -> {b:?}"));
  let Some(z) = c.sut("is_zero", || n.is_zero()) else { return };
  c.check(z == (n.base_number == 0), "is_zero", || format!("{n:?} -> {z}"));
}

fn check_str(c: &mut Ctx, s: &str) {
  c.input = Some(s.to_string());
  let want = ref_num(s);
  c.eval(hash_str(s) ^ 3, want.is_some());
  for (how, got) in [("from_num_str", c.sut("from_num_str", || AN::from_num_str(s))), ("from_str", c.sut("from_str", || s.parse::<AN>()))] {
    let (Some(got), Some(want)) = (got, &want) else { continue };
    match (want, &got) {
      (Ok(w), Ok(g)) if w == g => c.count("accepted strings", 1),
      (Err(()), Err(_)) => c.count("refused strings", 1),
      (Ok(_), Err(_)) => c.fail(&format!("{how}: legal form refused"), &format!("{s:?} -> {got:?}")),
      (Ok(w), Ok(_)) => c.fail(&format!("{how}: wrong number"), &format!("{s:?} -> {got:?}, expected {w:?}")),
      (Err(()), Ok(_)) => c.fail(&format!("{how}: illegal form accepted"), &format!("{s:?} -> {got:?}")),
    }
  }
}

const EDGE: &[usize] = &[
  0, 1, 2, 9, 10, 11, 99, 100, 255, 256, 999, 1000, 9999, 10000, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 9_999_999_999_999_999, 10_000_000_000_000_000,
  9_007_199_254_740_993, i64::MAX as usize, usize::MAX - 1, usize::MAX,
];
fn anynum(r: &mut R) -> usize {
  if let Some(n) = crate::dict::int(r, usize::MAX) {
    return n;
  }
  match r.n(6) {
    0 | 1 => r.rg(0, 12),
    2 => r.rg(0, 1200),
    3 => *r.pick(EDGE),
    4 => {
      let bits = r.rg(1, 64);
      (r.next() >> (64 - bits)) as usize
    }
    _ => {
      let d = r.rg(1, 19);
      let mut n = 0usize;
      for _ in 0..d {
        let k = *r.pick(&[0, 0, 1, 1, 2, 5, 9]);
        n = n * 10 + k;
      }
      n
    }
  }
}
pub fn anyan(r: &mut R) -> AN {
  let k = *r.pick(&[0, 0, 1, 1, 2, 3, 4, 9, 20]);
  let e: Vec<usize> = (0..k).map(|_| anynum(r)).collect();
  let k = *r.pick(&[0, 0, 0, 1, 1, 2, 3, 4, 12]);
  let g: Vec<usize> = (0..k).map(|_| anynum(r)).collect();
  an(anynum(r), &e, &g)
}

pub fn p08(stage: &str, c: &mut Ctx, r: &mut R) {
  match stage {
    // every shape with small parts
    "small" => {
      let i = c.index as usize;
      let b = i % 13;
      let d = [0, 1, 2, 10, 12];
      let mut lists: Vec<Vec<usize>> = vec![vec![]];
      for a in d {
        lists.push(vec![a]);
        for b in d {
          lists.push(vec![a, b]);
        }
      }
      lists.push(vec![1, 2, 3]);
      lists.push(vec![3, 2, 1, 0]);
      let e = &lists[(i / 13) % lists.len()];
      for g in &lists {
        check_num(c, &an(b, e, g));
      }
    }
    "random" => {
      for _ in 0..50 {
        let n = anyan(r);
        check_num(c, &n);
        let it = ItemNumber { str: "x".into(), base_number: n.base_number, eda_numbers: n.eda_numbers.clone(), range_end_numbers: n.range_end_numbers.clone(), pattern: ItemPattern::NoParenKansuji };
        if let Some(m) = c.sut("from_item_number", || AN::from_item_number(&it)) {
          c.check(m == n, "from_item_number", || format!("{it:?} -> {m:?}"));
        }
        // neighbours must have other forms
        let mut m = n.clone();
        let what = match r.n(6) {
          0 => {
            m.eda_numbers.push(0);
            "one more branch"
          }
          1 => {
            m.range_end_numbers.push(0);
            "one more range part"
          }
          2 if !m.eda_numbers.is_empty() => {
            let last = m.eda_numbers.pop().unwrap();
            m.range_end_numbers.insert(0, last);
            "a branch moved to the range"
          }
          3 if !m.eda_numbers.is_empty() => {
            m.eda_numbers.swap_remove(0);
            "a branch removed"
          }
          4 if m.eda_numbers.len() > 1 => {
            let a = m.eda_numbers.remove(0);
            m.eda_numbers[0] = format!("{a}{}", m.eda_numbers[0]).parse().unwrap_or(7);
            "two branches glued"
          }
          _ => {
            m.base_number = m.base_number.wrapping_add(1);
            "another base"
          }
        };
        if m != n {
          if let (Some(a), Some(b)) = (c.sut("num_str", || n.num_str()), c.sut("num_str", || m.num_str())) {
            c.count("pairs of different numbers", 1);
            c.check(a != b, &format!("two numbers with one form ({what})"), || format!("{n:?} and {m:?}: {a}"));
          }
        }
      }
      let z = AN::zero();
      c.check(z == an(0, &[], &[]) && z.is_zero(), "zero()", || format!("{z:?}"));
    }
    _ => {
      for _ in 0..60 {
        let s = num_string(r);
        check_str(c, &s);
      }
    }
  }
}

pub fn num_string(r: &mut R) -> String {
  let mut s = match r.n(5) {
    0 => {
      // from parts
      let k = r.rg(1, 4);
      let mut s = String::new();
      for i in 0..k {
        if i > 0 {
          s.push_str(*r.pick(&["_", "_", "_", ":", "__", "-", " ", ".", "：", "＿", "\n"]));
        }
        s.push_str(&part(r));
      }
      s
    }
    _ => num_ref(&anyan(r)),
  };
  let k = *r.pick(&[0, 1, 1, 1, 2, 3]);
  for _ in 0..k {
    let cs: Vec<char> = s.chars().collect();
    let p = r.n(cs.len() + 1);
    let mut v = cs;
    match r.n(4) {
      0 if !v.is_empty() => {
        let p = p.min(v.len() - 1);
        v.remove(p);
      }
      1 if !v.is_empty() => {
        let p = p.min(v.len() - 1);
        v[p] = *r.pick(&['_', ':', '0', '9', '-', ' ', 'a', '１', '\u{0}', '+', '.', 'x', '٣', '²']);
      }
      2 => v.insert(p, *r.pick(&['_', ':', '0', '1', '-', ' ', 'a', '一', '\t', '+', ',', '/'])),
      _ => {
        let t: String = v.iter().collect();
        v = format!("{t}{}", *r.pick(&["_", ":", ":1", "_1", "::", ":1:2", ":1:", " ", "\n", "\0", "_99999999999999999999", ":18446744073709551616", "_18446744073709551615"])).chars().collect();
      }
    }
    s = v.into_iter().collect();
  }
  s
}
fn part(r: &mut R) -> String {
  match r.n(10) {
    0 => String::new(),
    1 => r.pick(&["-1", "1.5", "0x1", "1e3", "x", "一", "１", "９", "1 ", " 1", "00", "007", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "-0", "1_", "𝟙", "²"]).to_string(),
    _ => anynum(r).to_string(),
  }
}

// ------------------------------------------------------------------ reference numerals

/// kanji numerals for 1 ..= u64::MAX
pub fn kanji(n: usize) -> String {
  const D: [&str; 10] = ["", "一", "二", "三", "四", "五", "六", "七", "八", "九"];
  const G: [&str; 5] = ["", "万", "億", "兆", "京"];
  let mut groups = vec![];
  let mut m = n;
  while m > 0 {
    groups.push(m % 10000);
    m /= 10000;
  }
  let mut s = String::new();
  for (i, g) in groups.iter().enumerate().rev() {
    if *g == 0 {
      continue;
    }
    for (u, w) in [(1000, "千"), (100, "百"), (10, "十"), (1, "")] {
      let d = g / u % 10;
      if d == 0 {
        continue;
      }
      if d > 1 || u == 1 {
        s.push_str(D[d]);
      }
      s.push_str(w);
    }
    s.push_str(G[i]);
  }
  s
}
pub fn wide_digits(n: usize) -> String {
  n.to_string().chars().map(|c| char::from_u32(c as u32 - '0' as u32 + '０' as u32).unwrap()).collect()
}
const KATA: &str = "イロハニホヘトチリヌルヲワカヨタレソツネナラムウヰノオクヤマケフコエテアサキユメミシヱヒモセス";
const HIRA: &str = "いろはにほへとちりぬるをわかよたれそつねならむうゐのおくやまけふこえてあさきゆめみしゑひもせす";
fn roman(mut n: usize) -> String {
  const T: [(usize, &str); 13] = [(1000, "M"), (900, "CM"), (500, "D"), (400, "CD"), (100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")];
  let mut s = String::new();
  for (v, w) in T {
    while n >= v {
      s.push_str(w);
      n -= v;
    }
  }
  s
}
fn widen(s: &str) -> String {
  s.chars().map(|c| char::from_u32(c as u32 - 'A' as u32 + 'Ａ' as u32).unwrap()).collect()
}
fn widen_lower(s: &str) -> String {
  s.chars().map(|c| char::from_u32(c as u32 - 'A' as u32 + 'ａ' as u32).unwrap()).collect()
}
fn letters(mut n: usize) -> String {
  let mut v = vec![];
  while n > 0 {
    v.push((b'A' + ((n - 1) % 26) as u8) as char);
    n = (n - 1) / 26;
  }
  v.into_iter().rev().collect()
}

// ------------------------------------------------------------------ P09

const SUF: [&str; 6] = ["編", "章", "節", "款", "目", "条"];

fn heading_ref(n: &AN, suf: &str, num: &dyn Fn(usize) -> String, no: &str) -> String {
  let mut s = format!("第{}{suf}", num(n.base_number));
  for e in &n.eda_numbers {
    s += &format!("{no}{}", num(*e));
  }
  if let Some((h, t)) = n.range_end_numbers.split_first() {
    s += &format!("から第{}{suf}", num(*h));
    for e in t {
      s += &format!("{no}{}", num(*e));
    }
    s += "まで";
  }
  s
}
fn para_ref(n: &AN, num: &dyn Fn(usize) -> String, no: &str) -> String {
  let mut s = num(n.base_number);
  for e in &n.eda_numbers {
    s += &format!("{no}{}", num(*e));
  }
  if let Some((h, t)) = n.range_end_numbers.split_first() {
    s += &format!("から{}", num(*h));
    for e in t {
      s += &format!("{no}{}", num(*e));
    }
    s += "まで";
  }
  s
}

pub fn positive(n: &AN) -> bool {
  n.base_number > 0 && n.eda_numbers.iter().all(|e| *e > 0) && n.range_end_numbers.iter().all(|e| *e > 0)
}

fn number_text(n: &AN, level: usize) -> String {
  use japanese_law_xml_schema::article::*;
  use japanese_law_xml_schema::text::Text;
  let t = || Text { contents: vec![] };
  let n = n.clone();
  match level {
    0 => Part { part_title: t(), children: vec![], num: n, delete: false, hide: false }.number_text(),
    1 => Chapter { chapter_title: t(), children: vec![], num: n, delete: false, hide: false }.number_text(),
    2 => Section { section_title: t(), children: vec![], num: n, delete: false, hide: false }.number_text(),
    3 => Subsection { subsection_title: t(), children: vec![], num: n, delete: false, hide: false }.number_text(),
    4 => Division { division_title: t(), children: vec![], num: n, delete: false, hide: false }.number_text(),
    _ => Article { caption: None, title: t(), paragraph: vec![], suppl_note: None, num: n, delete: false, hide: false }.number_text(),
  }
}

fn check_heading(c: &mut Ctx, n: &AN, r: &mut R) {
  c.input = Some(format!("{n:?}"));
  for (l, suf) in SUF.iter().enumerate() {
    let want = heading_ref(n, suf, &kanji, "の");
    c.eval(hash_str(&want), !n.eda_numbers.is_empty() || !n.range_end_numbers.is_empty() || n.base_number > 20);
    let got = c.sut("heading text", || match l {
      0 => n.part_text(),
      1 => n.chapter_text(),
      2 => n.section_text(),
      3 => n.subsection_text(),
      4 => n.division_text(),
      _ => n.article_text(),
    });
    let Some(got) = got else { return };
    c.count("headings rendered", 1);
    c.check(got == want, &format!("heading text {suf}"), || format!("{n:?}: {got:?}, expected {want:?}"));
    if let Some(g) = c.sut("number_text", || number_text(n, l)) {
      c.check(g == want, &format!("number_text {suf}"), || format!("{n:?}: {g:?}, expected {want:?}"));
    }
    if let Some(b) = c.sut("parse_article_number", || parse_article_number(&want)) {
      c.count("headings read back", 1);
      c.check(b.as_ref() == Some(n), &format!("heading {suf} not read back"), || format!("{want:?} -> {b:?}"));
    }
    // other spellings
    let style = r.n(3);
    let s2 = match style {
      0 => heading_ref(n, suf, &|k| k.to_string(), *r.pick(&["の", "ノ"])),
      1 => heading_ref(n, suf, &wide_digits, *r.pick(&["の", "ノ"])),
      _ => heading_ref(n, suf, &kanji, "ノ"),
    };
    if let Some(b) = c.sut("parse_article_number", || parse_article_number(&s2)) {
      c.check(b.as_ref() == Some(n), &format!("other spelling {style} of a heading not read"), || format!("{s2:?} -> {b:?}"));
    }
  }
  let want = para_ref(n, &wide_digits, "の");
  if let Some(got) = c.sut("paragraph_text", || n.paragraph_text()) {
    c.check(got == want, "paragraph_text", || format!("{n:?}: {got:?}, expected {want:?}"));
  }
  let s2 = if r.p(50) { para_ref(n, &|k| k.to_string(), *r.pick(&["の", "ノ"])) } else { para_ref(n, &wide_digits, "ノ") };
  for s in [&want, &s2] {
    c.eval(hash_str(s), true);
    if let Some(b) = c.sut("parse_article_number", || parse_article_number(s)) {
      c.count("paragraph numbers read back", 1);
      c.check(b.as_ref() == Some(n), "paragraph number not read back", || format!("{s:?} -> {b:?}"));
    }
  }
}

type Pos = BTreeSet<usize>;
fn lit(t: &[char], p: &Pos, w: &str) -> Pos {
  let w: Vec<char> = w.chars().collect();
  p.iter().filter(|i| t[**i..].starts_with(&w)).map(|i| i + w.len()).collect()
}
fn any(t: &[char], p: &Pos, ws: &[&str]) -> Pos {
  ws.iter().flat_map(|w| lit(t, p, w)).collect()
}
fn run(t: &[char], p: &Pos, f: &dyn Fn(char) -> bool) -> Pos {
  let mut o = Pos::new();
  for i in p {
    let mut j = *i;
    while j < t.len() && f(t[j]) {
      j += 1;
      o.insert(j);
    }
  }
  o
}
fn is_kanji_num(c: char) -> bool {
  "一二三四五六七八九十百千万億兆京〇零壱弐参拾".contains(c)
}
fn dig(t: &[char], p: &Pos) -> Pos {
  let mut o = run(t, p, &|c| c.is_ascii_digit());
  o.extend(run(t, p, &|c| ('０'..='９').contains(&c)));
  o
}
fn hnum(t: &[char], p: &Pos) -> Pos {
  let mut o = dig(t, p);
  o.extend(run(t, p, &is_kanji_num));
  o
}
fn branches(t: &[char], p: &Pos, num: &dyn Fn(&[char], &Pos) -> Pos, no: &[&str]) -> Pos {
  let mut all = p.clone();
  let mut cur = p.clone();
  while !cur.is_empty() {
    cur = num(t, &any(t, &cur, no));
    let before = all.len();
    all.extend(cur.iter());
    if all.len() == before {
      break;
    }
  }
  all
}
fn with_opt(p: Pos, q: Pos) -> Pos {
  p.union(&q).copied().collect()
}

/// could `s`, read as generously as anyone might, be a heading or paragraph number?
pub fn maybe_article_number(s: &str) -> bool {
  let t: Vec<char> = s.chars().collect();
  let suf = ["編", "章", "節", "款", "目", "条", "項", "号"];
  let st = Pos::from([0]);
  let unit = |p: &Pos| -> Pos {
    let a = with_opt(p.clone(), lit(&t, p, "第"));
    let a = hnum(&t, &a);
    let a = any(&t, &a, &suf);
    branches(&t, &a, &hnum, &["の", "ノ"])
  };
  let a = unit(&st);
  let b = unit(&any(&t, &a, &["から", "及び", "ないし"]));
  let b = with_opt(b.clone(), lit(&t, &b, "まで"));
  if a.contains(&t.len()) || b.contains(&t.len()) {
    return true;
  }
  let a = branches(&t, &dig(&t, &st), &dig, &["の", "ノ"]);
  let b = branches(&t, &dig(&t, &any(&t, &a, &["から"])), &dig, &["の", "ノ"]);
  let b = with_opt(b.clone(), lit(&t, &b, "まで"));
  a.contains(&t.len()) || b.contains(&t.len())
}

fn check_not_number(c: &mut Ctx, s: &str) {
  c.input = Some(s.to_string());
  let Some(g) = c.sut("parse_article_number", || parse_article_number(s)) else { return };
  if maybe_article_number(s) {
    c.eval(hash_str(s), false);
    c.count("strings of number shape", 1);
    return;
  }
  c.eval(hash_str(s), true);
  c.count("strings that are no number", 1);
  c.check(g.is_none(), "a text that is no number is taken for one", || format!("{s:?} -> {g:?}"));
}

pub fn p09(stage: &str, c: &mut Ctx, r: &mut R) {
  match stage {
    // base numbers 1..10000 and one branch
    "small" => {
      let i = c.index as usize;
      check_heading(c, &an(i + 1, &[], &[]), r);
      let b = r.rg(1, 40);
      let e = r.rg(1, 130);
      let g = b + r.rg(1, 9);
      check_heading(c, &an(b, &[e], &[]), r);
      check_heading(c, &an(b, &[], &[g]), r);
    }
    "random" => {
      let mut n = anyan(r);
      for k in n.eda_numbers.iter_mut().chain(n.range_end_numbers.iter_mut()).chain(std::iter::once(&mut n.base_number)) {
        if *k == 0 {
          *k = 1;
        }
      }
      if positive(&n) {
        check_heading(c, &n, r);
      }
    }
    _ => {
      for _ in 0..12 {
        let s = heading_string(r);
        check_not_number(c, &s);
      }
      // too large for the machine: not a number, and no crash
      let big = *r.pick(&["18446744073709551616", "99999999999999999999", "340282366920938463463374607431768211456", "１８４４６７４４０７３７０９５５１６１６", "九十九垓", "九千九百九十九京", "一万京", "十万京", "一億京", "京京京京京京"]);
      let suf = *r.pick(&SUF);
      for s in [format!("第{big}{suf}"), format!("第一{suf}の{big}"), format!("第一{suf}から第{big}{suf}まで"), big.to_string(), format!("1の{big}"), format!("1から{big}まで")] {
        c.input = Some(s.clone());
        c.eval(hash_str(&s), true);
        if let Some(g) = c.sut("parse_article_number", || parse_article_number(&s)) {
          let digits = big.chars().all(|c| c.is_ascii_digit() || ('０'..='９').contains(&c));
          if digits {
            c.check(g.is_none(), "a number too large is read as another one", || format!("{s:?} -> {g:?}"));
          }
        }
      }
    }
  }
}

pub fn heading_string(r: &mut R) -> String {
  let n = an(r.rg(1, 30), &if r.p(40) { vec![r.rg(1, 5)] } else { vec![] }, &if r.p(30) { vec![r.rg(1, 9)] } else { vec![] });
  let suf = *r.pick(&["編", "章", "節", "款", "目", "条", "項", "号", "類", "則", "表", "", "編章"]);
  let s = match r.n(4) {
    0 => heading_ref(&n, suf, &kanji, "の"),
    1 => heading_ref(&n, suf, &|k| k.to_string(), "の"),
    2 => heading_ref(&n, suf, &wide_digits, "ノ"),
    _ => para_ref(&n, &wide_digits, "の"),
  };
  let mut v: Vec<char> = s.chars().collect();
  for _ in 0..r.rg(1, 3) {
    let p = r.n(v.len() + 1);
    if let Some(s) = crate::dict::string(r) {
      v.splice(p..p, s.chars());
      continue;
    }
    match r.n(6) {
      0 if !v.is_empty() => {
        v.remove(p.min(v.len() - 1));
      }
      1 => v.insert(p, *r.pick(&['第', 'の', 'ノ', '条', '章', '一', '1', '１', ' ', '　', 'a', '〇', '零', '、', '号', '\n', 'ま', 'で', '(', '（', '五', '百', '-', '.', '_'])),
      2 => v.extend(r.pick(&["の規定", "第一項", "まで", "から", "の", " ", "\n", "x", "。", "及び第二条", "の二から", "　本文", "\u{0}"]).chars()),
      3 => {
        let pre: Vec<char> = r.pick(&["第", "新", "同", " ", "　", "（", "x", "旧第", "\n", "附則第"]).chars().collect();
        v.splice(0..0, pre);
      }
      4 if v.len() > 1 => {
        let q = r.n(v.len());
        let p = p.min(v.len() - 1);
        v.swap(p, q);
      }
      _ => {
        v.truncate(p);
      }
    }
  }
  v.into_iter().collect()
}

// ------------------------------------------------------------------ P10

pub const PATTERNS: [ItemPattern; 16] = [
  ItemPattern::NoParenKansuji,
  ItemPattern::NoParenIrohaKatakana,
  ItemPattern::NoParenIrohaHiragana,
  ItemPattern::NoParenZenkakuNum,
  ItemPattern::NoParenZenkakuRomanUpper,
  ItemPattern::NoParenZenkakuRomanLower,
  ItemPattern::NoParenZenkakuUpper,
  ItemPattern::NoParenZenkakuLower,
  ItemPattern::ParenKansuji,
  ItemPattern::ParenIrohaKatakana,
  ItemPattern::ParenIrohaHiragana,
  ItemPattern::ParenZenkakuNum,
  ItemPattern::ParenZenkakuRomanUpper,
  ItemPattern::ParenZenkakuRomanLower,
  ItemPattern::ParenZenkakuUpper,
  ItemPattern::ParenZenkakuLower,
];
pub fn style(p: ItemPattern) -> usize {
  PATTERNS.iter().position(|q| *q == p).unwrap() % 8
}
pub fn paren(p: ItemPattern) -> bool {
  PATTERNS.iter().position(|q| *q == p).unwrap() >= 8
}
/// the bare symbol of number `n` in a style (0..8), where the style has one
pub fn symbol(st: usize, n: usize) -> Option<String> {
  Some(match st {
    0 if n > 0 => kanji(n),
    1 if (1..=47).contains(&n) => KATA.chars().nth(n - 1)?.to_string(),
    2 if (1..=47).contains(&n) => HIRA.chars().nth(n - 1)?.to_string(),
    3 => wide_digits(n),
    4 if (1..=3999).contains(&n) => widen(&roman(n)),
    5 if (1..=3999).contains(&n) => widen_lower(&roman(n)),
    6 if n > 0 => widen(&letters(n)),
    7 if n > 0 => widen_lower(&letters(n)),
    _ => return None,
  })
}
pub fn item_ref(n: &AN, p: ItemPattern) -> Option<String> {
  let st = style(p);
  let outer = |k: usize| symbol(st, k).map(|s| if paren(p) { format!("（{s}）") } else { s });
  let mut s = outer(n.base_number)?;
  for e in &n.eda_numbers {
    s += &format!("の{}", symbol(st, *e)?);
  }
  if let Some((h, t)) = n.range_end_numbers.split_first() {
    s += &format!("から{}", outer(*h)?);
    for e in t {
      s += &format!("の{}", symbol(st, *e)?);
    }
    s += "まで";
  }
  Some(s)
}
/// letters that could also be a roman numeral
pub fn romanish(n: usize) -> bool {
  letters(n).chars().all(|c| "IVXLC".contains(c))
}
/// can the number be read back from its own symbol?
pub fn readable(st: usize, n: usize) -> bool {
  match st {
    4 | 5 => (1..=399).contains(&n),
    6 | 7 => !romanish(n),
    _ => true,
  }
}

fn check_item(c: &mut Ctx, n: &AN, p: ItemPattern, r: &mut R) {
  let Some(want) = item_ref(n, p) else { return };
  c.input = Some(format!("{n:?} {p:?}"));
  c.eval(hash_str(&want) ^ hash_str(&format!("{p:?}")), true);
  c.see("styles", &format!("{p:?}"));
  if let Some(got) = c.sut("item_text", || n.item_text(p)) {
    c.count("item numbers rendered", 1);
    c.check(got == want, &format!("item_text {p:?}"), || format!("{n:?}: {got:?}, expected {want:?}"));
  }
  let st = style(p);
  let all: Vec<usize> = std::iter::once(n.base_number).chain(n.eda_numbers.iter().copied()).chain(n.range_end_numbers.iter().copied()).collect();
  if !all.iter().all(|k| readable(st, *k)) {
    return;
  }
  let padded = if r.p(10) { format!("{}{want}{}", r.pick(&["", " ", "　"]), r.pick(&["", " ", "　", "\t"])) } else { want.clone() };
  if let Some(got) = c.sut("parse_item_number", || parse_item_number(&padded)) {
    c.count("item numbers read back", 1);
    match got {
      None => c.fail(&format!("item number {p:?} not read"), &padded),
      Some(i) => {
        let ok = i.pattern == p && i.base_number == n.base_number && i.eda_numbers == n.eda_numbers && i.range_end_numbers == n.range_end_numbers;
        c.check(ok, &format!("item number {p:?} read wrongly"), || format!("{padded:?} -> {i:?}, expected {n:?}"));
        c.check(i.str == padded || i.str == want, "the text of an item number is not kept", || format!("{padded:?} -> {:?}", i.str));
        if ok {
          if let Some(b) = c.sut("from_item_number", || AN::from_item_number(&i)) {
            c.check(&b == n, "from_item_number", || format!("{i:?} -> {b:?}"));
          }
        }
      }
    }
  }
}

fn is_kata(c: char) -> bool {
  ('ア'..='ン').contains(&c) || KATA.contains(c)
}
fn is_hira(c: char) -> bool {
  ('あ'..='ん').contains(&c)
}
fn inum(t: &[char], p: &Pos) -> Pos {
  let core = |p: &Pos| -> Pos {
    let mut o = run(t, p, &is_kanji_num);
    o.extend(run(t, p, &|c| ('０'..='９').contains(&c)));
    o.extend(run(t, p, &|c| ('Ａ'..='Ｚ').contains(&c)));
    o.extend(run(t, p, &|c| ('ａ'..='ｚ').contains(&c)));
    o.extend(p.iter().filter(|i| **i < t.len() && (is_kata(t[**i]) || is_hira(t[**i]))).map(|i| i + 1));
    o
  };
  let mut o = core(p);
  o.extend(lit(t, &core(&lit(t, p, "（")), "）"));
  o
}
/// could `s`, read generously, be an item number?
pub fn maybe_item_number(s: &str) -> bool {
  let t: Vec<char> = s.trim().chars().collect();
  let st = Pos::from([0]);
  let unit = |p: &Pos| branches(&t, &inum(&t, p), &inum, &["の", "ノ"]);
  let a = unit(&st);
  let b = unit(&any(&t, &a, &["から"]));
  let b = lit(&t, &b, "まで");
  a.contains(&t.len()) || b.contains(&t.len())
}

fn check_not_item(c: &mut Ctx, s: &str) {
  c.input = Some(s.to_string());
  let Some(g) = c.sut("parse_item_number", || parse_item_number(s)) else { return };
  if let Some(g) = &g {
    c.check(g.str.trim() == s.trim(), "the text of an item number is not kept", || format!("{s:?} -> {g:?}"));
  }
  if maybe_item_number(s) {
    c.eval(hash_str(s), false);
    return;
  }
  c.eval(hash_str(s), true);
  c.count("strings that are no item number", 1);
  c.check(g.is_none(), "a text that is no item number is taken for one", || format!("{s:?} -> {g:?}"));
}

pub fn p10(stage: &str, c: &mut Ctx, r: &mut R) {
  match stage {
    "small" => {
      let i = c.index as usize + 1;
      for p in PATTERNS {
        check_item(c, &an(i, &[], &[]), p, r);
        let top = match style(p) {
          1 | 2 => 47,
          4 | 5 => 399,
          _ => 60,
        };
        let b = (i - 1) % top + 1;
        let (e, g) = (r.rg(1, top), r.rg(1, top));
        check_item(c, &an(b, &[e], &[]), p, r);
        check_item(c, &an(b, &[], &[g]), p, r);
      }
    }
    "branches" => {
      // every base with every branch, for the styles with a finite alphabet
      let i = c.index as usize;
      let b = i % 47 + 1;
      for p in PATTERNS {
        let (e, e2, g, h) = (r.rg(1, 47), r.rg(1, 47), r.rg(1, 47), r.rg(1, 47));
        check_item(c, &an(b, &[(i / 47) % 47 + 1], &[]), p, r);
        check_item(c, &an(b, &[e, e2], &[]), p, r);
        check_item(c, &an(b, &[e], &[g]), p, r);
        check_item(c, &an(b, &[e, e2], &[g, h, e]), p, r);
        check_item(c, &an(b, &[], &[g, h]), p, r);
      }
    }
    "random" => {
      let p = *r.pick(&PATTERNS);
      let top = match style(p) {
        1 | 2 => 47,
        4 | 5 => *r.pick(&[12, 399, 3999]),
        _ => *r.pick(&[12, 120, 9999, 1 << 32, usize::MAX >> 1]),
      };
      let k = *r.pick(&[0, 0, 1, 2, 5]);
      let e: Vec<usize> = (0..k).map(|_| r.rg(1, top)).collect();
      let k = *r.pick(&[0, 0, 1, 2, 5]);
      let g: Vec<usize> = (0..k).map(|_| r.rg(1, top)).collect();
      let b = r.rg(1, top);
      check_item(c, &an(b, &e, &g), p, r);
    }
    // a letter that may be a roman numeral: one of the two readings, nothing else
    "ambiguous" => {
      for p in PATTERNS.iter().filter(|p| style(**p) >= 6) {
        let n = c.index as usize + 1;
        if !romanish(n) {
          continue;
        }
        let s = item_ref(&an(n, &[], &[]), *p).unwrap();
        c.input = Some(s.clone());
        c.eval(hash_str(&s), true);
        let Some(g) = c.sut("parse_item_number", || parse_item_number(&s)) else { continue };
        let l = letters(n);
        let as_roman = (1..=399).find(|k| roman(*k) == l);
        if let Some(g) = g {
          let letter = g.base_number == n && g.pattern == *p;
          let rp = PATTERNS[PATTERNS.iter().position(|q| q == p).unwrap() - 2];
          let rom = as_roman.is_none_or(|k| g.base_number == k) && g.pattern == rp;
          c.check(letter || rom, "ambiguous letter read as something else", || format!("{s:?} -> {g:?}"));
          c.check(g.eda_numbers.is_empty() && g.range_end_numbers.is_empty() && g.str == s, "ambiguous letter: invented parts", || format!("{s:?} -> {g:?}"));
        } else if as_roman.is_some() {
          c.fail("a letter item is refused", &s);
        }
      }
    }
    _ => {
      for _ in 0..12 {
        let s = item_string(r);
        check_not_item(c, &s);
      }
    }
  }
}

pub fn item_string(r: &mut R) -> String {
  let p = *r.pick(&PATTERNS);
  let n = an(r.rg(1, 40), &if r.p(40) { vec![r.rg(1, 9)] } else { vec![] }, &if r.p(30) { vec![r.rg(1, 9)] } else { vec![] });
  let mut v: Vec<char> = item_ref(&n, p).unwrap().chars().collect();
  for _ in 0..r.rg(1, 3) {
    let q = r.n(v.len() + 1);
    if let Some(s) = crate::dict::string(r) {
      v.splice(q..q, s.chars());
      continue;
    }
    match r.n(6) {
      0 if !v.is_empty() => {
        v.remove(q.min(v.len() - 1));
      }
      1 => v.insert(q, *r.pick(&['の', 'か', 'ら', 'ま', 'で', '（', '）', '(', ')', 'a', '1', '〇', '一', 'イ', 'い', 'ｉ', 'ａ', 'Ａ', '第', ' ', '　', '、', 'ー', 'ッ', 'ヶ', 'ガ', 'ゞ', 'ｱ', '①', 'Ⅰ', 'ⅰ', '\u{0}', '.'])),
      2 => v.extend(r.pick(&["の", "から", "まで", "及び", "、", ".", "号", "x", "）", "（", "の（", "から（一）", "\u{0}", "　本文"]).chars()),
      3 => {
        let pre: Vec<char> = r.pick(&["第", "（", "）", "x", "同", "、", "の", "から"]).chars().collect();
        v.splice(0..0, pre);
      }
      4 if v.len() > 1 => {
        let a = r.n(v.len());
        let b = r.n(v.len());
        v.swap(a, b);
      }
      _ => v.truncate(q),
    }
  }
  v.into_iter().collect()
}
