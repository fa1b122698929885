//! Numbers and strings written in the source under test. The ones that are not in the tree these monitors were made
//! for (baseline_literals.txt) are used often by the generators: a special case in the code is met that way.

use crate::rng::R;
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
  pub new_ints: Vec<u64>,
  pub old_ints: Vec<u64>,
  pub new_strs: Vec<String>,
  pub old_strs: Vec<String>,
}

const BASELINE: &str = include_str!("../baseline_literals.txt");

/// integer and string literals of Rust source
fn scan(src: &str, ints: &mut BTreeSet<u64>, strs: &mut BTreeSet<String>) {
  let c: Vec<char> = src.chars().collect();
  let at = |i: usize| c.get(i).copied().unwrap_or('\0');
  let mut i = 0;
  while i < c.len() {
    let ch = c[i];
    if ch == '/' && at(i + 1) == '/' {
      while i < c.len() && c[i] != '\n' {
        i += 1;
      }
    } else if ch == '/' && at(i + 1) == '*' {
      i += 2;
      while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
        i += 1;
      }
      i += 2;
    } else if (ch == 'r' || (ch == 'b' && at(i + 1) == 'r')) && {
      let mut j = i + if ch == 'b' { 2 } else { 1 };
      while at(j) == '#' {
        j += 1;
      }
      at(j) == '"' && (i == 0 || !(at(i - 1).is_alphanumeric() || at(i - 1) == '_'))
    } {
      let mut j = i + if ch == 'b' { 2 } else { 1 };
      let mut hashes = 0;
      while at(j) == '#' {
        hashes += 1;
        j += 1;
      }
      j += 1;
      let mut s = String::new();
      while j < c.len() && !(c[j] == '"' && (1..=hashes).all(|k| at(j + k) == '#')) {
        s.push(c[j]);
        j += 1;
      }
      strs.insert(s);
      i = j + 1 + hashes;
    } else if ch == '"' || (ch == '\'' && (at(i + 1) == '\\' || at(i + 2) == '\'')) {
      let mut s = String::new();
      let mut j = i + 1;
      while j < c.len() && c[j] != ch {
        if c[j] == '\\' {
          j += 1;
          match at(j) {
            'n' => s.push('\n'),
            't' => s.push('\t'),
            'r' => s.push('\r'),
            '0' => s.push('\0'),
            'x' => {
              let h: String = c[j + 1..(j + 3).min(c.len())].iter().collect();
              s.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or(' '));
              j += 2;
            }
            'u' => {
              let h: String = c[j..].iter().skip(2).take_while(|c| **c != '}').collect();
              s.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or(' '));
              j += h.chars().count() + 2;
            }
            '\n' => {
              while at(j + 1).is_whitespace() {
                j += 1;
              }
            }
            x => s.push(x),
          }
        } else {
          s.push(c[j]);
        }
        j += 1;
      }
      strs.insert(s);
      i = j + 1;
    } else if ch.is_ascii_digit() {
      let mut j = i;
      while at(j).is_ascii_alphanumeric() || at(j) == '_' {
        j += 1;
      }
      let t: String = c[i..j].iter().filter(|c| **c != '_').collect();
      let t = ["usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"].iter().fold(t.as_str(), |t, s| t.strip_suffix(s).unwrap_or(t));
      let n = if let Some(h) = t.strip_prefix("0x") {
        u64::from_str_radix(h, 16)
      } else if let Some(h) = t.strip_prefix("0b") {
        u64::from_str_radix(h, 2)
      } else if let Some(h) = t.strip_prefix("0o") {
        u64::from_str_radix(h, 8)
      } else {
        t.parse()
      };
      ints.extend(n.ok());
      i = j;
    } else if ch.is_alphabetic() || ch == '_' {
      while at(i).is_alphanumeric() || at(i) == '_' {
        i += 1;
      }
    } else {
      i += 1;
    }
  }
}

fn files(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
  let Ok(d) = std::fs::read_dir(dir) else { return };
  for e in d.flatten() {
    let p = e.path();
    let name = e.file_name().to_string_lossy().into_owned();
    if p.is_dir() {
      if name != "tests" {
        files(&p, out);
      }
    } else if name.ends_with(".rs") && name != "tests.rs" {
      out.push(p);
    }
  }
}

fn literals() -> (BTreeSet<u64>, BTreeSet<String>) {
  let dir = std::env::var("LAWMON_SRC").unwrap_or("/repo/src".into());
  let mut v = vec![];
  files(Path::new(&dir), &mut v);
  v.sort();
  let (mut ints, mut strs) = (BTreeSet::new(), BTreeSet::new());
  for f in v {
    if let Ok(s) = std::fs::read_to_string(f) {
      scan(&s, &mut ints, &mut strs);
    }
  }
  (ints, strs)
}

/// `lawmon literals`: what baseline_literals.txt holds
pub fn print() {
  let (ints, strs) = literals();
  for i in ints {
    println!("{i}");
  }
  for s in strs {
    println!("{s:?}");
  }
}

/// whole words that can stand in a text of a law
fn plain(s: &str) -> bool {
  !s.trim().is_empty() && s.chars().count() <= 40 && !s.chars().any(|c| c.is_control() || c == '\u{feff}')
}

pub fn dict() -> &'static Dict {
  static D: OnceLock<Dict> = OnceLock::new();
  D.get_or_init(|| {
    // LAWMON_ALL_NEW: for trying out the monitors themselves
    let known: BTreeSet<&str> = BASELINE.lines().filter(|_| std::env::var("LAWMON_ALL_NEW").is_err()).collect();
    let (ints, strs) = literals();
    let mut d = Dict::default();
    for i in ints {
      if known.contains(i.to_string().as_str()) {
        d.old_ints.push(i);
      } else {
        d.new_ints.push(i);
      }
    }
    for s in strs {
      let is_known = known.contains(format!("{s:?}").as_str());
      if !plain(&s) {
        continue;
      }
      if !is_known {
        d.new_strs.push(s);
      } else if !s.is_ascii() {
        d.old_strs.push(s);
      }
    }
    d
  })
}

/// now and then a number of the source, or one next to it, not above `max`
pub fn int(r: &mut R, max: usize) -> Option<usize> {
  let d = dict();
  let k = if !d.new_ints.is_empty() && r.p(4) {
    *r.pick(&d.new_ints)
  } else if !d.old_ints.is_empty() && r.p(1) {
    *r.pick(&d.old_ints)
  } else {
    return None;
  };
  let n = match r.n(8) {
    0 | 1 => k.saturating_sub(1),
    2 => k.saturating_add(1),
    3 if k < 64 => 1u64 << k,
    4 if k < 64 => (1u64 << k) - 1,
    5 => k.saturating_mul(r.rg(2, 9) as u64),
    _ => k,
  } as usize;
  (n <= max).then_some(n)
}
/// a size of something repeated, between 2 and `max`, from the new numbers alone
pub fn size(r: &mut R, percent: usize, max: usize) -> Option<usize> {
  let d = dict();
  if d.new_ints.is_empty() || !r.p(percent) {
    return None;
  }
  let k = *r.pick(&d.new_ints);
  let n = if k < 64 && r.p(20) { 1u64 << k } else { k.saturating_add(r.n(3) as u64).saturating_sub(1) } as usize;
  (2..=max).contains(&n).then_some(n)
}
/// now and then a string of the source
pub fn string(r: &mut R) -> Option<&'static str> {
  let d = dict();
  if !d.new_strs.is_empty() && r.p(4) {
    Some(r.pick(&d.new_strs))
  } else if !d.old_strs.is_empty() && r.p(1) {
    Some(r.pick(&d.old_strs))
  } else {
    None
  }
}
