//! Seeded PRNG (splitmix64) and value generators shared by all workloads.

use crate::dict;

#[derive(Clone)]
pub struct R {
  s: u64,
  /// unique-marker counter
  pub ctr: u64,
  /// remaining node budget of the document being generated
  pub b: i64,
  pub depth: u32,
  pub max_depth: u32,
  /// allow nasty characters in text
  pub wild: bool,
  /// multiplier for the length of child lists
  pub wide: usize,
  /// tiny vocabulary: equal siblings, equal numbers, equal texts
  pub dup: bool,
  /// now and then a text of several thousand characters
  pub long: bool,
  /// inside a list whose length comes from the source
  pub sized: bool,
}

pub fn mix(mut z: u64) -> u64 {
  z = z.wrapping_add(0x9E3779B97F4A7C15);
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
  z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
  let mut h = 0xcbf29ce484222325u64;
  for b in s.bytes() {
    h ^= b as u64;
    h = h.wrapping_mul(0x100000001b3);
  }
  mix(h)
}

impl R {
  pub fn new(seed: u64) -> Self {
    R { s: mix(seed), ctr: 0, b: 60, depth: 0, max_depth: 14, wild: true, wide: 1, dup: false, long: false, sized: false }
  }
  /// shape of the document of one case
  pub fn profile(&mut self) {
    self.b = *self.pick(&[5, 12, 25, 40, 60, 60, 100, 150, 300]);
    if self.p(2) {
      self.b = 1500;
    }
    self.max_depth = *self.pick(&[5, 8, 14, 14, 20, 30]);
    if self.p(3) {
      self.max_depth = 70;
    }
    self.wide = *self.pick(&[1, 1, 1, 1, 1, 3]);
    if self.p(2) {
      self.wide = 20;
    }
    self.dup = self.p(15);
    self.long = self.p(4);
    self.wild = self.p(75);
  }
  pub fn next(&mut self) -> u64 {
    self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  /// uniform in 0..n
  pub fn n(&mut self, n: usize) -> usize {
    if n == 0 {
      return 0;
    }
    (self.next() % n as u64) as usize
  }
  /// uniform in lo..=hi
  pub fn rg(&mut self, lo: usize, hi: usize) -> usize {
    lo + self.n(hi - lo + 1)
  }
  pub fn p(&mut self, percent: usize) -> bool {
    self.n(100) < percent
  }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
    let i = self.n(v.len());
    &v[i]
  }
  pub fn shuffle<T>(&mut self, v: &mut [T]) {
    for i in (1..v.len()).rev() {
      let j = self.n(i + 1);
      v.swap(i, j);
    }
  }
  pub fn full(&self) -> bool {
    self.b <= 0 || self.depth >= self.max_depth
  }
  pub fn opt<T>(&mut self, percent: usize, f: impl FnOnce(&mut R) -> T) -> Option<T> {
    if self.p(percent) {
      Some(f(self))
    } else {
      None
    }
  }
  /// optional *structural* value: only while budget remains
  pub fn sopt<T>(&mut self, percent: usize, f: impl FnOnce(&mut R) -> T) -> Option<T> {
    if !self.full() && self.p(percent) {
      self.depth += 1;
      let v = f(self);
      self.depth -= 1;
      Some(v)
    } else {
      None
    }
  }
  /// vector of structural values
  /// at least one, as a rule
  pub fn v1<T>(&mut self, max: usize, f: impl FnMut(&mut R) -> T) -> Vec<T> {
    if !self.sized && self.p(3) {
      return vec![];
    }
    self.v(1, max, f)
  }
  pub fn v<T>(&mut self, min: usize, max: usize, mut f: impl FnMut(&mut R) -> T) -> Vec<T> {
    let mut want = if self.full() { min } else { self.rg(min, max * self.wide) };
    if max > 1 && !self.sized && !self.full() {
      if let Some(k) = dict::size(self, 1, 600) {
        // exactly so many, each as small as can be
        want = k;
        self.sized = true;
        let b = std::mem::replace(&mut self.b, 0);
        self.depth += 1;
        let out = (0..want).map(|_| f(self)).collect();
        self.depth -= 1;
        self.b = b.min(20);
        self.sized = false;
        return out;
      }
    }
    let mut out = vec![];
    self.depth += 1;
    for i in 0..want {
      if i >= min && self.full() {
        break;
      }
      self.b -= 1;
      out.push(f(self));
    }
    self.depth -= 1;
    out
  }
  /// small number, skewed, with large values now and then
  pub fn num(&mut self) -> usize {
    if self.dup {
      return self.rg(1, 2);
    }
    if let Some(n) = dict::int(self, usize::MAX) {
      return n;
    }
    match self.n(20) {
      0 => 0,
      1..=12 => self.rg(1, 12),
      13..=16 => self.rg(1, 120),
      17 => *self.pick(&[9, 10, 11, 19, 20, 21, 99, 100, 101, 110, 111, 999, 1000, 1001, 1010, 1100, 1111, 9999]),
      18 => self.rg(1, 9999),
      _ => {
        if self.p(30) {
          *self.pick(&[1usize << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 53, (1 << 53) + 1, usize::MAX - 1, usize::MAX, i64::MAX as usize, 65535, 65536, 255, 256])
        } else {
          self.rg(10_000, 4_000_000_000)
        }
      }
    }
  }
  pub fn unique(&mut self) -> String {
    self.ctr += 1;
    format!("〔{}〕", self.ctr)
  }
  /// non-blank text carrying a unique marker
  pub fn text(&mut self) -> String {
    if self.dup {
      return self.pick(&["同じ", "同じ文", "a"]).to_string();
    }
    if let Some(s) = dict::string(self) {
      return s.to_string();
    }
    let mut s = String::new();
    if let Some(k) = dict::size(self, 1, 3000) {
      s.push_str(&self.unique());
      let c = *self.pick(&["a", "あ"]);
      let have = if c == "a" { s.len() } else { s.chars().count() };
      s.push_str(&c.repeat(k.saturating_sub(have)));
      return s;
    }
    let k = if self.long && self.p(5) { self.rg(300, 4000) } else { self.n(4) };
    for _ in 0..k {
      s.push_str(&self.frag());
    }
    let u = self.unique();
    s.push_str(&u);
    let k = self.n(3);
    for _ in 0..k {
      s.push_str(&self.frag());
    }
    s
  }
  fn frag(&mut self) -> String {
    if let Some(s) = dict::string(self) {
      return s.to_string();
    }
    const PLAIN: &[&str] = &[
      "この法律は、", "第一条", "公布の日", "ｱｲｳ", "Ａ", "abc", "１２", "、", "。", "「", "」", "（昭和二十二年）", "　", "x", "の", "号",
    ];
    const WILD: &[&str] = &[
      "<", ">", "&", "\"", "'", "]]>", "<!--", "&amp;", " ", "  ", "\n", "\t", "𠮟", "😀", "é", "e\u{301}", "\u{00a0}", "\u{200b}", "&lt;", "<a>", "%", "\\", "\u{2028}", "゙",
    ];
    if self.wild && self.p(30) {
      self.pick(WILD).to_string()
    } else {
      self.pick(PLAIN).to_string()
    }
  }
  /// attribute value (no newline / tab: attribute-value normalisation is not under test)
  pub fn attr(&mut self) -> String {
    if self.p(4) {
      return String::new();
    }
    let mut s = self.text().replace(['\n', '\t'], " ");
    if self.p(5) {
      s.push('"');
    }
    s
  }
}
