//! P15–P18: parsing plain law texts.

use super::nump::{kanji, maybe_article_number, maybe_item_number, paren, romanish, style, wide_digits, PATTERNS};
use super::*;
use crate::dict;
use crate::xml::{diff, norm, E, N};
use japanese_law_xml_schema::article::*;
use japanese_law_xml_schema::article_number::*;
use japanese_law_xml_schema::class::*;
use japanese_law_xml_schema::law::*;
use japanese_law_xml_schema::paragraph::*;
use japanese_law_xml_schema::parse_text;
use japanese_law_xml_schema::result::Error;
use japanese_law_xml_schema::sentence::*;
use japanese_law_xml_schema::suppl_provision::*;
use japanese_law_xml_schema::text::*;

type AN = ArticleNumber;

pub fn parse(t: &str) -> Result<Law, Error> {
  parse_text(t, 2000, Some(1), Some(2), LawType::Act, Lang::Ja, None, "平成十二年法律第一号".to_string(), "題名")
}

// ------------------------------------------------------------------ a law text made from a structure

/// what the text is made of, and the law it must become
pub struct Made {
  pub text: String,
  pub body: LawBody,
  pub lines: usize,
}

struct Wr {
  lines: Vec<String>,
}
impl Wr {
  fn put(&mut self, r: &mut R, s: &str) {
    if r.p(6) {
      self.lines.push(r.pick(&["", " ", "　", "\t"]).to_string());
    }
    let ind = if r.p(25) { *r.pick(&[" ", "　", "  ", "　　", "\t"]) } else { "" };
    let end = if r.p(5) { *r.pick(&[" ", "　"]) } else { "" };
    self.lines.push(format!("{ind}{s}{end}"));
  }
}

fn tt(s: &str) -> Text {
  if s.is_empty() {
    Text { contents: vec![] }
  } else {
    Text { contents: vec![TextElement::Text(s.to_string())] }
  }
}
fn num(r: &mut R) -> usize {
  if r.dup {
    return r.rg(1, 2);
  }
  if let Some(n) = dict::int(r, 1 << 50) {
    return n.max(1);
  }
  match r.n(12) {
    0 => r.rg(1, 4000),
    1 => *r.pick(&[10, 11, 20, 99, 100, 101, 110, 1000, 1001, 10000, 12345]),
    _ => r.rg(1, 30),
  }
}
fn small_list(r: &mut R, percent: usize, max: usize) -> Vec<usize> {
  if r.p(percent) {
    (0..r.rg(1, max)).map(|_| num(r)).collect()
  } else {
    vec![]
  }
}
fn hnum(r: &mut R) -> AN {
  let e = small_list(r, 15, 3);
  let g = small_list(r, 6, 2);
  AN { base_number: num(r), eda_numbers: e, range_end_numbers: g }
}
fn digits(r: &mut R, n: usize, kan: bool) -> String {
  match r.n(if kan { 6 } else { 2 }) {
    0 => n.to_string(),
    1 => wide_digits(n),
    _ => kanji(n),
  }
}
fn heading(r: &mut R, n: &AN, suf: &str) -> String {
  let mut s = format!("第{}{suf}", digits(r, n.base_number, true));
  for e in &n.eda_numbers {
    s += if r.p(80) { "の" } else { "ノ" };
    s += &digits(r, *e, true);
  }
  if let Some((h, t)) = n.range_end_numbers.split_first() {
    s += &format!("から第{}{suf}", digits(r, *h, true));
    for e in t {
      s += "の";
      s += &digits(r, *e, true);
    }
    s += "まで";
  }
  s
}
fn para_no(r: &mut R, n: &AN) -> String {
  let mut s = digits(r, n.base_number, false);
  for e in &n.eda_numbers {
    s += if r.p(80) { "の" } else { "ノ" };
    s += &digits(r, *e, false);
  }
  if let Some((h, t)) = n.range_end_numbers.split_first() {
    s += &format!("から{}", digits(r, *h, false));
    for e in t {
      s += "の";
      s += &digits(r, *e, false);
    }
    s += "まで";
  }
  s
}
fn gap(r: &mut R) -> &'static str {
  *r.pick(&["　", "　", "　", " ", "　　", "  ", " 　", "\t"])
}
const TEXTS: &[&str] = &["この法律は、", "第一条の規定により", "次の各号", "（略）", "一　", "附則", "abc", "１２", "。", "「", "」", "、", "　", " ", "号", "<b>", "&", "第二章", "削除", "イ", "（削除）", "ただし、", "𠮟", "\u{00a0}x"];
fn txt(r: &mut R) -> String {
  if r.dup {
    return r.pick(&["同じ", "同じ文", "x"]).to_string();
  }
  let mut s = r.unique();
  if let Some(k) = dict::size(r, 1, 3000) {
    let c = *r.pick(&["a", "あ"]);
    let have = 1 + if c == "a" { s.len() } else { s.chars().count() };
    s.push_str(&c.repeat(k.saturating_sub(have)));
  }
  let k = if r.long && r.p(10) { r.rg(100, 600) } else { r.n(5) };
  for _ in 0..k {
    match dict::string(r) {
      Some(t) => s.push_str(t),
      None => s.push_str(r.pick(TEXTS)),
    }
  }
  s.push('。');
  s
}
/// the text after a number, and whether it says "deleted"
fn payload(r: &mut R) -> (String, bool) {
  if let Some(t) = dict::string(r) {
    let t = t.trim();
    if !t.starts_with(['の', 'ノ', 'か', 'ま', '及']) {
      return (t.to_string(), t == "削除" || t == "（削除）");
    }
  }
  if r.p(6) {
    return (r.pick(&["削除", "（削除）"]).to_string(), true);
  }
  if r.p(4) {
    return (r.pick(&["削除する", "（削除)", "削　除", "「削除」", "第一条　削除", "附則", "（見出し）", "一　二", "第一章", "1"]).to_string(), false);
  }
  (txt(r), false)
}
fn sent(n: usize, s: &str) -> Sentence {
  Sentence { contents: vec![SentenceElement::String(s.to_string())], num: Some(n), function: None, indent: None, writing_mode: WritingMode::Vertical }
}
fn sents(v: &[String]) -> Vec<Sentence> {
  v.iter().enumerate().map(|(i, s)| sent(i + 1, s)).collect()
}
/// `n`, or in a wide text now and then many times that
fn many(r: &mut R, percent: usize, n: usize) -> usize {
  if let Some(k) = dict::size(r, 1, 200) {
    return k;
  }
  if r.wide > 1 && r.p(percent) {
    n * r.wide
  } else {
    n
  }
}
/// continuation lines after a numbered line
fn more(w: &mut Wr, r: &mut R, v: &mut Vec<String>) {
  let top = many(r, 10, 3);
  let k = if r.p(12) { r.rg(1, top) } else { 0 };
  for _ in 0..k {
    let s = cont(r);
    w.put(r, &s);
    v.push(s);
  }
}
/// a line that is neither a heading nor a caption nor numbered
fn cont(r: &mut R) -> String {
  if r.p(15) {
    // looks nearly like structure
    let s = r.pick(&["第一条の規定は、", "一の場合", "附則の規定", "（見出し", "見出し）", "（一）（二）、", "第一章", "1", "一", "（１）。", "イ", "第二条　", "附　則　抄本", "第　一条　x", "同条　文", "（a）b　c", "ｉｉｉ", "第一条　 ", "削除", "削除", "削除"]).trim().to_string();
    return s;
  }
  txt(r)
}
fn caption(w: &mut Wr, r: &mut R, percent: usize) -> Option<Caption> {
  if !r.p(percent) {
    return None;
  }
  let s = match r.n(8) {
    0 => "目的".to_string(),
    1 => r.pick(&["一", "第一条", "附則", " 空白 ", "削除", "イ", "（二重", "a　b", "１"]).to_string(),
    _ => txt(r),
  };
  let s = s.replace('）', "");
  w.put(r, &format!("（{s}）"));
  Some(Caption { text: tt(&s), common_caption: None })
}

// ---- items

struct Raw {
  num: AN,
  sentences: Vec<String>,
  delete: bool,
  kids: Vec<Raw>,
}

/// styles usable in a text (a bare full-width number begins a paragraph)
fn usable(p: &ItemPattern) -> bool {
  !(style(*p) == 3 && !paren(*p))
}
/// the letter and the roman style of one shape cannot be told apart next to each other
fn family(p: ItemPattern) -> usize {
  match style(p) {
    4 | 6 => 100 + paren(p) as usize,
    5 | 7 => 200 + paren(p) as usize,
    s => s * 2 + paren(p) as usize,
  }
}

fn items(w: &mut Wr, r: &mut R, stack: &mut Vec<ItemPattern>, deep: usize) -> Vec<Raw> {
  if stack.len() >= 11 {
    return vec![];
  }
  let free: Vec<ItemPattern> = PATTERNS.iter().copied().filter(|p| usable(p) && !stack.iter().any(|q| family(*q) == family(*p))).collect();
  if free.is_empty() {
    return vec![];
  }
  let p = *r.pick(&free);
  let st = style(p);
  let top = many(r, 30, 4);
  let k = if deep >= 95 { r.rg(1, 2) } else { r.rg(1, top) };
  let mut out = vec![];
  let mut next = 0usize;
  stack.push(p);
  for _ in 0..k {
    if r.full() {
      break;
    }
    r.b -= 1;
    let base = match st {
      // letters run on, so that the reader can know them for letters
      6 | 7 => {
        next += 1;
        if next > 26 {
          break;
        }
        next
      }
      1 | 2 => {
        if r.p(80) {
          next = next % 47 + 1;
          next
        } else {
          next = r.rg(1, 47);
          next
        }
      }
      4 | 5 => {
        next = if r.p(80) { next % 399 + 1 } else { r.rg(1, 399) };
        next
      }
      _ => {
        next = if r.p(80) { next + 1 } else { num(r) };
        next
      }
    };
    let top = match st {
      1 | 2 => 47,
      4 | 5 => 39,
      6 | 7 => 8,
      _ => 40,
    };
    let one = |r: &mut R| loop {
      let n = r.rg(1, top);
      if !(st >= 6 && romanish(n)) {
        return n;
      }
    };
    let mut n = AN { base_number: base, eda_numbers: vec![], range_end_numbers: vec![] };
    // a letter that might be roman keeps to its bare form
    if !(st >= 6 && romanish(base)) {
      if r.p(12) {
        n.eda_numbers = (0..r.rg(1, 2)).map(|_| one(r)).collect();
      }
      if r.p(5) {
        n.range_end_numbers = (0..r.rg(1, 2)).map(|_| one(r)).collect();
      }
    }
    let head = super::nump::item_ref(&n, p).unwrap();
    let (t, delete) = payload(r);
    let g = gap(r);
    w.put(r, &format!("{head}{g}{t}"));
    let mut ss = vec![t];
    more(w, r, &mut ss);
    let kids = if r.p(deep) && !r.full() { items(w, r, stack, deep) } else { vec![] };
    out.push(Raw { num: n, sentences: ss, delete, kids });
  }
  stack.pop();
  out
}

macro_rules! build_items {
  ($name:ident, $ty:ident, $next:ident) => {
    fn $name(v: Vec<Raw>) -> Vec<$ty> {
      v.into_iter()
        .map(|i| $ty { title: None, sentence: SentenceOrColumnOrTable::Sentence(sents(&i.sentences)), children: $next(i.kids), struct_list: vec![], num: Some(i.num), delete: i.delete, hide: false })
        .collect()
    }
  };
}
build_items!(b0, Item, b1);
build_items!(b1, Subitem1, b2);
build_items!(b2, Subitem2, b3);
build_items!(b3, Subitem3, b4);
build_items!(b4, Subitem4, b5);
build_items!(b5, Subitem5, b6);
build_items!(b6, Subitem6, b7);
build_items!(b7, Subitem7, b8);
build_items!(b8, Subitem8, b9);
build_items!(b9, Subitem9, b10);
fn b10(v: Vec<Raw>) -> Vec<Subitem10> {
  v.into_iter()
    .map(|i| Subitem10 { title: None, sentence: SentenceOrColumnOrTable::Sentence(sents(&i.sentences)), struct_list: vec![], num: Some(i.num), delete: i.delete, hide: false })
    .collect()
}

/// the rest of a paragraph whose first line has been written
fn para_rest(w: &mut Wr, r: &mut R, n: AN, first: String, cap: Option<Caption>) -> Paragraph {
  let mut ss = vec![first];
  more(w, r, &mut ss);
  let deep = *r.pick(&[20, 50, 50, 80, 97]);
  let it = if r.p(45) && !r.full() { items(w, r, &mut vec![], deep) } else { vec![] };
  Paragraph {
    caption: cap, paragraph_num: Text { contents: vec![] }, amend_provision: vec![], class: vec![],
    sentence: sents(&ss), struct_list: vec![], children: b0(it), num: n, old_style: false, old_num: false, hide: false,
  }
}
fn numbered_para(w: &mut Wr, r: &mut R, cap: usize, n: AN) -> Paragraph {
  r.b -= 1;
  let c = caption(w, r, cap);
  let (t, _) = payload(r);
  let h = para_no(r, &n);
  let g = gap(r);
  w.put(r, &format!("{h}{g}{t}"));
  para_rest(w, r, n, t, c)
}
fn article(w: &mut Wr, r: &mut R) -> Article {
  r.b -= 1;
  let c = caption(w, r, 50);
  let n = hnum(r);
  let h = heading(r, &n, "条");
  let g = gap(r);
  let (t, delete) = payload(r);
  w.put(r, &format!("{h}{g}{t}"));
  let mut paragraph = vec![para_rest(w, r, one(), t, None)];
  let top = many(r, 20, 4);
  let k = *r.pick(&[0, 0, 1, 2, top]);
  for i in 0..k {
    if r.full() {
      break;
    }
    let n = if r.p(85) { AN { base_number: i + 2, ..one() } } else { hnum(r) };
    paragraph.push(numbered_para(w, r, 8, n));
  }
  Article { caption: c, title: Text { contents: vec![] }, paragraph, suppl_note: None, num: n, delete, hide: false }
}
fn one() -> AN {
  AN { base_number: 1, eda_numbers: vec![], range_end_numbers: vec![] }
}
fn head_line(w: &mut Wr, r: &mut R, suf: &str) -> (AN, Text, bool) {
  r.b -= 1;
  let n = hnum(r);
  let h = heading(r, &n, suf);
  let g = gap(r);
  let (t, d) = payload(r);
  w.put(r, &format!("{h}{g}{t}"));
  (n, tt(&t), d)
}
fn count(r: &mut R, max: usize) -> usize {
  if r.full() {
    0
  } else {
    r.rg(0, max * r.wide)
  }
}
fn division(w: &mut Wr, r: &mut R) -> Division {
  let (num, division_title, delete) = head_line(w, r, "目");
  Division { children: (0..count(r, 3)).map(|_| article(w, r)).collect(), division_title, num, delete, hide: false }
}
/// articles first, then lower headings: an article after a lower heading would belong to it
fn subsection(w: &mut Wr, r: &mut R) -> Subsection {
  let (num, subsection_title, delete) = head_line(w, r, "款");
  let mut children: Vec<SubsectionContents> = (0..count(r, 2)).map(|_| SubsectionContents::Article(article(w, r))).collect();
  children.extend((0..count(r, 2)).map(|_| SubsectionContents::Division(division(w, r))));
  Subsection { children, subsection_title, num, delete, hide: false }
}
fn section(w: &mut Wr, r: &mut R) -> Section {
  let (num, section_title, delete) = head_line(w, r, "節");
  let mut children: Vec<SectionContents> = (0..count(r, 2)).map(|_| SectionContents::Article(article(w, r))).collect();
  // a division after a subsection belongs to the subsection
  if r.p(40) {
    children.extend((0..count(r, 2)).map(|_| SectionContents::Division(division(w, r))));
  }
  children.extend((0..count(r, 2)).map(|_| SectionContents::Subsection(subsection(w, r))));
  Section { children, section_title, num, delete, hide: false }
}
fn chapter(w: &mut Wr, r: &mut R) -> Chapter {
  let (num, chapter_title, delete) = head_line(w, r, "章");
  let mut children: Vec<ChapterContents> = (0..count(r, 2)).map(|_| ChapterContents::Article(article(w, r))).collect();
  children.extend((0..count(r, 3)).map(|_| ChapterContents::Section(section(w, r))));
  Chapter { children, chapter_title, num, delete, hide: false }
}
fn part(w: &mut Wr, r: &mut R) -> Part {
  let (num, part_title, delete) = head_line(w, r, "編");
  let mut children: Vec<PartContents> = (0..count(r, 2)).map(|_| PartContents::Article(article(w, r))).collect();
  children.extend((0..count(r, 3)).map(|_| PartContents::Chapter(chapter(w, r))));
  Part { children, part_title, num, delete, hide: false }
}

pub fn make(r: &mut R) -> Made {
  r.b = *r.pick(&[3, 8, 15, 30, 30, 60, 120]);
  r.depth = 0;
  r.max_depth = 100;
  r.dup = r.p(12);
  r.long = r.p(4);
  // now and then many children of one unit
  r.wide = if r.p(1) { 40 } else { 1 };
  if r.wide > 1 {
    r.b = *r.pick(&[300, 700, 1200]);
  }
  let mut w = Wr { lines: vec![] };
  // preamble
  let mut pre = vec![];
  if r.p(35) {
    let top = many(r, 30, 4);
    for _ in 0..r.rg(1, top) {
      let s = if r.p(10) { format!("（{}）", txt(r).replace('）', "")) } else { cont(r) };
      w.put(r, &s);
      pre.push(s);
    }
    // a caption-like last line would become the caption of what follows
    if pre.last().unwrap().starts_with('（') {
      let s = txt(r);
      w.put(r, &s);
      pre.push(s);
    }
  }
  let preamble = if pre.is_empty() {
    None
  } else {
    Some(Preamble {
      children: pre
        .iter()
        .enumerate()
        .map(|(i, s)| Paragraph {
          caption: None, paragraph_num: Text { contents: vec![] }, amend_provision: vec![], class: vec![], sentence: vec![sent(1, s)], struct_list: vec![], children: vec![],
          num: AN { base_number: i + 1, eda_numbers: vec![], range_end_numbers: vec![] }, old_style: false, old_num: false, hide: false,
        })
        .collect(),
    })
  };
  // main provision: what stands after a heading belongs to it, so looser things come first
  let mut main = vec![];
  let mode = r.n(6);
  if mode <= 1 {
    for i in 0..r.rg(0, 3 * r.wide) {
      let n = if r.p(80) { AN { base_number: i + 1, ..one() } } else { hnum(r) };
      main.push(MainProvisionContents::Paragraph(numbered_para(&mut w, r, 20, n)));
    }
  }
  if mode >= 1 && mode <= 4 {
    for _ in 0..count(r, 3) {
      main.push(MainProvisionContents::Article(article(&mut w, r)));
    }
  }
  if mode >= 3 {
    match r.n(4) {
      0 => main.extend((0..count(r, 3)).map(|_| MainProvisionContents::Section(section(&mut w, r)))),
      1 | 2 => main.extend((0..count(r, 4)).map(|_| MainProvisionContents::Chapter(chapter(&mut w, r)))),
      _ => main.extend((0..count(r, 4)).map(|_| MainProvisionContents::Part(part(&mut w, r)))),
    }
  }
  // supplementary provisions
  let mut suppl = vec![];
  r.b += 12;
  let k = *r.pick(&[0, 1, 1, 2, 4]);
  for _ in 0..k {
    let law_num = if r.p(55) { Some(format!("昭和{}年法律第{}号{}", kanji(num(r)), kanji(num(r)), r.pick(&["", "", "（抄）", "　x", "）", "附則"]))) } else { None };
    let extract = r.p(30);
    let mut s = r.pick(&["附則", "附則", "附　則", "附 則", "附　　則"]).to_string();
    if let Some(l) = &law_num {
      s += r.pick(&["", "　", " "]);
      s += &format!("（{l}）");
    }
    if extract {
      s += r.pick(&["", "　", " "]);
      s += "抄";
    }
    w.put(r, &s);
    let mut ch = vec![];
    match r.n(5) {
      0 => {
        // one paragraph without a number
        r.b -= 1;
        let t = cont(r);
        w.put(r, &t);
        ch.push(SupplProvisionChildrenElement::Paragraph(para_rest(&mut w, r, one(), t, None)));
        if r.p(20) {
          let n = AN { base_number: 2, ..one() };
          ch.push(SupplProvisionChildrenElement::Paragraph(numbered_para(&mut w, r, 10, n)));
        }
      }
      1 => {
        for i in 0..r.rg(1, 3 * r.wide) {
          let n = if r.p(80) { AN { base_number: i + 1, ..one() } } else { hnum(r) };
          ch.push(SupplProvisionChildrenElement::Paragraph(numbered_para(&mut w, r, 30, n)));
        }
      }
      2 => {
        for _ in 0..r.rg(1, 2) {
          ch.push(SupplProvisionChildrenElement::Chapter(chapter(&mut w, r)));
        }
      }
      3 => {
        for _ in 0..r.rg(1, 3) {
          ch.push(SupplProvisionChildrenElement::Article(article(&mut w, r)));
        }
        if r.p(20) {
          ch.push(SupplProvisionChildrenElement::Chapter(chapter(&mut w, r)));
        }
      }
      _ => {
        if r.p(60) {
          let n = one();
          ch.push(SupplProvisionChildrenElement::Paragraph(numbered_para(&mut w, r, 30, n)));
          ch.push(SupplProvisionChildrenElement::Article(article(&mut w, r)));
        }
      }
    }
    if !ch.is_empty() {
      suppl.push(SupplProvision { label: tt("附則"), children: ch, suppl_provision_type: None, amend_law_num: law_num, extract: if extract { Some(true) } else { None } });
    }
  }
  let body = LawBody {
    law_title: Some(LawTitle { kana: None, abbrev: None, abbrev_kana: None, text: tt("題名") }),
    enact_statement: vec![], subject: None, toc: None, preamble,
    main_provision: MainProvision { children: main, extract: None },
    suppl_provision: suppl,
    appdx_table: vec![], appdx_note: vec![], appdx_style: vec![], appdx: vec![], appdx_fig: vec![], appdx_format: vec![],
  };
  let nl = *r.pick(&["\n", "\n", "\n", "\r\n"]);
  let n = w.lines.len();
  let mut text = w.lines.join(nl);
  if r.p(70) {
    text.push_str(nl);
  }
  Made { text, body, lines: n }
}

/// some law text the library is likely to accept
pub fn any_text(r: &mut R) -> String {
  make(r).text
}

fn body_tree(b: &LawBody) -> E {
  use crate::model::M;
  norm(&b.x())
}

// ------------------------------------------------------------------ P16

fn see_structure(c: &mut Ctx, e: &E, path: &str) {
  let p = format!("{path}/{}", e.name);
  c.see("element paths", &p);
  for k in e.elems() {
    see_structure(c, k, &p);
  }
}

/// ordered triples of item styles that can be told apart
fn triples() -> Vec<[ItemPattern; 3]> {
  let u: Vec<ItemPattern> = PATTERNS.iter().copied().filter(usable).collect();
  let mut out = vec![];
  for a in &u {
    for b in &u {
      for c in &u {
        if family(*a) != family(*b) && family(*a) != family(*c) && family(*b) != family(*c) {
          out.push([*a, *b, *c]);
        }
      }
    }
  }
  out
}

/// a sequence of items of three styles: a style in use goes back to its level, another one opens a level
fn make_styles(index: usize, r: &mut R) -> Made {
  let ts = triples();
  let t = ts[index % ts.len()];
  let mut w = Wr { lines: vec![] };
  fn run(w: &mut Wr, r: &mut R, t: &[ItemPattern; 3], seq: &[usize], at: &mut usize, open: &mut Vec<usize>) -> Vec<Raw> {
    let s = seq[*at];
    open.push(s);
    let mut out: Vec<Raw> = vec![];
    while *at < seq.len() {
      let s2 = seq[*at];
      if s2 == s {
        let n = AN { base_number: out.len() + 1, eda_numbers: vec![], range_end_numbers: vec![] };
        let head = super::nump::item_ref(&n, t[s]).unwrap();
        let (txt, delete) = payload(r);
        let g = gap(r);
        w.put(r, &format!("{head}{g}{txt}"));
        let mut ss = vec![txt];
        more(w, r, &mut ss);
        *at += 1;
        out.push(Raw { num: n, sentences: ss, delete, kids: vec![] });
      } else if open.contains(&s2) {
        break;
      } else {
        let kids = run(w, r, t, seq, at, open);
        out.last_mut().unwrap().kids.extend(kids);
      }
    }
    open.pop();
    out
  }
  let mut main = vec![];
  for _ in 0..r.rg(1, 2) {
    let n = hnum(r);
    let (tx, delete) = payload(r);
    let h = heading(r, &n, "条");
    w.put(r, &format!("{h}　{tx}"));
    let mut ss = vec![tx];
    more(&mut w, r, &mut ss);
    let mut seq = vec![0];
    for _ in 0..r.rg(4, 12) {
      let s = r.n(3);
      seq.push(s);
    }
    let mut at = 0;
    let mut open = vec![];
    let it = run(&mut w, r, &t, &seq, &mut at, &mut open);
    debug_assert!(at == seq.len());
    let p = Paragraph {
      caption: None, paragraph_num: Text { contents: vec![] }, amend_provision: vec![], class: vec![],
      sentence: sents(&ss), struct_list: vec![], children: b0(it), num: one(), old_style: false, old_num: false, hide: false,
    };
    main.push(MainProvisionContents::Article(Article { caption: None, title: Text { contents: vec![] }, paragraph: vec![p], suppl_note: None, num: n, delete, hide: false }));
  }
  let body = LawBody {
    law_title: Some(LawTitle { kana: None, abbrev: None, abbrev_kana: None, text: tt("題名") }),
    enact_statement: vec![], subject: None, toc: None, preamble: None,
    main_provision: MainProvision { children: main, extract: None },
    suppl_provision: vec![],
    appdx_table: vec![], appdx_note: vec![], appdx_style: vec![], appdx: vec![], appdx_fig: vec![], appdx_format: vec![],
  };
  let n = w.lines.len();
  Made { text: w.lines.join("\n"), body, lines: n }
}

pub fn p16(stage: &str, c: &mut Ctx, r: &mut R) {
  crate::model::reset();
  let m = if stage == "styles" { make_styles(c.index as usize, r) } else { make(r) };
  c.input = Some(m.text.clone());
  c.eval(hash_str(&m.text), m.lines >= 4);
  c.sample(1, || json!(m.text.chars().take(1200).collect::<String>()));
  c.count("lines", m.lines as u64);
  let want = body_tree(&m.body);
  see_structure(c, &want, "");
  let Some(res) = c.sut("parse_text", || parse(&m.text)) else { return };
  match res {
    Err(e) => c.fail(&format!("well-structured text refused: {}", err_kind(&e)), &format!("{e:?}")),
    Ok(l) => {
      c.count("laws compared", 1);
      if l.law_body != m.body {
        let d = diff(&want, &body_tree(&l.law_body), "").unwrap_or_else(|| super::xmlp::first_debug_diff(&m.body, &l.law_body));
        c.fail(&format!("structure differs at {}", super::xmlp::diff_sig(&d)), &d);
      }
    }
  }
}

fn err_kind(e: &Error) -> String {
  let s = format!("{e:?}");
  // ParsingError("law text", "Article(...)"): keep the kind of the line
  s.chars().take_while(|c| *c != '{').take(60).filter(|c| c.is_ascii()).collect()
}

// ------------------------------------------------------------------ P15

/// the texts a law consists of, in document order
fn texts(e: &E, out: &mut Vec<String>) {
  if e.name == "LawTitle" {
    return;
  }
  if e.name == "SupplProvision" {
    let label = e.elems().find(|k| k.name == "SupplProvisionLabel").map(flat).unwrap_or_default();
    let a = e.attrs.get("AmendLawNum").map(|s| format!("（{s}）")).unwrap_or_default();
    let x = if e.attrs.get("Extract").map(|s| s.as_str()) == Some("true") { "抄" } else { "" };
    out.push(format!("\u{1}{label}{a}{x}"));
    for k in e.elems().filter(|k| k.name != "SupplProvisionLabel") {
      texts(k, out);
    }
    return;
  }
  let t = flat(e);
  if !t.is_empty() {
    out.push(t);
  }
  for k in e.elems() {
    texts(k, out);
  }
}
fn flat(e: &E) -> String {
  e.kids.iter().filter_map(|k| if let N::T(s) = k { Some(s.as_str()) } else { None }).collect()
}

/// is the line a 附則 heading, and if so in normal form
fn suppl_line(l: &str) -> Option<String> {
  let ws = |c: char| c.is_whitespace();
  let t = l.strip_prefix('附')?.trim_start_matches(ws);
  let t = t.strip_prefix('則')?.trim_start_matches(ws);
  let (t, x) = match t.strip_suffix('抄') {
    Some(t) => (t.trim_end_matches(ws), "抄"),
    None => (t, ""),
  };
  if t.is_empty() {
    return Some(format!("\u{1}附則{x}"));
  }
  let inner = t.strip_prefix('（')?.strip_suffix('）')?;
  if inner.is_empty() {
    return None;
  }
  Some(format!("\u{1}附則（{inner}）{x}"))
}

/// what a line may be kept as: itself, or what follows its number, or without its parentheses
fn kept_as(l: &str) -> Vec<String> {
  let mut v = vec![l.to_string()];
  if let Some(p) = l.find(char::is_whitespace) {
    let (head, rest) = l.split_at(p);
    if maybe_article_number(head) || maybe_item_number(head) {
      v.push(rest.trim_start().to_string());
    }
  }
  if let Some(i) = l.strip_prefix('（').and_then(|t| t.strip_suffix('）')) {
    if !i.is_empty() {
      v.push(i.to_string());
    }
  }
  v
}

pub fn p15(stage: &str, c: &mut Ctx, r: &mut R) {
  crate::model::reset();
  let text = match stage {
    "structured" => make(r).text,
    "shuffled" => {
      let m = make(r);
      let mut v: Vec<String> = m.text.lines().map(|s| s.to_string()).collect();
      for _ in 0..*r.pick(&[1, 1, 2, 3, 6]) {
        mutate_lines(&mut v, r);
      }
      v.join("\n")
    }
    _ => {
      let n = *r.pick(&[2, 4, 8, 16, 30]);
      let mut v = vec![];
      for _ in 0..r.rg(1, n) {
        let s = chaos_line(r);
        v.push(s);
      }
      v.join("\n")
    }
  };
  c.input = Some(text.clone());
  let lines: Vec<&str> = text.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
  c.eval(hash_str(&text), lines.len() >= 3);
  c.sample(1, || json!(text.chars().take(800).collect::<String>()));
  let Some(res) = c.sut("parse_text", || parse(&text)) else { return };
  let l = match res {
    Err(_) => {
      c.count("texts refused with an error", 1);
      return;
    }
    Ok(l) => l,
  };
  c.count("texts accepted", 1);
  c.count("lines accounted for", lines.len() as u64);
  let mut got = vec![];
  texts(&body_tree(&l.law_body), &mut got);
  // a 附則 heading with nothing under it is left out
  let mut want: Vec<&str> = vec![];
  for (i, l) in lines.iter().enumerate() {
    if suppl_line(l).is_some() && lines.get(i + 1).is_none_or(|n| suppl_line(n).is_some()) {
      continue;
    }
    want.push(l);
  }
  for (i, w) in want.iter().enumerate() {
    let Some(g) = got.get(i) else {
      return c.fail("lines at the end are missing", &format!("line {w:?} and {} more", want.len() - i - 1));
    };
    let ok = match suppl_line(w) {
      Some(s) => *g == s || *g == **w,
      None => kept_as(w).iter().any(|k| k == g),
    };
    if !ok {
      let kind = if want[i + 1..].iter().any(|x| kept_as(x).contains(g)) {
        "a line is missing or out of order"
      } else if i > 0 && kept_as(want[i - 1]).contains(g) {
        "a line is repeated"
      } else if w.contains(g.as_str()) {
        "a line is shortened"
      } else {
        "a line is changed or out of order"
      };
      return c.fail(kind, &format!("line {i}: {w:?}, found {g:?}\ngot {:?}", &got[i.saturating_sub(2)..(i + 3).min(got.len())]));
    }
  }
  if got.len() > want.len() {
    c.fail("the law has more texts than the text has lines", &format!("{:?}", &got[want.len()..]));
  }
}

pub fn chaos_line(r: &mut R) -> String {
  let n = hnum(r);
  let t = txt(r);
  let g = gap(r);
  let ind = if r.p(20) { *r.pick(&[" ", "　", "\t"]) } else { "" };
  let s = match r.n(16) {
    0 => format!("{}{g}{t}", heading(r, &n, "編")),
    1 => format!("{}{g}{t}", heading(r, &n, "章")),
    2 => format!("{}{g}{t}", heading(r, &n, "節")),
    3 => format!("{}{g}{t}", heading(r, &n, *r.clone().pick(&["款", "目"]))),
    4..=6 => format!("{}{g}{t}", heading(r, &n, "条")),
    7 | 8 => format!("{}{g}{t}", para_no(r, &n)),
    9..=11 => {
      let p = *r.pick(&PATTERNS);
      let n = AN { base_number: r.rg(1, 39), eda_numbers: if r.p(15) { vec![r.rg(1, 9)] } else { vec![] }, range_end_numbers: vec![] };
      format!("{}{g}{t}", super::nump::item_ref(&n, p).unwrap())
    }
    12 => format!("（{}）", t.replace('）', "")),
    13 => t,
    14 => r.pick(&["附則", "附　則", "附則（平成元年法律第一号）", "附則　抄", "附則（x）　抄", "附則　x", "（附則）", "附則）"]).to_string(),
    _ => {
      // headings without a text, odd numbers, odd brackets
      let t2 = txt(r);
      let opts = [
        "第一条".to_string(), "一".to_string(), "1".to_string(), format!("第一項{g}{t2}"), format!("第二号{g}{t2}"), format!("第一条から第三条まで{g}{t2}"),
        format!("第一条及び第二条{g}{t2}"), format!("（{t2}"), format!("{t2}）"), format!("（{t2}）（{t2}）"), "（）".to_string(), format!("零{g}{t2}"),
        format!("第零条{g}{t2}"), format!("第〇条{g}{t2}"), format!("第一章第一節{g}{t2}"), format!("十十{g}{t2}"), format!("ＡＢＣ{g}{t2}"), format!("（ｍ）{g}{t2}"),
        format!("99999999999999999999{g}{t2}"), format!("第99999999999999999999条{g}{t2}"), format!("第一編から第二章まで{g}{t2}"), format!("0{g}{t2}"), format!("（一）の（二）{g}{t2}"),
        format!("\u{feff}第一条{g}{t2}"), format!("別表{g}{t2}"), "目次".to_string(), format!("第一章{g}{t2}（第一条―第三条）"), "削除".to_string(), "（削除）".to_string(), format!("第三条{g}削除"),
        format!("第三条{g}（{}）", t2.replace('）', "")), format!("二{g}（{}）", t2.replace('）', "")), format!("{t2}\u{b}{t2}"), format!("{t2}\u{2028}{t2}"), format!("{t2}\r"), format!("{t2}\u{85}{t2}"),
      ];
      r.pick(&opts).clone()
    }
  };
  format!("{ind}{s}")
}

pub fn mutate_lines(v: &mut Vec<String>, r: &mut R) {
  if v.is_empty() {
    v.push(chaos_line(r));
    return;
  }
  let i = r.n(v.len());
  match r.n(7) {
    0 => {
      v.remove(i);
    }
    1 => {
      let j = r.n(v.len());
      v.swap(i, j);
    }
    2 => {
      let s = v[i].clone();
      let j = r.n(v.len() + 1);
      v.insert(j, s);
    }
    3 => {
      let s = v.remove(i);
      let j = r.n(v.len() + 1);
      v.insert(j, s);
    }
    4 | 5 => {
      let s = chaos_line(r);
      v.insert(i, s);
    }
    _ => {
      // loses its number, or gets another
      let s = v[i].trim().to_string();
      if let Some((_, t)) = s.split_once(char::is_whitespace) {
        v[i] = t.trim().to_string();
      } else {
        v[i] = format!("二　{s}");
      }
    }
  }
}

// ------------------------------------------------------------------ P17

pub(crate) fn hostile_line(r: &mut R) -> String {
  if let Some(s) = dict::string(r) {
    return r.pick(&[format!("{s}　x"), s.to_string(), format!("第一条　{s}"), format!("x{s}x")]).clone();
  }
  let big = *r.pick(&[1, 2, 5, 30, 300, 2000]);
  match r.n(14) {
    0 => format!("第{}条　x", "一".repeat(big)),
    1 => format!("第{}条　x", "9".repeat(big)),
    2 => format!("{}　x", "０".repeat(big)),
    3 => format!("第一条{}　x", "の一".repeat(big)),
    4 => format!("{}　x", "の".repeat(big)),
    5 => format!("（{}）　x", "ｉ".repeat(big)),
    6 => format!("{}　x", "Ａ".repeat(big)),
    7 => format!("{}　x", r.pick(&["千", "万", "億", "京", "兆", "百", "十", "九千九百九十九京", "一京", "億京"]).repeat(big)),
    8 => format!("（{}）", "（".repeat(big)),
    9 => format!("附{}則{}（{}）抄", "　".repeat(big), " ".repeat(big), "）".repeat(big)),
    10 => {
      let mut s = String::new();
      for _ in 0..r.rg(1, 40) {
        s.push(char::from_u32(r.next() as u32 % 0x11_0000).unwrap_or('\u{fffd}'));
      }
      s
    }
    11 => {
      const A: &[&str] = &["第", "一", "十", "条", "編", "章", "項", "の", "ノ", "から", "まで", "及び", "（", "）", "　", " ", "1", "１", "イ", "い", "ｉ", "ａ", "Ａ", "附", "則", "抄", "\t", "千", "万", "京", "削除", "\u{0}", "\r", "\u{2028}", "x"];
      let mut s = String::new();
      for _ in 0..r.rg(1, 14) {
        s.push_str(r.pick(A));
      }
      s
    }
    12 => format!("{}からｉまで　x", "い".repeat(big.min(40))),
    _ => chaos_line(r),
  }
}

fn judge17(c: &mut Ctx, text: &str, r: &mut R) {
  c.input = Some(text.to_string());
  c.eval(hash_str(text), text.len() > 10);
  let y = *r.pick(&[0, 1, 1867, 1868, 1900, 2000, 2019, 9999, 10000, 1 << 31, 1 << 32, usize::MAX]);
  let m = *r.pick(&[None, Some(0), Some(1), Some(2), Some(12), Some(13), Some(usize::MAX)]);
  let d = *r.pick(&[None, Some(0), Some(1), Some(29), Some(31), Some(32), Some(1 << 32)]);
  let (y, m, d) = if r.p(70) { (2000, None, None) } else { (y, m, d) };
  let lt = crate::model::g_law_type_name(r);
  let lang = crate::model::g_lang_name(r);
  let title = if r.p(20) { hostile_line(r) } else { "題名".into() };
  let law_num = if r.p(20) { hostile_line(r) } else { "x".into() };
  let Some(res) = c.sut("parse_text", || parse_text(text, y, m, d, lt, lang, None, law_num, &title)) else { return };
  match res {
    Ok(l) => {
      c.count("laws", 1);
      // what came out can be used
      if r.p(20) {
        c.sut("using the law", || super::xmlp::exercise(&l));
      }
    }
    Err(e) => {
      c.count("errors", 1);
      c.see("error kinds", format!("{e:?}").split(['(', ' ', '{']).next().unwrap_or(""));
    }
  }
}

pub fn p17(stage: &str, c: &mut Ctx, r: &mut R) {
  crate::model::reset();
  match stage {
    "text" => {
      let n = *r.pick(&[1, 2, 6, 20]);
      let nl = *r.pick(&["\n", "\n", "\r\n", "\r", "\n\n"]);
      let t = if r.p(15) {
        // a real text with damaged characters
        let mut v: Vec<char> = make(r).text.chars().collect();
        for _ in 0..r.rg(1, 6) {
          if v.is_empty() {
            break;
          }
          let i = r.n(v.len());
          match r.n(3) {
            0 => {
              v.remove(i);
            }
            1 => v.insert(i, *r.pick(&['第', '条', '一', '（', '）', '　', '\n', 'の', '附', 'ｉ', '1', '京'])),
            _ => v.truncate(i),
          }
        }
        v.into_iter().collect()
      } else {
        (0..r.rg(0, n)).map(|_| hostile_line(r)).collect::<Vec<_>>().join(nl)
      };
      judge17(c, &t, r);
    }
    "numbers" => {
      for _ in 0..6 {
        let mut s = hostile_line(r);
        if r.p(60) {
          s = s.split_whitespace().next().unwrap_or("").to_string();
        }
        c.input = Some(s.clone());
        c.eval(hash_str(&s) ^ 77, true);
        if let Some(Some(n)) = c.sut("parse_article_number", || parse_article_number(&s)) {
          c.count("article numbers", 1);
          c.sut("texts of a number", || (n.num_str(), n.article_text(), n.paragraph_text()));
        }
        if let Some(Some(_)) = c.sut("parse_item_number", || parse_item_number(&s)) {
          c.count("item numbers", 1);
        }
        c.sut("split_number", || split_number(&s));
        c.sut("from_num_str", || AN::from_num_str(&s));
      }
    }
    "large" => {
      let n = *r.pick(&[300, 600]);
      let f = r.n(FAMILIES);
      let t = family_text(f, n, r);
      c.see("shapes of large texts", &f.to_string());
      judge17(c, &t, r);
    }
    _ => scaling(c, r),
  }
}

const FAMILIES: usize = 16;
/// texts of `n` units of one kind
fn family_text(f: usize, n: usize, r: &mut R) -> String {
  let rep = |s: &str| s.repeat(n);
  match f {
    0 => (1..=n).map(|i| format!("第{}条　x", kanji(i))).collect::<Vec<_>>().join("\n"),
    1 => format!("第一条　x\n{}", (1..=n).map(|i| format!("{}　y", kanji(i))).collect::<Vec<_>>().join("\n")),
    2 => {
      // nested as deep as the styles go, again and again
      let mut s = "第一条　x".to_string();
      for i in 0..n {
        let p = PATTERNS[[0, 1, 8, 11, 9, 5, 2, 10, 12, 13, 14, 7][i % 12]];
        s += &format!("\n{}　z", super::nump::item_ref(&AN { base_number: 1, eda_numbers: vec![], range_end_numbers: vec![] }, p).unwrap());
      }
      s
    }
    3 => (0..n).map(|_| "（見出し）\n第一条　x").collect::<Vec<_>>().join("\n"),
    4 => (0..n).map(|_| "附則\nx").collect::<Vec<_>>().join("\n"),
    5 => (0..n).map(|_| "前文").collect::<Vec<_>>().join("\n"),
    6 => (0..n).map(|i| format!("第{}章　x", i + 1)).collect::<Vec<_>>().join("\n"),
    7 => format!("第一条　{}", rep("長い文、")),
    8 => format!("第一{}条　x", rep("十")),
    9 => format!("第一条{}　x", rep("の一")),
    10 => format!("{}　x", rep("９")),
    11 => format!("（{}）", rep("あ")),
    12 => format!("附{}則（{}）抄", rep("　"), rep("）")),
    13 => rep("　第一条"),
    14 => format!("いの{}　x", rep("いの")),
    _ => (0..n).map(|_| chaos_line(r)).collect::<Vec<_>>().join("\n"),
  }
}

/// eight times the text must not take much more than eight times as long
fn scaling(c: &mut Ctx, r: &mut R) {
  let f = c.index as usize % FAMILIES;
  let n = match f {
    0..=6 | 15 => 120,
    _ => 4000,
  };
  let a = family_text(f, n, r);
  let b = family_text(f, n * 8, r);
  c.input = Some(format!("family {f}: {} units", n));
  c.eval(hash_str(&format!("scaling {f} {}", c.index)), true);
  let best = |t: &str| -> Option<f64> {
    let mut best = f64::MAX;
    for _ in 0..3 {
      let s = cpu_self();
      guard(|| std::hint::black_box(parse(t).is_ok())).ok()?;
      best = best.min(cpu_self() - s);
    }
    Some(best)
  };
  let (Some(ta), Some(tb)) = (best(&a), best(&b)) else { return c.fail("panic on a large text", &format!("family {f}")) };
  c.count("scaling comparisons", 1);
  c.sample(4, || json!({"family": f, "units": n, "cpu_s": ta, "cpu_s of 8 times": tb}));
  // below a tenth of a second the ratio says nothing
  if tb > 0.4 && tb / ta.max(0.004) > 32.0 {
    c.fail(&format!("time grows faster than the text (family {f})"), &format!("{n} units {ta:.4} s, {} units {tb:.4} s", n * 8));
  }
}

// ------------------------------------------------------------------ P18

fn days_in(y: usize, m: usize) -> usize {
  match m {
    1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
    4 | 6 | 9 | 11 => 30,
    _ => {
      if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 {
        29
      } else {
        28
      }
    }
  }
}
/// era and year of the era; `None`: no such date, or before Meiji
fn era_ref(y: usize, m: usize, d: usize) -> Option<(Era, usize)> {
  if !(1..=12).contains(&m) || d < 1 || d > days_in(y, m) {
    return None;
  }
  let t = (y, m, d);
  Some(if t >= (2019, 5, 1) {
    (Era::Reiwa, y - 2018)
  } else if t >= (1989, 1, 8) {
    (Era::Heisei, y - 1988)
  } else if t >= (1926, 12, 25) {
    (Era::Showa, y - 1925)
  } else if t >= (1912, 7, 30) {
    (Era::Taisho, y - 1911)
  } else if t >= (1868, 1, 25) {
    (Era::Meiji, y - 1867)
  } else {
    return None;
  })
}

fn check_meta(c: &mut Ctx, r: &mut R, y: usize, m: Option<usize>, d: Option<usize>, body: &str) {
  let lt = crate::model::g_law_type_name(r);
  let lang = crate::model::g_lang_name(r);
  let num = if r.p(60) { Some(if r.p(30) { crate::model::g_num(r) } else { AN { base_number: num(r), eda_numbers: small_list(r, 20, 2), range_end_numbers: vec![] } }) } else { None };
  let law_num = if r.p(10) { String::new() } else { r.text() };
  let title = if r.p(5) { String::new() } else { r.text() };
  c.input = Some(format!("{y} {m:?} {d:?} {lt:?} {lang:?} {num:?} {law_num:?} {title:?} {body:?}"));
  c.eval(hash_str(c.input.as_deref().unwrap()), true);
  let want = era_ref(y, m.unwrap_or(1), d.unwrap_or(1));
  let Some(res) = c.sut("parse_text", || parse_text(body, y, m, d, lt.clone(), lang.clone(), num.clone(), law_num.clone(), &title)) else { return };
  match (res, want) {
    (Err(_), None) => c.count("dates refused", 1),
    (Ok(l), None) => c.fail("a date that does not exist or lies before Meiji is accepted", &format!("{y}-{m:?}-{d:?} -> {:?} {}", l.era, l.year)),
    (Err(e), Some(w)) => {
      if y > 9999 {
        c.count("years beyond 9999 refused", 1);
      } else {
        c.fail("a valid date is refused", &format!("{y}-{m:?}-{d:?}: {e:?}, expected {w:?}"))
      }
    }
    (Ok(l), Some((era, year))) => {
      c.count("laws with metadata", 1);
      c.see("eras", &format!("{era:?}"));
      c.see("era years", &format!("{era:?}{year}"));
      c.check(l.era == era, "wrong era", || format!("{y}-{m:?}-{d:?}: {:?}, expected {era:?}", l.era));
      c.check(l.year == year, "wrong year of the era", || format!("{y}-{m:?}-{d:?}: {:?} {}, expected {era:?} {year}", l.era, l.year));
      c.check(l.promulgate_month == m, "promulgation month", || format!("{:?}, expected {m:?}", l.promulgate_month));
      c.check(l.promulgate_day == d, "promulgation day", || format!("{:?}, expected {d:?}", l.promulgate_day));
      c.check(l.law_type == lt, "law type", || format!("{:?}, expected {lt:?}", l.law_type));
      c.check(l.lang == lang, "language", || format!("{:?}, expected {lang:?}", l.lang));
      c.check(l.num == num, "serial number", || format!("{:?}, expected {num:?}", l.num));
      c.check(l.law_num == law_num, "law number", || format!("{:?}, expected {law_num:?}", l.law_num));
      let t = l.law_body.law_title.as_ref().map(|t| super::listp::ref_text(&t.text.contents));
      c.check(t.as_deref() == Some(title.as_str()), "title", || format!("{t:?}, expected {title:?}"));
      if let Some(t) = &l.law_body.law_title {
        c.check(t.kana.is_none() && t.abbrev.is_none() && t.abbrev_kana.is_none(), "title attributes invented", || format!("{t:?}"));
      }
    }
  }
}

pub fn p18(stage: &str, c: &mut Ctx, r: &mut R) {
  match stage {
    // every day of the years 1867..2101, and each month and year alone
    "days" => {
      let y = 1866 + c.index as usize;
      check_meta(c, r, y, None, None, "");
      for m in 0..=13 {
        check_meta(c, r, y, Some(m), None, "");
        for d in 0..=32 {
          check_meta(c, r, y, Some(m), Some(d), "");
        }
      }
      for d in 0..=32 {
        check_meta(c, r, y, None, Some(d), "");
      }
    }
    _ => {
      let (y, m, d) = match dict::int(r, 12_000) {
        Some(y) => (y, if r.p(80) { Some(r.rg(0, 13)) } else { None }, if r.p(80) { Some(r.rg(0, 32)) } else { None }),
        None => match r.n(4) {
        // around the changes of era
        0 | 1 => {
          let (y, m, d) = *r.pick(&[(1868usize, 1usize, 25usize), (1912, 7, 30), (1926, 12, 25), (1989, 1, 8), (2019, 5, 1)]);
          let d = (d as i64 + r.rg(0, 6) as i64 - 3).max(0) as usize;
          (y, Some(m), Some(d))
        }
        2 => (r.rg(1860, 2200), if r.p(80) { Some(r.rg(0, 13)) } else { None }, if r.p(80) { Some(r.rg(0, 32)) } else { None }),
        _ => {
          let h = [0, 1, 12, 31, 255, 256, 257, 65536, 1 << 31, (1 << 31) + 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 12, usize::MAX, (1 << 32) + 2000, 2000, 1900, 2400, 1600, 9999, 10000, 262143, 262144];
          (*r.pick(&h), if r.p(70) { Some(*r.pick(&h)) } else { None }, if r.p(70) { Some(*r.pick(&h)) } else { None })
        }
        },
      };
      let b = if r.p(30) { "第一条　x" } else { "" };
      check_meta(c, r, y, m, d, b);
    }
  }
}
