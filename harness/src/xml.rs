//! A small, independent XML tree: builder, normaliser, parser (for documents the library wrote)
//! and a serialiser with lexical variation (for documents the library reads).

use crate::rng::R;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct E {
  pub name: String,
  pub attrs: BTreeMap<String, String>,
  pub kids: Vec<N>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum N {
  E(E),
  T(String),
}

impl E {
  pub fn n(name: &str) -> E {
    E { name: name.to_string(), attrs: BTreeMap::new(), kids: vec![] }
  }
  pub fn a(mut self, k: &str, v: &str) -> E {
    self.attrs.insert(k.to_string(), v.to_string());
    self
  }
  pub fn oa(mut self, k: &str, v: &Option<String>) -> E {
    if let Some(v) = v {
      self.attrs.insert(k.to_string(), v.clone());
    }
    self
  }
  /// boolean attribute whose default is false
  pub fn fl(self, k: &str, b: bool) -> E {
    if b {
      self.a(k, "true")
    } else {
      self
    }
  }
  pub fn k(mut self, e: E) -> E {
    self.kids.push(N::E(e));
    self
  }
  pub fn ok(mut self, e: Option<E>) -> E {
    if let Some(e) = e {
      self.kids.push(N::E(e));
    }
    self
  }
  pub fn ks<I: IntoIterator<Item = E>>(mut self, es: I) -> E {
    for e in es {
      self.kids.push(N::E(e));
    }
    self
  }
  pub fn t(mut self, s: &str) -> E {
    self.kids.push(N::T(s.to_string()));
    self
  }
  pub fn ns(mut self, ns: Vec<N>) -> E {
    self.kids.extend(ns);
    self
  }
  pub fn elems(&self) -> impl Iterator<Item = &E> {
    self.kids.iter().filter_map(|n| if let N::E(e) = n { Some(e) } else { None })
  }
  pub fn count(&self) -> usize {
    1 + self.elems().map(|e| e.count()).sum::<usize>()
  }
}

pub fn blank(s: &str) -> bool {
  s.chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r'))
}

const STRUCTS: &[&str] = &["TableStruct", "FigStruct", "StyleStruct", "List"];

/// Canonical form used on both sides of every comparison:
/// adjacent text merged, blank text dropped, attributes equal to their schema default dropped,
/// adjacent NewProvision merged, and the two child groups of Paragraph/Item/SubitemN
/// (nested items, tables/figures/lists) put in one fixed order, because the model keeps them apart.
pub fn norm(e: &E) -> E {
  let mut o = E::n(&e.name);
  for (k, v) in &e.attrs {
    let dflt = matches!(
      (k.as_str(), v.as_str()),
      ("Delete", "false") | ("Hide", "false") | ("OldStyle", "false") | ("OldNum", "false") | ("LineBreak", "false") | ("WritingMode", "vertical")
    ) || (k.starts_with("Border") && v == "solid")
      || (k == "Num" && v.is_empty() && e.name == "Law")
      || (k == "Num" && v.is_empty() && (e.name == "Item" || e.name.starts_with("Subitem")))
      || (v.is_empty() && e.name == "Law" && k.starts_with("Promulgate"));
    if !dflt {
      o.attrs.insert(k.clone(), v.clone());
    }
  }
  let mut kids: Vec<N> = vec![];
  for n in &e.kids {
    match n {
      N::T(s) => {
        if let Some(N::T(p)) = kids.last_mut() {
          p.push_str(s);
        } else {
          kids.push(N::T(s.clone()));
        }
      }
      N::E(c) => {
        if let Some(N::T(p)) = kids.last() {
          if blank(p) {
            kids.pop();
          }
        }
        let c = norm(c);
        if c.name == "NewProvision" {
          if let Some(N::E(p)) = kids.last_mut() {
            if p.name == "NewProvision" {
              p.kids.extend(c.kids);
              continue;
            }
          }
        }
        // an absent item number and an absent label are the same as empty ones
        kids.push(N::E(c));
      }
    }
  }
  if let Some(N::T(p)) = kids.last() {
    if blank(p) {
      kids.pop();
    }
  }
  if e.name == "Paragraph" || e.name == "Item" || e.name.starts_with("Subitem") {
    let is_struct = |n: &N| matches!(n, N::E(c) if STRUCTS.contains(&c.name.as_str()));
    let (a, b): (Vec<N>, Vec<N>) = kids.into_iter().partition(|n| !is_struct(n));
    kids = a;
    kids.extend(b);
  }
  if e.name == "SupplProvision" {
    if let Some(N::E(c)) = kids.first() {
      if c.name == "SupplProvisionLabel" && c.kids.is_empty() {
        kids.remove(0);
      }
    }
  }
  o.kids = kids;
  o
}

/// Tables, figures, lists and nested items come after everything else of a paragraph or item;
/// their order among each other is what `norm` leaves open, not this.
pub fn out_of_order(e: &E) -> Option<String> {
  if e.name == "Paragraph" || e.name == "Item" || (e.name.starts_with("Subitem") && !e.name.ends_with("Title") && !e.name.ends_with("Sentence")) {
    let mut last: Option<&str> = None;
    for n in &e.kids {
      if let N::E(c) = n {
        let nested = c.name == "Item" || (c.name.starts_with("Subitem") && !c.name.ends_with("Title") && !c.name.ends_with("Sentence"));
        if nested || STRUCTS.contains(&c.name.as_str()) {
          last = Some(&c.name);
        } else if let Some(l) = last {
          return Some(format!("{} after {l} in {}", c.name, e.name));
        }
      }
    }
  }
  e.kids.iter().find_map(|n| if let N::E(c) = n { out_of_order(c) } else { None })
}

/// An attribute that `norm` takes for absent where it has its default value, on an element that
/// the schema does not give it to.
pub fn stray_default(e: &E) -> Option<String> {
  let n = e.name.as_str();
  let nested = n == "Item" || (n.starts_with("Subitem") && !n.ends_with("Title") && !n.ends_with("Sentence"));
  let div = matches!(n, "Part" | "Chapter" | "Section" | "Subsection" | "Division" | "Article");
  let toc = n.strip_prefix("TOC").is_some_and(|t| matches!(t, "Part" | "Chapter" | "Section" | "Subsection" | "Division" | "Article"));
  for k in e.attrs.keys() {
    let known = match k.as_str() {
      "Delete" => nested || div || toc || n == "Paragraph",
      "Hide" => nested || div || n == "Paragraph",
      "OldStyle" | "OldNum" => n == "Paragraph",
      "LineBreak" => n == "Column" || n == "RemarksLabel",
      "WritingMode" => n == "Sentence" || n == "Table" || n.ends_with("Title"),
      "BorderTop" | "BorderBottom" | "BorderLeft" | "BorderRight" => n == "TableColumn",
      _ => true,
    };
    if !known {
      return Some(format!("{k} on {n}"));
    }
  }
  e.kids.iter().find_map(|n| if let N::E(c) = n { stray_default(c) } else { None })
}

/// First difference between two canonical trees, as a path + description.
pub fn diff(a: &E, b: &E, path: &str) -> Option<String> {
  let here = format!("{path}/{}", a.name);
  if a.name != b.name {
    return Some(format!("{here}: element name expected `{}` got `{}`", a.name, b.name));
  }
  for (k, v) in &a.attrs {
    match b.attrs.get(k) {
      None => return Some(format!("{here}: attribute {k}={v:?} lost")),
      Some(w) if w != v => return Some(format!("{here}: attribute {k} expected {v:?} got {w:?}")),
      _ => (),
    }
  }
  for (k, v) in &b.attrs {
    if !a.attrs.contains_key(k) {
      return Some(format!("{here}: attribute {k}={v:?} appeared"));
    }
  }
  for i in 0..a.kids.len().max(b.kids.len()) {
    match (a.kids.get(i), b.kids.get(i)) {
      (Some(N::E(x)), Some(N::E(y))) => {
        if let Some(d) = diff(x, y, &here) {
          return Some(d);
        }
      }
      (Some(N::T(x)), Some(N::T(y))) => {
        if x != y {
          return Some(format!("{here}: text #{i} expected {x:?} got {y:?}"));
        }
      }
      (x, y) => return Some(format!("{here}: child #{i} expected {} got {}", short(x), short(y))),
    }
  }
  None
}

fn short(n: Option<&N>) -> String {
  match n {
    None => "nothing".into(),
    Some(N::T(s)) => format!("text {s:?}"),
    Some(N::E(e)) => format!("<{}>", e.name),
  }
}

// ---------------------------------------------------------------- serialiser

#[derive(Clone, Debug)]
pub struct Lex {
  pub attr_shuffle: bool,
  pub single_quotes: bool,
  pub indent: bool,
  pub crlf: bool,
  pub tag_space: bool,
  pub explicit_defaults: bool,
  /// other spellings of truth values and numbers in attributes
  pub values: bool,
  pub cdata: bool,
  pub comments: bool,
  pub pis: bool,
  /// comments, processing instructions and CDATA boundaries in the middle of texts
  pub split_text: bool,
  pub char_refs: bool,
  pub entities: bool,
  pub doctype: bool,
  pub decl: u8,
  pub self_close: bool,
  pub ns: u8,
  pub bom: bool,
  /// 0: UTF-8, 1: UTF-16 LE with BOM, 2: UTF-16 BE with BOM
  pub utf16: u8,
}

impl Lex {
  pub fn plain() -> Lex {
    Lex { attr_shuffle: false, single_quotes: false, indent: false, crlf: false, tag_space: false, explicit_defaults: false, values: false, cdata: false, comments: false, pis: false, split_text: false, char_refs: false, entities: false, doctype: false, decl: 1, self_close: true, ns: 0, bom: false, utf16: 0 }
  }
  /// moderate variation
  pub fn gen(r: &mut R) -> Lex {
    Lex {
      attr_shuffle: r.p(50),
      single_quotes: r.p(40),
      indent: r.p(50),
      explicit_defaults: r.p(40),
      cdata: r.p(25),
      comments: r.p(30),
      char_refs: r.p(30),
      decl: r.n(4) as u8,
      self_close: r.p(50),
      ..Lex::plain()
    }
  }
  /// everything XML allows
  pub fn wild(r: &mut R) -> Lex {
    Lex {
      crlf: r.p(30),
      tag_space: r.p(40),
      pis: r.p(30),
      values: r.p(35),
      split_text: r.p(50),
      entities: r.p(25),
      doctype: r.p(20),
      decl: r.n(6) as u8,
      ns: r.n(6) as u8,
      bom: r.p(25),
      utf16: *r.pick(&[0, 0, 0, 0, 0, 0, 1, 2]),
      ..Lex::gen(r)
    }
  }
}

/// Elements whose content is text (mixed content): no whitespace may be added inside them.
pub fn is_mixed(name: &str) -> bool {
  matches!(
    name,
    "Sentence" | "Ruby" | "Rt" | "Line" | "Sup" | "Sub" | "QuoteStruct" | "ArithFormula" | "Note" | "Style" | "Format" | "TableColumn" | "TableHeaderColumn" | "LawNum" | "LawTitle" | "EnactStatement"
      | "ArticleRange" | "RelatedArticleNum" | "ArithFormulaNum" | "SupplNote" | "TOCLabel" | "TOCPreambleLabel" | "TOCAppdxTableLabel" | "SupplProvisionLabel" | "RemarksLabel" | "ParagraphNum"
  ) || name.ends_with("Title")
    || name.ends_with("Caption")
}

struct W<'a> {
  lex: &'a Lex,
  r: &'a mut R,
  out: String,
  ents: Vec<(String, String)>,
}

fn esc_text(s: &str, w: &mut W) {
  // pieces; none may be blank on its own, because the XML layer drops blank nodes
  let mut pieces: Vec<String> = vec![];
  if w.lex.cdata || w.lex.split_text || w.lex.entities {
    let cs: Vec<char> = s.chars().collect();
    let mut cuts: Vec<usize> = (0..w.r.n(4)).map(|_| w.r.n(cs.len() + 1)).collect();
    cuts.sort();
    cuts.push(cs.len());
    let mut from = 0;
    for c in cuts {
      let p: String = cs[from..c].iter().collect();
      if blank(&p) {
        continue;
      }
      pieces.push(p);
      from = c;
    }
    if from < cs.len() {
      let rest: String = cs[from..].iter().collect();
      match pieces.last_mut() {
        Some(l) => l.push_str(&rest),
        None => pieces.push(rest),
      }
    }
  } else {
    pieces.push(s.to_string());
  }
  let n = pieces.len();
  for (i, p) in pieces.iter().enumerate() {
    if w.lex.cdata && !p.contains("]]>") && w.r.p(50) {
      w.out.push_str("<![CDATA[");
      w.out.push_str(p);
      w.out.push_str("]]>");
    } else if w.lex.entities && p.chars().all(|c| c.is_alphanumeric() || "、。「」（）〔〕".contains(c)) && w.r.p(50) {
      let name = format!("e{}", w.ents.len());
      w.out.push_str(&format!("&{name};"));
      w.ents.push((name, p.clone()));
    } else {
      esc_plain(p, w);
    }
    if i + 1 < n && w.lex.split_text {
      match w.r.n(6) {
        0 => w.out.push_str("<!-- 途中 -->"),
        1 => w.out.push_str("<!---->"),
        2 => w.out.push_str("<?pi 途中?>"),
        3 => w.out.push_str("<!-- a --><?p?><!-- b -->"),
        4 => w.out.push_str("<![CDATA[]]>"),
        _ => (),
      }
    }
  }
}

fn esc_plain(s: &str, w: &mut W) {
  for c in s.chars() {
    match c {
      '<' => w.out.push_str("&lt;"),
      '&' => w.out.push_str("&amp;"),
      '>' => w.out.push_str("&gt;"),
      '"' if w.lex.char_refs => w.out.push_str("&quot;"),
      '\'' if w.lex.char_refs => w.out.push_str("&apos;"),
      c if w.lex.char_refs && !c.is_ascii_whitespace() && w.r.p(10) => {
        let n = c as u32;
        let s = match w.r.n(4) {
          0 => format!("&#{n};"),
          1 => format!("&#x{n:X};"),
          2 => format!("&#x{n:x};"),
          _ => format!("&#x0{n:X};"),
        };
        w.out.push_str(&s);
      }
      c => w.out.push(c),
    }
  }
}

fn defaults(e: &E) -> Vec<(&'static str, &'static str)> {
  let mut v = vec![];
  match e.name.as_str() {
    "Part" | "Chapter" | "Section" | "Subsection" | "Division" | "Article" | "Item" => {
      v.push(("Delete", "false"));
      v.push(("Hide", "false"));
    }
    n if n.starts_with("Subitem") && !n.ends_with("Title") && !n.ends_with("Sentence") => {
      v.push(("Delete", "false"));
      v.push(("Hide", "false"));
    }
    "Paragraph" => {
      v.push(("OldStyle", "false"));
      v.push(("OldNum", "false"));
      v.push(("Hide", "false"));
    }
    "TOCPart" | "TOCChapter" | "TOCSection" | "TOCSubsection" | "TOCDivision" | "TOCArticle" => v.push(("Delete", "false")),
    "Column" | "RemarksLabel" => v.push(("LineBreak", "false")),
    "Sentence" | "Table" | "TableStructTitle" | "AppdxTableTitle" | "AppdxFigTitle" | "AppdxNoteTitle" | "AppdxStyleTitle" | "AppdxFormatTitle" | "SupplProvisionAppdxTableTitle" | "SupplProvisionAppdxStyleTitle" => v.push(("WritingMode", "vertical")),
    "TableColumn" => {
      for k in ["BorderTop", "BorderBottom", "BorderLeft", "BorderRight"] {
        v.push((k, "solid"))
      }
    }
    _ => (),
  }
  v
}

/// XML Schema: booleans are also 1 and 0, numbers may have leading zeros, both may stand between blanks
fn other_value(e: &str, k: &str, v: &str, r: &mut R) -> String {
  let (bool, num) = (BOOLS.contains(&k), (k == "Num" && (e == "Sentence" || e == "Column")) || (e == "Law" && matches!(k, "Year" | "PromulgateMonth" | "PromulgateDay")));
  if v.is_empty() || !(bool || num) {
    return v.to_string();
  }
  let mut s = match v {
    "true" if r.p(70) => "1".to_string(),
    "false" if r.p(70) => "0".to_string(),
    v if num && r.p(50) => format!("0{v}"),
    v => v.to_string(),
  };
  if r.p(30) {
    s = format!("{}{s}{}", r.pick(&["", " ", "  "]), r.pick(&["", " "]));
  }
  s
}
pub const BOOLS: &[&str] = &["Delete", "Hide", "OldStyle", "OldNum", "LineBreak", "CommonCaption", "Extract"];

fn newline(w: &mut W, lvl: usize) {
  w.out.push_str(if w.lex.crlf { "\r\n" } else { "\n" });
  for _ in 0..lvl {
    w.out.push_str(if w.lex.tag_space { "\t" } else { "  " });
  }
}

fn space(w: &mut W) {
  if w.lex.tag_space && w.r.p(40) {
    let s = *w.r.pick(&["  ", "\n", "\t", " \n  "]);
    w.out.push_str(s);
  } else {
    w.out.push(' ');
  }
}

fn ser(e: &E, w: &mut W, lvl: usize) {
  w.out.push('<');
  w.out.push_str(&e.name);
  let mut attrs: Vec<(String, String)> = e.attrs.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
  if w.lex.explicit_defaults {
    for (k, v) in defaults(e) {
      if !e.attrs.contains_key(k) && w.r.p(50) {
        attrs.push((k.to_string(), v.to_string()));
      }
    }
  }
  if lvl == 0 {
    match w.lex.ns {
      1 => attrs.push(("xmlns".into(), "http://example.org/law".into())),
      2 => attrs.push(("xmlns:x".into(), "http://example.org/x".into())),
      3 => {
        attrs.push(("xmlns:xsi".into(), "http://www.w3.org/2001/XMLSchema-instance".into()));
        attrs.push(("xsi:noNamespaceSchemaLocation".into(), "XMLSchemaForJapaneseLaw_v3.xsd".into()));
      }
      _ => (),
    }
  }
  if w.lex.attr_shuffle {
    w.r.shuffle(&mut attrs);
  }
  for (k, mut v) in attrs {
    if w.lex.values && w.r.p(60) {
      v = other_value(&e.name, &k, &v, w.r);
    }
    space(w);
    w.out.push_str(&k);
    if w.lex.tag_space && w.r.p(20) {
      w.out.push(' ');
    }
    w.out.push('=');
    if w.lex.tag_space && w.r.p(20) {
      w.out.push('\n');
    }
    let q = if w.lex.single_quotes && w.r.p(50) { '\'' } else { '"' };
    w.out.push(q);
    for c in v.chars() {
      match c {
        '<' => w.out.push_str("&lt;"),
        '&' => w.out.push_str("&amp;"),
        '>' => w.out.push_str("&gt;"),
        '"' if q == '"' => w.out.push_str("&quot;"),
        '\'' if q == '\'' => w.out.push_str("&apos;"),
        c if w.lex.char_refs && c != ' ' && w.r.p(8) => {
          let s = format!("&#x{:X};", c as u32);
          w.out.push_str(&s)
        }
        c => w.out.push(c),
      }
    }
    w.out.push(q);
  }
  if e.kids.is_empty() && w.lex.self_close {
    let s = if w.r.p(50) { "/>" } else { " />" };
    w.out.push_str(s);
    return;
  }
  if w.lex.tag_space && w.r.p(20) {
    w.out.push(' ');
  }
  w.out.push('>');
  let mixed = is_mixed(&e.name) || e.kids.iter().any(|n| matches!(n, N::T(_)));
  for n in &e.kids {
    if !mixed && w.lex.indent {
      newline(w, lvl + 1);
    }
    if !mixed && w.lex.comments && w.r.p(10) {
      w.out.push_str("<!-- 注 <Item> & -->");
    }
    if !mixed && w.lex.pis && w.r.p(10) {
      w.out.push_str("<?target data <x>?>");
    }
    match n {
      N::E(c) => ser(c, w, lvl + 1),
      N::T(s) => esc_text(s, w),
    }
  }
  if mixed && w.lex.split_text && w.r.p(10) {
    // at the end of a mixed content, after a text or an element
    w.out.push_str("<!-- 末尾 -->");
  }
  if !mixed && w.lex.indent {
    newline(w, lvl);
  }
  w.out.push_str("</");
  w.out.push_str(&e.name);
  if w.lex.tag_space && w.r.p(20) {
    w.out.push(' ');
  }
  w.out.push('>');
}

pub fn to_doc(e: &E, lex: &Lex, r: &mut R) -> String {
  let mut w = W { lex, r, out: String::new(), ents: vec![] };
  ser(e, &mut w, 0);
  let (body, ents) = (w.out, w.ents);
  let nl = if lex.crlf { "\r\n" } else { "\n" };
  let mut s = String::new();
  let enc = if lex.utf16 > 0 { "UTF-16" } else { "UTF-8" };
  match lex.decl {
    0 => (),
    1 => s.push_str(&format!("<?xml version=\"1.0\" encoding=\"{enc}\"?>{nl}")),
    2 => s.push_str(&format!("<?xml version='1.0' encoding='{}' standalone='yes'?>", enc.to_lowercase())),
    3 => s.push_str(&format!("<?xml version=\"1.0\"?>{nl}<!-- 冒頭 -->{nl}")),
    4 => s.push_str(&format!("<?xml version=\"1.1\" encoding=\"{enc}\" ?>{nl}{nl}")),
    _ => s.push_str(&format!("<?xml\tversion=\"1.0\"  encoding='{enc}'?>{nl}<?xml-stylesheet href='a.xsl'?>{nl}")),
  }
  if lex.doctype || !ents.is_empty() {
    s.push_str("<!DOCTYPE Law");
    if !ents.is_empty() {
      s.push_str(" [");
      for (n, v) in &ents {
        s.push_str(&format!("{nl}<!ENTITY {n} \"{v}\">"));
      }
      s.push_str(&format!("{nl}]"));
    }
    s.push_str(&format!(">{nl}"));
  }
  s.push_str(&body);
  if lex.decl == 3 {
    s.push_str("\n<!-- end -->\n");
  }
  if lex.decl == 5 {
    s.push_str("\n<?end?>  \n\n");
  }
  s
}

pub fn to_bytes(e: &E, lex: &Lex, r: &mut R) -> Vec<u8> {
  let s = to_doc(e, lex, r);
  match lex.utf16 {
    1 => std::iter::once(0xFEFFu16).chain(s.encode_utf16()).flat_map(|u| u.to_le_bytes()).collect(),
    2 => std::iter::once(0xFEFFu16).chain(s.encode_utf16()).flat_map(|u| u.to_be_bytes()).collect(),
    _ => {
      let mut v = if lex.bom { vec![0xEF, 0xBB, 0xBF] } else { vec![] };
      v.extend_from_slice(s.as_bytes());
      v
    }
  }
}

// ---------------------------------------------------------------- parser

pub struct P<'a> {
  s: &'a [u8],
  i: usize,
}

pub fn parse(s: &str) -> Result<E, String> {
  if let Some(c) = s.chars().find(|c| (*c < ' ' && !matches!(c, '\t' | '\n' | '\r')) || matches!(c, '\u{fffe}' | '\u{ffff}')) {
    return Err(format!("illegal character U+{:04X}", c as u32));
  }
  let mut p = P { s: s.as_bytes(), i: 0 };
  p.misc()?;
  let e = p.elem(0)?;
  p.misc()?;
  if p.i != p.s.len() {
    return Err(format!("trailing data at byte {}", p.i));
  }
  Ok(e)
}

impl<'a> P<'a> {
  fn ws(&mut self) {
    while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') {
      self.i += 1
    }
  }
  fn looking(&self, t: &str) -> bool {
    self.s[self.i..].starts_with(t.as_bytes())
  }
  fn until(&mut self, t: &str) -> Result<&'a str, String> {
    let rest = &self.s[self.i..];
    let pos = rest.windows(t.len()).position(|w| w == t.as_bytes()).ok_or(format!("no `{t}`"))?;
    let r = std::str::from_utf8(&rest[..pos]).map_err(|e| e.to_string())?;
    self.i += pos + t.len();
    Ok(r)
  }
  fn misc(&mut self) -> Result<(), String> {
    loop {
      self.ws();
      if self.looking("<?") {
        self.until("?>")?;
      } else if self.looking("<!--") {
        self.until("-->")?;
      } else {
        return Ok(());
      }
    }
  }
  fn name(&mut self) -> Result<String, String> {
    let st = self.i;
    while self.i < self.s.len() && !matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r' | b'=' | b'>' | b'/' | b'<' | b'"' | b'\'' | b'&') {
      self.i += 1
    }
    if st == self.i {
      return Err(format!("name expected at byte {st}"));
    }
    Ok(String::from_utf8_lossy(&self.s[st..self.i]).to_string())
  }
  fn unesc(&self, s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut rest = s;
    while let Some(p) = rest.find('&') {
      o.push_str(&rest[..p]);
      let q = rest[p..].find(';').ok_or("unterminated entity")? + p;
      match &rest[p + 1..q] {
        "lt" => o.push('<'),
        "gt" => o.push('>'),
        "amp" => o.push('&'),
        "quot" => o.push('"'),
        "apos" => o.push('\''),
        n if n.starts_with("#x") => o.push(u32::from_str_radix(&n[2..], 16).ok().and_then(char::from_u32).ok_or("bad char ref")?),
        n if n.starts_with('#') => o.push(n[1..].parse().ok().and_then(char::from_u32).ok_or("bad char ref")?),
        n => return Err(format!("unknown entity {n}")),
      }
      rest = &rest[q + 1..];
    }
    o.push_str(rest);
    if let Some(c) = o.chars().find(|c| *c < ' ' && !matches!(c, '\t' | '\n' | '\r')) {
      return Err(format!("reference to illegal character U+{:04X}", c as u32));
    }
    Ok(o)
  }
  fn elem(&mut self, depth: usize) -> Result<E, String> {
    if !self.looking("<") {
      return Err(format!("`<` expected at byte {}", self.i));
    }
    if depth > 2000 {
      return Err("too deep".into());
    }
    self.i += 1;
    let mut e = E::n(&self.name()?);
    loop {
      self.ws();
      if self.looking("/>") {
        self.i += 2;
        return Ok(e);
      }
      if self.looking(">") {
        self.i += 1;
        break;
      }
      let k = self.name()?;
      self.ws();
      if !self.looking("=") {
        return Err("`=` expected".into());
      }
      self.i += 1;
      self.ws();
      let q = if self.looking("\"") {
        "\""
      } else if self.looking("'") {
        "'"
      } else {
        return Err("quote expected".into());
      };
      self.i += 1;
      let raw = self.until(q)?;
      if raw.contains('<') {
        return Err("`<` in attribute value".into());
      }
      let v = self.unesc(raw)?;
      if e.attrs.insert(k.clone(), v).is_some() {
        return Err(format!("duplicate attribute {k}"));
      }
    }
    loop {
      if self.i >= self.s.len() {
        return Err(format!("unclosed <{}>", e.name));
      }
      if self.looking("</") {
        self.i += 2;
        let n = self.name()?;
        self.ws();
        if !self.looking(">") || n != e.name {
          return Err(format!("bad end tag {n} for {}", e.name));
        }
        self.i += 1;
        return Ok(e);
      } else if self.looking("<!--") {
        self.until("-->")?;
      } else if self.looking("<![CDATA[") {
        self.i += 9;
        let t = self.until("]]>")?.to_string();
        e.kids.push(N::T(t));
      } else if self.looking("<?") {
        self.until("?>")?;
      } else if self.looking("<") {
        let c = self.elem(depth + 1)?;
        e.kids.push(N::E(c));
      } else {
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i] != b'<' {
          self.i += 1
        }
        let raw = std::str::from_utf8(&self.s[st..self.i]).map_err(|e| e.to_string())?;
        if raw.contains("]]>") {
          return Err("`]]>` in character data".into());
        }
        let t = self.unesc(raw)?;
        e.kids.push(N::T(t));
      }
    }
  }
}
