//! Random law models (`M::g`) and the reference writer (`M::x`): what the standard law schema says
//! the document of a given model is. Written against the schema, independently of the library's own
//! XML code; it touches only the public fields of the model.

use crate::rng::R;
use crate::xml::{E, N};
use japanese_law_xml_schema::appdx::*;
use japanese_law_xml_schema::article::*;
use japanese_law_xml_schema::article_number::ArticleNumber;
use japanese_law_xml_schema::class::*;
use japanese_law_xml_schema::contents::*;
use japanese_law_xml_schema::fig::*;
use japanese_law_xml_schema::law::*;
use japanese_law_xml_schema::line::*;
use japanese_law_xml_schema::list::*;
use japanese_law_xml_schema::paragraph::*;
use japanese_law_xml_schema::remarks::*;
use japanese_law_xml_schema::sentence::*;
use japanese_law_xml_schema::structs::*;
use japanese_law_xml_schema::suppl_provision::*;
use japanese_law_xml_schema::table::*;
use japanese_law_xml_schema::table_of_contents::*;
use japanese_law_xml_schema::text::*;

pub trait M: Sized {
  fn g(r: &mut R) -> Self;
  fn x(&self) -> E;
}

fn xs<T: M>(v: &[T]) -> Vec<E> {
  v.iter().map(|e| e.x()).collect()
}
fn ox<T: M>(v: &Option<T>) -> Option<E> {
  v.as_ref().map(|e| e.x())
}
fn on(v: &Option<usize>) -> Option<String> {
  v.map(|n| n.to_string())
}

/// Reference rendering of an article number in `Num` attributes.
pub fn num_ref(n: &ArticleNumber) -> String {
  let mut s = n.base_number.to_string();
  for e in &n.eda_numbers {
    s += &format!("_{e}");
  }
  if let Some((h, t)) = n.range_end_numbers.split_first() {
    s += &format!(":{h}");
    for e in t {
      s += &format!("_{e}");
    }
  }
  s
}

pub fn g_num(r: &mut R) -> ArticleNumber {
  let base_number = r.num();
  let k = if r.p(4) { r.rg(4, 12) } else { *r.pick(&[0, 0, 0, 0, 1, 1, 2, 3]) };
  let eda_numbers = (0..k).map(|_| r.num()).collect();
  let k = if r.p(2) { r.rg(4, 8) } else { *r.pick(&[0, 0, 0, 0, 0, 1, 2, 3]) };
  let range_end_numbers = (0..k).map(|_| r.num()).collect();
  ArticleNumber { base_number, eda_numbers, range_end_numbers }
}

// ------------------------------------------------------------------ inline text

pub fn g_text(r: &mut R) -> Text {
  let k = *r.pick(&[1, 1, 1, 1, 2, 3, 4, 0]);
  let mut contents: Vec<TextElement> = vec![];
  for _ in 0..k {
    let prev_text = matches!(contents.last(), Some(TextElement::Text(_)));
    let c = if prev_text || r.p(40) && k > 1 {
      match r.n(4) {
        0 => TextElement::Ruby(Ruby::g(r)),
        1 => TextElement::Line(Line::g(r)),
        2 => TextElement::Sup(Sup::g(r)),
        _ => TextElement::Sub(Sub::g(r)),
      }
    } else {
      TextElement::Text(r.text())
    };
    contents.push(c);
  }
  Text { contents }
}

fn text_nodes(v: &[TextElement]) -> Vec<N> {
  v.iter()
    .map(|t| match t {
      TextElement::Ruby(v) => N::E(v.x()),
      TextElement::Line(v) => N::E(v.x()),
      TextElement::Sup(v) => N::E(v.x()),
      TextElement::Sub(v) => N::E(v.x()),
      TextElement::Text(s) => N::T(s.clone()),
    })
    .collect()
}

pub fn tx(name: &str, t: &Text) -> E {
  E::n(name).ns(text_nodes(&t.contents))
}
fn otx(name: &str, t: &Option<Text>) -> Option<E> {
  t.as_ref().map(|t| tx(name, t))
}

fn wm(e: E, w: &WritingMode) -> E {
  match w {
    WritingMode::Vertical => e,
    WritingMode::Horizontal => e.a("WritingMode", "horizontal"),
  }
}
fn g_wm(r: &mut R) -> WritingMode {
  if r.p(25) {
    WritingMode::Horizontal
  } else {
    WritingMode::Vertical
  }
}
fn g_wtext(r: &mut R) -> TextWithWritingMode {
  let t = g_text(r);
  TextWithWritingMode { contents: t.contents, writing_mode: g_wm(r) }
}
fn wtx(name: &str, t: &TextWithWritingMode) -> E {
  wm(E::n(name).ns(text_nodes(&t.contents)), &t.writing_mode)
}
fn owtx(name: &str, t: &Option<TextWithWritingMode>) -> Option<E> {
  t.as_ref().map(|t| wtx(name, t))
}

impl M for Ruby {
  fn g(r: &mut R) -> Self {
    Ruby { text: if r.p(92) { Text { contents: vec![TextElement::Text(r.text())] } } else { Text { contents: vec![] } }, ruby: if r.p(92) { r.text() } else { String::new() } }
  }
  fn x(&self) -> E {
    let rt = if self.ruby.is_empty() { E::n("Rt") } else { E::n("Rt").t(&self.ruby) };
    E::n("Ruby").ns(text_nodes(&self.text.contents)).k(rt)
  }
}
impl M for Sup {
  fn g(r: &mut R) -> Self {
    Sup { text: if r.p(95) { r.text() } else { String::new() } }
  }
  fn x(&self) -> E {
    if self.text.is_empty() { E::n("Sup") } else { E::n("Sup").t(&self.text) }
  }
}
impl M for Sub {
  fn g(r: &mut R) -> Self {
    Sub { text: if r.p(95) { r.text() } else { String::new() } }
  }
  fn x(&self) -> E {
    if self.text.is_empty() { E::n("Sub") } else { E::n("Sub").t(&self.text) }
  }
}

fn ls(s: &LineStyle) -> &'static str {
  match s {
    LineStyle::Dotted => "dotted",
    LineStyle::Double => "double",
    LineStyle::Solid => "solid",
    LineStyle::None => "none",
  }
}
fn g_ls(r: &mut R) -> LineStyle {
  match r.n(4) {
    0 => LineStyle::Dotted,
    1 => LineStyle::Double,
    2 => LineStyle::Solid,
    _ => LineStyle::None,
  }
}
fn al(a: &Align) -> &'static str {
  match a {
    Align::Left => "left",
    Align::Center => "center",
    Align::Right => "right",
    Align::Justify => "justify",
  }
}
fn g_al(r: &mut R) -> Align {
  match r.n(4) {
    0 => Align::Left,
    1 => Align::Center,
    2 => Align::Right,
    _ => Align::Justify,
  }
}

/// k mixed-content nodes, never two strings in a row
fn mixed<T>(r: &mut R, k: usize, is_s: impl Fn(&T) -> bool, mks: impl Fn(String) -> T, mut mke: impl FnMut(&mut R) -> Option<T>) -> Vec<T> {
  let mut v: Vec<T> = vec![];
  r.depth += 1;
  for _ in 0..k {
    let prev = v.last().map(|t| is_s(t)).unwrap_or(false);
    r.b -= 1;
    if prev || r.p(45) {
      if let Some(e) = mke(r) {
        v.push(e);
      }
    } else {
      let s = r.text();
      v.push(mks(s));
    }
  }
  r.depth -= 1;
  v
}

impl M for Line {
  fn g(r: &mut R) -> Self {
    let k = r.n(4);
    let contents = mixed(
      r,
      k,
      |t| matches!(t, LineContents::String(_)),
      LineContents::String,
      |r| {
        Some(match r.n(if r.full() { 3 } else { 5 }) {
          0 => LineContents::Ruby(Ruby::g(r)),
          1 => LineContents::Sup(Sup::g(r)),
          2 => LineContents::Sub(Sub::g(r)),
          3 => LineContents::QuoteStruct(QuoteStruct::g(r)),
          _ => LineContents::ArithFormula(ArithFormula::g(r)),
        })
      },
    );
    Line { contents, style: g_ls(r) }
  }
  fn x(&self) -> E {
    let mut e = E::n("Line").a("Style", ls(&self.style));
    for c in &self.contents {
      e.kids.push(match c {
        LineContents::QuoteStruct(v) => N::E(v.x()),
        LineContents::ArithFormula(v) => N::E(v.x()),
        LineContents::Ruby(v) => N::E(v.x()),
        LineContents::Sup(v) => N::E(v.x()),
        LineContents::Sub(v) => N::E(v.x()),
        LineContents::String(s) => N::T(s.clone()),
      });
    }
    e
  }
}

impl M for Fig {
  fn g(r: &mut R) -> Self {
    Fig { src: r.attr() }
  }
  fn x(&self) -> E {
    E::n("Fig").a("src", &self.src)
  }
}


fn g_contents(r: &mut R, k: usize) -> Vec<ContentsElement> {
  mixed(r, k, |t| matches!(t, ContentsElement::String(_)), ContentsElement::String, |r| {
    if r.full() {
      return Some(ContentsElement::Fig(Fig::g(r)));
    }
    Some(match r.n(31) {
      0 => ContentsElement::Table(Table::g(r)),
      1 => ContentsElement::TableStruct(TableStruct::g(r)),
      2 => ContentsElement::Fig(Fig::g(r)),
      3 => ContentsElement::FigStruct(FigStruct::g(r)),
      4 => ContentsElement::QuoteStruct(QuoteStruct::g(r)),
      5 => ContentsElement::NoteStruct(NoteStruct::g(r)),
      6 => ContentsElement::StyleStruct(StyleStruct::g(r)),
      7 => ContentsElement::AppdxTable(AppdxTable::g(r)),
      8 => ContentsElement::Ruby(Ruby::g(r)),
      9 => ContentsElement::Line(Line::g(r)),
      10 => ContentsElement::Sup(Sup::g(r)),
      11 => ContentsElement::Sub(Sub::g(r)),
      12 => ContentsElement::Paragraph(Paragraph::g(r)),
      13 => ContentsElement::Item(Item::g(r)),
      14 => ContentsElement::Subitem1(Subitem1::g(r)),
      15 => ContentsElement::Subitem2(Subitem2::g(r)),
      16 => ContentsElement::Subitem3(Subitem3::g(r)),
      17 => ContentsElement::Subitem4(Subitem4::g(r)),
      18 => ContentsElement::Subitem5(Subitem5::g(r)),
      19 => ContentsElement::Subitem6(Subitem6::g(r)),
      20 => ContentsElement::Subitem7(Subitem7::g(r)),
      21 => ContentsElement::Subitem8(Subitem8::g(r)),
      22 => ContentsElement::Subitem9(Subitem9::g(r)),
      23 => ContentsElement::Subitem10(Subitem10::g(r)),
      24 => ContentsElement::List(List::g(r)),
      25 => ContentsElement::Sentence(Sentence::g(r)),
      26 => ContentsElement::ArithFormula(ArithFormula::g(r)),
      27 => ContentsElement::Remarks(Remarks::g(r)),
      28 => ContentsElement::TOC(TOC::g(r)),
      29 => ContentsElement::TOCSection(TOCSection::g(r)),
      _ => ContentsElement::TableRow(TableRow::g(r)),
    })
  })
}
fn g_contents_nodes(v: &[ContentsElement]) -> Vec<N> {
  v.iter().map(|c| match c {
    ContentsElement::Table(v) => N::E(v.x()),
    ContentsElement::TableStruct(v) => N::E(v.x()),
    ContentsElement::Fig(v) => N::E(v.x()),
    ContentsElement::FigStruct(v) => N::E(v.x()),
    ContentsElement::QuoteStruct(v) => N::E(v.x()),
    ContentsElement::NoteStruct(v) => N::E(v.x()),
    ContentsElement::StyleStruct(v) => N::E(v.x()),
    ContentsElement::AppdxTable(v) => N::E(v.x()),
    ContentsElement::Ruby(v) => N::E(v.x()),
    ContentsElement::Line(v) => N::E(v.x()),
    ContentsElement::Sup(v) => N::E(v.x()),
    ContentsElement::Sub(v) => N::E(v.x()),
    ContentsElement::Paragraph(v) => N::E(v.x()),
    ContentsElement::Item(v) => N::E(v.x()),
    ContentsElement::Subitem1(v) => N::E(v.x()),
    ContentsElement::Subitem2(v) => N::E(v.x()),
    ContentsElement::Subitem3(v) => N::E(v.x()),
    ContentsElement::Subitem4(v) => N::E(v.x()),
    ContentsElement::Subitem5(v) => N::E(v.x()),
    ContentsElement::Subitem6(v) => N::E(v.x()),
    ContentsElement::Subitem7(v) => N::E(v.x()),
    ContentsElement::Subitem8(v) => N::E(v.x()),
    ContentsElement::Subitem9(v) => N::E(v.x()),
    ContentsElement::Subitem10(v) => N::E(v.x()),
    ContentsElement::List(v) => N::E(v.x()),
    ContentsElement::Sentence(v) => N::E(v.x()),
    ContentsElement::ArithFormula(v) => N::E(v.x()),
    ContentsElement::Remarks(v) => N::E(v.x()),
    ContentsElement::TOC(v) => N::E(v.x()),
    ContentsElement::TOCSection(v) => N::E(v.x()),
    ContentsElement::TableRow(v) => N::E(v.x()),
    ContentsElement::String(s) => N::T(s.clone()),
  }).collect()
}

fn g_cont(r: &mut R) -> Contents {
  let k = if r.full() { 1 } else { r.n(5) };
  Contents { contents: g_contents(r, k) }
}
fn cont(name: &str, c: &Contents) -> E {
  E::n(name).ns(g_contents_nodes(&c.contents))
}

impl M for QuoteStruct {
  fn g(r: &mut R) -> Self {
    QuoteStruct { contentes: g_cont(r) }
  }
  fn x(&self) -> E {
    cont("QuoteStruct", &self.contentes)
  }
}
impl M for Style {
  fn g(r: &mut R) -> Self {
    Style { contentes: g_cont(r) }
  }
  fn x(&self) -> E {
    cont("Style", &self.contentes)
  }
}
impl M for Note {
  fn g(r: &mut R) -> Self {
    Note { contentes: g_cont(r) }
  }
  fn x(&self) -> E {
    cont("Note", &self.contentes)
  }
}
impl M for Format {
  fn g(r: &mut R) -> Self {
    Format { contentes: g_cont(r) }
  }
  fn x(&self) -> E {
    cont("Format", &self.contentes)
  }
}
impl M for ArithFormula {
  fn g(r: &mut R) -> Self {
    ArithFormula { num: r.opt(40, |r| r.num()), contentes: g_cont(r) }
  }
  fn x(&self) -> E {
    cont("ArithFormula", &self.contentes).oa("Num", &on(&self.num))
  }
}

const INDENTS: [&str; 12] = ["Paragraph", "Item", "Subitem1", "Subitem2", "Subitem3", "Subitem4", "Subitem5", "Subitem6", "Subitem7", "Subitem8", "Subitem9", "Subitem10"];
fn g_indent(r: &mut R) -> SentenceIndent {
  match r.n(12) {
    0 => SentenceIndent::Paragraph,
    1 => SentenceIndent::Item,
    2 => SentenceIndent::Subitem1,
    3 => SentenceIndent::Subitem2,
    4 => SentenceIndent::Subitem3,
    5 => SentenceIndent::Subitem4,
    6 => SentenceIndent::Subitem5,
    7 => SentenceIndent::Subitem6,
    8 => SentenceIndent::Subitem7,
    9 => SentenceIndent::Subitem8,
    10 => SentenceIndent::Subitem9,
    _ => SentenceIndent::Subitem10,
  }
}
fn indent_name(i: &SentenceIndent) -> &'static str {
  INDENTS[match i {
    SentenceIndent::Paragraph => 0,
    SentenceIndent::Item => 1,
    SentenceIndent::Subitem1 => 2,
    SentenceIndent::Subitem2 => 3,
    SentenceIndent::Subitem3 => 4,
    SentenceIndent::Subitem4 => 5,
    SentenceIndent::Subitem5 => 6,
    SentenceIndent::Subitem6 => 7,
    SentenceIndent::Subitem7 => 8,
    SentenceIndent::Subitem8 => 9,
    SentenceIndent::Subitem9 => 10,
    SentenceIndent::Subitem10 => 11,
  }]
}
impl M for Sentence {
  fn g(r: &mut R) -> Self {
    let k = *r.pick(&[1, 1, 1, 1, 1, 2, 3, 5, 0]);
    let contents = if k == 1 && r.p(80) {
      vec![SentenceElement::String(r.text())]
    } else {
      mixed(r, k, |t| matches!(t, SentenceElement::String(_)), SentenceElement::String, |r| {
        Some(match r.n(if r.full() { 3 } else { 6 }) {
          0 => SentenceElement::Ruby(Ruby::g(r)),
          1 => SentenceElement::Sup(Sup::g(r)),
          2 => SentenceElement::Sub(Sub::g(r)),
          3 => SentenceElement::Line(Line::g(r)),
          4 => SentenceElement::QuoteStruct(QuoteStruct::g(r)),
          _ => SentenceElement::ArithFormula(ArithFormula::g(r)),
        })
      })
    };
    Sentence {
      contents,
      num: r.opt(50, |r| r.num()),
      function: match r.n(4) {
        0 => Some(SentenceFunction::Main),
        1 => Some(SentenceFunction::Proviso),
        _ => None,
      },
      indent: r.opt(15, g_indent),
      writing_mode: g_wm(r),
    }
  }
  fn x(&self) -> E {
    let mut e = wm(E::n("Sentence").oa("Num", &on(&self.num)), &self.writing_mode);
    match self.function {
      Some(SentenceFunction::Main) => e = e.a("Function", "main"),
      Some(SentenceFunction::Proviso) => e = e.a("Function", "proviso"),
      None => (),
    }
    if let Some(i) = &self.indent {
      e = e.a("Indent", indent_name(i));
    }
    for c in &self.contents {
      e.kids.push(match c {
        SentenceElement::Line(v) => N::E(v.x()),
        SentenceElement::QuoteStruct(v) => N::E(v.x()),
        SentenceElement::ArithFormula(v) => N::E(v.x()),
        SentenceElement::Ruby(v) => N::E(v.x()),
        SentenceElement::Sup(v) => N::E(v.x()),
        SentenceElement::Sub(v) => N::E(v.x()),
        SentenceElement::String(s) => N::T(s.clone()),
      });
    }
    e
  }
}
impl M for Column {
  fn g(r: &mut R) -> Self {
    Column { sentence: r.v1(3, Sentence::g), num: r.opt(50, |r| r.num()), line_break: r.p(20), align: r.opt(30, g_al) }
  }
  fn x(&self) -> E {
    E::n("Column").oa("Num", &on(&self.num)).fl("LineBreak", self.line_break).oa("Align", &self.align.as_ref().map(|a| al(a).to_string())).ks(xs(&self.sentence))
  }
}
pub fn g_soct(r: &mut R) -> SentenceOrColumnOrTable {
  match r.n(if r.full() { 5 } else { 8 }) {
    0..=4 => SentenceOrColumnOrTable::Sentence(r.v(1, 3, Sentence::g)),
    5 | 6 => SentenceOrColumnOrTable::Column(r.v(1, 3, Column::g)),
    _ => SentenceOrColumnOrTable::Table(Table::g(r)),
  }
}
pub fn soct(name: &str, s: &SentenceOrColumnOrTable) -> E {
  match s {
    SentenceOrColumnOrTable::Sentence(v) => E::n(name).ks(xs(v)),
    SentenceOrColumnOrTable::Column(v) => E::n(name).ks(xs(v)),
    SentenceOrColumnOrTable::Table(t) => E::n(name).k(t.x()),
  }
}
pub fn g_caption(r: &mut R) -> Caption {
  Caption { text: g_text(r), common_caption: r.opt(30, |r| r.p(50)) }
}
fn cap(name: &str, c: &Caption) -> E {
  tx(name, &c.text).oa("CommonCaption", &c.common_caption.map(|b| b.to_string()))
}
impl M for Class {
  fn g(r: &mut R) -> Self {
    Class { class_title: r.opt(60, g_text), class_sentence: g_soct(r), children: r.v(0, 2, Item::g), num: r.attr() }
  }
  fn x(&self) -> E {
    E::n("Class").a("Num", &self.num).ok(otx("ClassTitle", &self.class_title)).k(soct("ClassSentence", &self.class_sentence)).ks(xs(&self.children))
  }
}


fn g_lsent(r: &mut R) -> ListSentence {
  if r.p(70) { ListSentence::Sentence(Sentence::g(r)) } else { ListSentence::Column(Column::g(r)) }
}
fn lsent(name: &str, v: &[ListSentence]) -> E {
  E::n(name).ks(v.iter().map(|s| match s {
    ListSentence::Sentence(v) => v.x(),
    ListSentence::Column(v) => v.x(),
  }))
}
impl M for List {
  fn g(r: &mut R) -> Self {
    List { sentence: r.v1(3, g_lsent), children: r.v(0, 2, Sublist1::g) }
  }
  fn x(&self) -> E {
    E::n("List").k(lsent("ListSentence", &self.sentence)).ks(xs(&self.children))
  }
}
impl M for Sublist1 {
  fn g(r: &mut R) -> Self {
    Sublist1 { sentence: r.v1(3, g_lsent), children: r.v(0, 2, Sublist2::g) }
  }
  fn x(&self) -> E {
    E::n("Sublist1").k(lsent("Sublist1Sentence", &self.sentence)).ks(xs(&self.children))
  }
}
impl M for Sublist2 {
  fn g(r: &mut R) -> Self {
    Sublist2 { sentence: r.v1(3, g_lsent), children: r.v(0, 2, Sublist3::g) }
  }
  fn x(&self) -> E {
    E::n("Sublist2").k(lsent("Sublist2Sentence", &self.sentence)).ks(xs(&self.children))
  }
}
impl M for Sublist3 {
  fn g(r: &mut R) -> Self {
    Sublist3 { sentence: r.v1(3, g_lsent) }
  }
  fn x(&self) -> E {
    E::n("Sublist3").k(lsent("Sublist3Sentence", &self.sentence))
  }
}

impl M for Remarks {
  fn g(r: &mut R) -> Self {
    Remarks {
      label: RemarksLabel { text: g_text(r), line_break: r.p(30) },
      children: r.v(0, 3, |r| if r.p(50) || r.full() { RemarksContents::Sentence(Sentence::g(r)) } else { RemarksContents::Item(Item::g(r)) }),
    }
  }
  fn x(&self) -> E {
    E::n("Remarks").k(tx("RemarksLabel", &self.label.text).fl("LineBreak", self.label.line_break)).ks(self.children.iter().map(|c| match c {
      RemarksContents::Item(v) => v.x(),
      RemarksContents::Sentence(v) => v.x(),
    }))
  }
}
fn g_rem(r: &mut R) -> Vec<Remarks> {
  if r.p(70) { vec![] } else { r.v(0, 2, Remarks::g) }
}
impl M for NoteStruct {
  fn g(r: &mut R) -> Self {
    NoteStruct { title: r.opt(50, g_text), title_remarks: g_rem(r), note: Note::g(r), note_remarks: g_rem(r) }
  }
  fn x(&self) -> E {
    E::n("NoteStruct").ok(otx("NoteStructTitle", &self.title)).ks(xs(&self.title_remarks)).k(self.note.x()).ks(xs(&self.note_remarks))
  }
}
impl M for StyleStruct {
  fn g(r: &mut R) -> Self {
    StyleStruct { title: r.opt(50, g_text), title_remarks: g_rem(r), style: Style::g(r), style_remarks: g_rem(r) }
  }
  fn x(&self) -> E {
    E::n("StyleStruct").ok(otx("StyleStructTitle", &self.title)).ks(xs(&self.title_remarks)).k(self.style.x()).ks(xs(&self.style_remarks))
  }
}
impl M for FigStruct {
  fn g(r: &mut R) -> Self {
    FigStruct { title: r.opt(50, g_text), title_remarks: g_rem(r), fig: Fig::g(r), fig_remarks: g_rem(r) }
  }
  fn x(&self) -> E {
    E::n("FigStruct").ok(otx("FigStructTitle", &self.title)).ks(xs(&self.title_remarks)).k(self.fig.x()).ks(xs(&self.fig_remarks))
  }
}
impl M for TableStruct {
  fn g(r: &mut R) -> Self {
    TableStruct { title: r.opt(50, g_wtext), title_remarks: g_rem(r), table: Table::g(r), table_remarks: g_rem(r) }
  }
  fn x(&self) -> E {
    E::n("TableStruct").ok(owtx("TableStructTitle", &self.title)).ks(xs(&self.title_remarks)).k(self.table.x()).ks(xs(&self.table_remarks))
  }
}
/// `FormatStruct` has private fields; its serde form is its public surface.
#[derive(serde::Serialize, serde::Deserialize)]
pub struct FormatShadow {
  pub title: Option<Text>,
  pub title_remarks: Vec<Remarks>,
  pub format: Format,
  pub format_remarks: Vec<Remarks>,
}
fn fs_tree(s: &FormatShadow) -> E {
  E::n("FormatStruct").ok(otx("FormatStructTitle", &s.title)).ks(xs(&s.title_remarks)).k(s.format.x()).ks(xs(&s.format_remarks))
}
thread_local! {
  /// what the generated `FormatStruct`s (whose fields are private) were made from
  static FS: std::cell::RefCell<std::collections::HashMap<u64, E>> = std::cell::RefCell::new(std::collections::HashMap::new());
}
pub fn reset() {
  FS.with(|m| m.borrow_mut().clear());
}
fn fs_key(f: &FormatStruct) -> u64 {
  use std::hash::{Hash, Hasher};
  let mut h = std::collections::hash_map::DefaultHasher::new();
  f.hash(&mut h);
  h.finish()
}
fn fs_make(s: &FormatShadow) -> Option<FormatStruct> {
  let v = serde_json::to_value(s).ok()?;
  let f = crate::ctx::guard(|| serde_json::from_value::<FormatStruct>(v.clone()).ok()).ok()??;
  // only when its JSON form is exactly the plain one (P19 judges that form, not the other checks)
  if serde_json::to_value(&f).ok()? == v {
    Some(f)
  } else {
    None
  }
}
fn fs_read(s: &FormatShadow) -> Option<FormatStruct> {
  let e = E::n("AppdxFormat").k(E::n("AppdxFormatTitle").t("x")).k(fs_tree(s));
  let law = E::n("Law").a("Era", "Showa").a("Year", "1").a("Num", "1").a("LawType", "Act").a("Lang", "ja").k(E::n("LawNum").t("x")).k(E::n("LawBody").k(E::n("MainProvision")).k(e));
  let doc = crate::xml::to_doc(&law, &crate::xml::Lex::plain(), &mut R::new(1));
  let l = crate::ctx::guard(|| japanese_law_xml_schema::parse_xml(doc.as_bytes()).ok()).ok()??;
  l.law_body.appdx_format.into_iter().next()?.children.into_iter().next()
}
impl M for FormatStruct {
  fn g(r: &mut R) -> Self {
    let mut s = FormatShadow { title: r.opt(50, g_text), title_remarks: g_rem(r), format: Format::g(r), format_remarks: g_rem(r) };
    let f = match fs_make(&s).or_else(|| fs_read(&s)) {
      Some(f) => f,
      None => {
        s = FormatShadow { title: None, title_remarks: vec![], format: Format { contentes: Contents { contents: vec![] } }, format_remarks: vec![] };
        fs_make(&s).or_else(|| fs_read(&s)).expect("no way to build a FormatStruct")
      }
    };
    let (k, t) = (fs_key(&f), fs_tree(&s));
    FS.with(|m| m.borrow_mut().insert(k, t));
    f
  }
  fn x(&self) -> E {
    if let Some(e) = FS.with(|m| m.borrow().get(&fs_key(self)).cloned()) {
      return e;
    }
    match serde_json::to_value(self).ok().and_then(|v| serde_json::from_value::<FormatShadow>(v).ok()) {
      Some(s) => fs_tree(&s),
      None => E::n("FormatStruct"),
    }
  }
}
pub fn g_struct(r: &mut R) -> Struct {
  match r.n(4) {
    0 => Struct::TableStruct(TableStruct::g(r)),
    1 => Struct::FigStruct(FigStruct::g(r)),
    2 => Struct::StyleStruct(StyleStruct::g(r)),
    _ => Struct::List(List::g(r)),
  }
}
fn g_structs(r: &mut R) -> Vec<Struct> {
  if r.p(75) { vec![] } else { r.v(0, 3, g_struct) }
}
fn sx(v: &[Struct]) -> Vec<E> {
  v.iter().map(|s| match s {
    Struct::TableStruct(v) => v.x(),
    Struct::FigStruct(v) => v.x(),
    Struct::StyleStruct(v) => v.x(),
    Struct::List(v) => v.x(),
  }).collect()
}

// ------------------------------------------------------------------ tables
impl M for Table {
  fn g(r: &mut R) -> Self {
    Table { table_header_row: r.v(0, 2, TableHeaderRow::g), table_row: if r.p(4) { vec![] } else { r.v(1, 4, TableRow::g) }, writing_mode: g_wm(r) }
  }
  fn x(&self) -> E {
    wm(E::n("Table"), &self.writing_mode).ks(xs(&self.table_header_row)).ks(xs(&self.table_row))
  }
}
impl M for TableHeaderRow {
  fn g(r: &mut R) -> Self {
    TableHeaderRow { columns: if r.p(4) { vec![] } else { r.v(1, 4, g_text) } }
  }
  fn x(&self) -> E {
    E::n("TableHeaderRow").ks(self.columns.iter().map(|t| tx("TableHeaderColumn", t)))
  }
}
impl M for TableRow {
  fn g(r: &mut R) -> Self {
    TableRow { columns: if r.p(4) { vec![] } else { r.v(1, 4, TableColumn::g) } }
  }
  fn x(&self) -> E {
    E::n("TableRow").ks(xs(&self.columns))
  }
}

fn g_tcc(r: &mut R, k: usize) -> Vec<TableColumnContents> {
  mixed(r, k, |t| matches!(t, TableColumnContents::String(_)), TableColumnContents::String, |r| {
    if r.full() {
      return Some(TableColumnContents::Sentence(Sentence::g(r)));
    }
    Some(match r.n(22) {
      0 => TableColumnContents::Part(Part::g(r)),
      1 => TableColumnContents::Chapter(Chapter::g(r)),
      2 => TableColumnContents::Section(Section::g(r)),
      3 => TableColumnContents::Subsection(Subsection::g(r)),
      4 => TableColumnContents::Division(Division::g(r)),
      5 => TableColumnContents::Article(Article::g(r)),
      6 => TableColumnContents::Paragraph(Paragraph::g(r)),
      7 => TableColumnContents::Item(Item::g(r)),
      8 => TableColumnContents::Subitem1(Subitem1::g(r)),
      9 => TableColumnContents::Subitem2(Subitem2::g(r)),
      10 => TableColumnContents::Subitem3(Subitem3::g(r)),
      11 => TableColumnContents::Subitem4(Subitem4::g(r)),
      12 => TableColumnContents::Subitem5(Subitem5::g(r)),
      13 => TableColumnContents::Subitem6(Subitem6::g(r)),
      14 => TableColumnContents::Subitem7(Subitem7::g(r)),
      15 => TableColumnContents::Subitem8(Subitem8::g(r)),
      16 => TableColumnContents::Subitem9(Subitem9::g(r)),
      17 => TableColumnContents::Subitem10(Subitem10::g(r)),
      18 => TableColumnContents::FigStruct(FigStruct::g(r)),
      19 => TableColumnContents::Sentence(Sentence::g(r)),
      20 => TableColumnContents::Remarks(Remarks::g(r)),
      _ => TableColumnContents::Column(Column::g(r)),
    })
  })
}
fn g_tcc_nodes(v: &[TableColumnContents]) -> Vec<N> {
  v.iter().map(|c| match c {
    TableColumnContents::Part(v) => N::E(v.x()),
    TableColumnContents::Chapter(v) => N::E(v.x()),
    TableColumnContents::Section(v) => N::E(v.x()),
    TableColumnContents::Subsection(v) => N::E(v.x()),
    TableColumnContents::Division(v) => N::E(v.x()),
    TableColumnContents::Article(v) => N::E(v.x()),
    TableColumnContents::Paragraph(v) => N::E(v.x()),
    TableColumnContents::Item(v) => N::E(v.x()),
    TableColumnContents::Subitem1(v) => N::E(v.x()),
    TableColumnContents::Subitem2(v) => N::E(v.x()),
    TableColumnContents::Subitem3(v) => N::E(v.x()),
    TableColumnContents::Subitem4(v) => N::E(v.x()),
    TableColumnContents::Subitem5(v) => N::E(v.x()),
    TableColumnContents::Subitem6(v) => N::E(v.x()),
    TableColumnContents::Subitem7(v) => N::E(v.x()),
    TableColumnContents::Subitem8(v) => N::E(v.x()),
    TableColumnContents::Subitem9(v) => N::E(v.x()),
    TableColumnContents::Subitem10(v) => N::E(v.x()),
    TableColumnContents::FigStruct(v) => N::E(v.x()),
    TableColumnContents::Sentence(v) => N::E(v.x()),
    TableColumnContents::Remarks(v) => N::E(v.x()),
    TableColumnContents::Column(v) => N::E(v.x()),
    TableColumnContents::String(s) => N::T(s.clone()),
  }).collect()
}

impl M for TableColumn {
  fn g(r: &mut R) -> Self {
    let contents = match r.n(10) {
      0 => vec![],
      1 | 2 => {
        let k = if r.full() { 1 } else { r.n(4) };
        g_tcc(r, k)
      }
      _ => r.v(1, 2, |r| TableColumnContents::Sentence(Sentence::g(r))),
    };
    let b = |r: &mut R| if r.p(60) { LineStyle::Solid } else { g_ls(r) };
    TableColumn {
      contents,
      border_top: b(r),
      border_bottom: b(r),
      border_left: b(r),
      border_right: b(r),
      rowspan: r.opt(25, |r| r.rg(1, 9).to_string()),
      colspan: r.opt(25, |r| r.rg(1, 9).to_string()),
      align: r.opt(30, g_al),
      valign: r.opt(30, |r| match r.n(3) {
        0 => Position::Top,
        1 => Position::Middle,
        _ => Position::Bottom,
      }),
    }
  }
  fn x(&self) -> E {
    E::n("TableColumn")
      .a("BorderTop", ls(&self.border_top))
      .a("BorderBottom", ls(&self.border_bottom))
      .a("BorderLeft", ls(&self.border_left))
      .a("BorderRight", ls(&self.border_right))
      .oa("rowspan", &self.rowspan)
      .oa("colspan", &self.colspan)
      .oa("Align", &self.align.as_ref().map(|a| al(a).to_string()))
      .oa("Valign", &self.valign.as_ref().map(|p| match p {
        Position::Top => "top".to_string(),
        Position::Middle => "middle".to_string(),
        Position::Bottom => "bottom".to_string(),
      }))
      .ns(g_tcc_nodes(&self.contents))
  }
}

// ------------------------------------------------------------------ paragraphs and items
impl M for Paragraph {
  fn g(r: &mut R) -> Self {
    Paragraph {
      caption: r.opt(20, g_caption),
      paragraph_num: g_text(r),
      amend_provision: if r.p(93) { vec![] } else { r.v(0, 2, AmendProvision::g) },
      class: if r.p(93) { vec![] } else { r.v(0, 2, Class::g) },
      sentence: r.v1(3, Sentence::g),
      struct_list: g_structs(r),
      children: if r.p(50) { vec![] } else { r.v(0, 4, Item::g) },
      num: g_num(r),
      old_style: r.p(15),
      old_num: r.p(15),
      hide: r.p(15),
    }
  }
  fn x(&self) -> E {
    E::n("Paragraph")
      .a("Num", &num_ref(&self.num))
      .fl("OldStyle", self.old_style)
      .fl("OldNum", self.old_num)
      .fl("Hide", self.hide)
      .ok(self.caption.as_ref().map(|c| cap("ParagraphCaption", c)))
      .k(tx("ParagraphNum", &self.paragraph_num))
      .k(E::n("ParagraphSentence").ks(xs(&self.sentence)))
      .ks(xs(&self.amend_provision))
      .ks(xs(&self.class))
      .ks(sx(&self.struct_list))
      .ks(xs(&self.children))
  }
}
impl M for Item {
  fn g(r: &mut R) -> Self {
    Item {
      title: r.opt(85, g_text),
      sentence: g_soct(r),
      children: if r.p(45) { vec![] } else { r.v(0, 3, Subitem1::g) },
      struct_list: g_structs(r),
      num: r.opt(90, g_num),
      delete: r.p(12),
      hide: r.p(12),
    }
  }
  fn x(&self) -> E {
    E::n("Item")
      .a("Num", &self.num.as_ref().map(num_ref).unwrap_or_default())
      .fl("Delete", self.delete)
      .fl("Hide", self.hide)
      .ok(otx("ItemTitle", &self.title))
      .k(soct("ItemSentence", &self.sentence)).ks(xs(&self.children))
      .ks(sx(&self.struct_list))
  }
}
impl M for Subitem1 {
  fn g(r: &mut R) -> Self {
    Subitem1 {
      title: r.opt(85, g_text),
      sentence: g_soct(r),
      children: if r.p(45) { vec![] } else { r.v(0, 3, Subitem2::g) },
      struct_list: g_structs(r),
      num: r.opt(90, g_num),
      delete: r.p(12),
      hide: r.p(12),
    }
  }
  fn x(&self) -> E {
    E::n("Subitem1")
      .a("Num", &self.num.as_ref().map(num_ref).unwrap_or_default())
      .fl("Delete", self.delete)
      .fl("Hide", self.hide)
      .ok(otx("Subitem1Title", &self.title))
      .k(soct("Subitem1Sentence", &self.sentence)).ks(xs(&self.children))
      .ks(sx(&self.struct_list))
  }
}
impl M for Subitem2 {
  fn g(r: &mut R) -> Self {
    Subitem2 {
      title: r.opt(85, g_text),
      sentence: g_soct(r),
      children: if r.p(45) { vec![] } else { r.v(0, 3, Subitem3::g) },
      struct_list: g_structs(r),
      num: r.opt(90, g_num),
      delete: r.p(12),
      hide: r.p(12),
    }
  }
  fn x(&self) -> E {
    E::n("Subitem2")
      .a("Num", &self.num.as_ref().map(num_ref).unwrap_or_default())
      .fl("Delete", self.delete)
      .fl("Hide", self.hide)
      .ok(otx("Subitem2Title", &self.title))
      .k(soct("Subitem2Sentence", &self.sentence)).ks(xs(&self.children))
      .ks(sx(&self.struct_list))
  }
}
impl M for Subitem3 {
  fn g(r: &mut R) -> Self {
    Subitem3 {
      title: r.opt(85, g_text),
      sentence: g_soct(r),
      children: if r.p(45) { vec![] } else { r.v(0, 3, Subitem4::g) },
      struct_list: g_structs(r),
      num: r.opt(90, g_num),
      delete: r.p(12),
      hide: r.p(12),
    }
  }
  fn x(&self) -> E {
    E::n("Subitem3")
      .a("Num", &self.num.as_ref().map(num_ref).unwrap_or_default())
      .fl("Delete", self.delete)
      .fl("Hide", self.hide)
      .ok(otx("Subitem3Title", &self.title))
      .k(soct("Subitem3Sentence", &self.sentence)).ks(xs(&self.children))
      .ks(sx(&self.struct_list))
  }
}
impl M for Subitem4 {
  fn g(r: &mut R) -> Self {
    Subitem4 {
      title: r.opt(85, g_text),
      sentence: g_soct(r),
      children: if r.p(45) { vec![] } else { r.v(0, 3, Subitem5::g) },
      struct_list: g_structs(r),
      num: r.opt(90, g_num),
      delete: r.p(12),
      hide: r.p(12),
    }
  }
  fn x(&self) -> E {
    E::n("Subitem4")
      .a("Num", &self.num.as_ref().map(num_ref).unwrap_or_default())
      .fl("Delete", self.delete)
      .fl("Hide", self.hide)
      .ok(otx("Subitem4Title", &self.title))
      .k(soct("Subitem4Sentence", &self.sentence)).ks(xs(&self.children))
      .ks(sx(&self.struct_list))
  }
}
impl M for Subitem5 {
  fn g(r: &mut R) -> Self {
    Subitem5 {
      title: r.opt(85, g_text),
      sentence: g_soct(r),
      children: if r.p(45) { vec![] } else { r.v(0, 3, Subitem6::g) },
      struct_list: g_structs(r),
      num: r.opt(90, g_num),
      delete: r.p(12),
      hide: r.p(12),
    }
  }
  fn x(&self) -> E {
    E::n("Subitem5")
      .a("Num", &self.num.as_ref().map(num_ref).unwrap_or_default())
      .fl("Delete", self.delete)
      .fl("Hide", self.hide)
      .ok(otx("Subitem5Title", &self.title))
      .k(soct("Subitem5Sentence", &self.sentence)).ks(xs(&self.children))
      .ks(sx(&self.struct_list))
  }
}
impl M for Subitem6 {
  fn g(r: &mut R) -> Self {
    Subitem6 {
      title: r.opt(85, g_text),
      sentence: g_soct(r),
      children: if r.p(45) { vec![] } else { r.v(0, 3, Subitem7::g) },
      struct_list: g_structs(r),
      num: r.opt(90, g_num),
      delete: r.p(12),
      hide: r.p(12),
    }
  }
  fn x(&self) -> E {
    E::n("Subitem6")
      .a("Num", &self.num.as_ref().map(num_ref).unwrap_or_default())
      .fl("Delete", self.delete)
      .fl("Hide", self.hide)
      .ok(otx("Subitem6Title", &self.title))
      .k(soct("Subitem6Sentence", &self.sentence)).ks(xs(&self.children))
      .ks(sx(&self.struct_list))
  }
}
impl M for Subitem7 {
  fn g(r: &mut R) -> Self {
    Subitem7 {
      title: r.opt(85, g_text),
      sentence: g_soct(r),
      children: if r.p(45) { vec![] } else { r.v(0, 3, Subitem8::g) },
      struct_list: g_structs(r),
      num: r.opt(90, g_num),
      delete: r.p(12),
      hide: r.p(12),
    }
  }
  fn x(&self) -> E {
    E::n("Subitem7")
      .a("Num", &self.num.as_ref().map(num_ref).unwrap_or_default())
      .fl("Delete", self.delete)
      .fl("Hide", self.hide)
      .ok(otx("Subitem7Title", &self.title))
      .k(soct("Subitem7Sentence", &self.sentence)).ks(xs(&self.children))
      .ks(sx(&self.struct_list))
  }
}
impl M for Subitem8 {
  fn g(r: &mut R) -> Self {
    Subitem8 {
      title: r.opt(85, g_text),
      sentence: g_soct(r),
      children: if r.p(45) { vec![] } else { r.v(0, 3, Subitem9::g) },
      struct_list: g_structs(r),
      num: r.opt(90, g_num),
      delete: r.p(12),
      hide: r.p(12),
    }
  }
  fn x(&self) -> E {
    E::n("Subitem8")
      .a("Num", &self.num.as_ref().map(num_ref).unwrap_or_default())
      .fl("Delete", self.delete)
      .fl("Hide", self.hide)
      .ok(otx("Subitem8Title", &self.title))
      .k(soct("Subitem8Sentence", &self.sentence)).ks(xs(&self.children))
      .ks(sx(&self.struct_list))
  }
}
impl M for Subitem9 {
  fn g(r: &mut R) -> Self {
    Subitem9 {
      title: r.opt(85, g_text),
      sentence: g_soct(r),
      children: if r.p(45) { vec![] } else { r.v(0, 3, Subitem10::g) },
      struct_list: g_structs(r),
      num: r.opt(90, g_num),
      delete: r.p(12),
      hide: r.p(12),
    }
  }
  fn x(&self) -> E {
    E::n("Subitem9")
      .a("Num", &self.num.as_ref().map(num_ref).unwrap_or_default())
      .fl("Delete", self.delete)
      .fl("Hide", self.hide)
      .ok(otx("Subitem9Title", &self.title))
      .k(soct("Subitem9Sentence", &self.sentence)).ks(xs(&self.children))
      .ks(sx(&self.struct_list))
  }
}
impl M for Subitem10 {
  fn g(r: &mut R) -> Self {
    Subitem10 {
      title: r.opt(85, g_text),
      sentence: g_soct(r),
      
      struct_list: g_structs(r),
      num: r.opt(90, g_num),
      delete: r.p(12),
      hide: r.p(12),
    }
  }
  fn x(&self) -> E {
    E::n("Subitem10")
      .a("Num", &self.num.as_ref().map(num_ref).unwrap_or_default())
      .fl("Delete", self.delete)
      .fl("Hide", self.hide)
      .ok(otx("Subitem10Title", &self.title))
      .k(soct("Subitem10Sentence", &self.sentence))
      .ks(sx(&self.struct_list))
  }
}

// ------------------------------------------------------------------ articles and their hierarchy
impl M for Article {
  fn g(r: &mut R) -> Self {
    Article {
      caption: r.opt(50, g_caption),
      title: g_text(r),
      paragraph: r.v1(3, Paragraph::g),
      suppl_note: r.opt(12, g_text),
      num: g_num(r),
      delete: r.p(12),
      hide: r.p(12),
    }
  }
  fn x(&self) -> E {
    E::n("Article")
      .a("Num", &num_ref(&self.num))
      .fl("Delete", self.delete)
      .fl("Hide", self.hide)
      .ok(self.caption.as_ref().map(|c| cap("ArticleCaption", c)))
      .k(tx("ArticleTitle", &self.title))
      .ks(xs(&self.paragraph))
      .ok(otx("SupplNote", &self.suppl_note))
  }
}
impl M for Part {
  fn g(r: &mut R) -> Self {
    Part {
      part_title: g_text(r),
      children: r.v(0, 4, |r| match r.n(2) {
        0 => PartContents::Article(Article::g(r)),
        _ => PartContents::Chapter(Chapter::g(r)),
      }),
      num: g_num(r),
      delete: r.p(12),
      hide: r.p(12),
    }
  }
  fn x(&self) -> E {
    E::n("Part").a("Num", &num_ref(&self.num)).fl("Delete", self.delete).fl("Hide", self.hide).k(tx("PartTitle", &self.part_title)).ks(self.children.iter().map(|c| match c {
        PartContents::Article(v) => v.x(),
        PartContents::Chapter(v) => v.x(),
      }))
  }
}
impl M for Chapter {
  fn g(r: &mut R) -> Self {
    Chapter {
      chapter_title: g_text(r),
      children: r.v(0, 4, |r| match r.n(2) {
        0 => ChapterContents::Article(Article::g(r)),
        _ => ChapterContents::Section(Section::g(r)),
      }),
      num: g_num(r),
      delete: r.p(12),
      hide: r.p(12),
    }
  }
  fn x(&self) -> E {
    E::n("Chapter").a("Num", &num_ref(&self.num)).fl("Delete", self.delete).fl("Hide", self.hide).k(tx("ChapterTitle", &self.chapter_title)).ks(self.children.iter().map(|c| match c {
        ChapterContents::Article(v) => v.x(),
        ChapterContents::Section(v) => v.x(),
      }))
  }
}
impl M for Section {
  fn g(r: &mut R) -> Self {
    Section {
      section_title: g_text(r),
      children: r.v(0, 4, |r| match r.n(3) {
        0 => SectionContents::Article(Article::g(r)),
        1 => SectionContents::Subsection(Subsection::g(r)),
        _ => SectionContents::Division(Division::g(r)),
      }),
      num: g_num(r),
      delete: r.p(12),
      hide: r.p(12),
    }
  }
  fn x(&self) -> E {
    E::n("Section").a("Num", &num_ref(&self.num)).fl("Delete", self.delete).fl("Hide", self.hide).k(tx("SectionTitle", &self.section_title)).ks(self.children.iter().map(|c| match c {
        SectionContents::Article(v) => v.x(),
        SectionContents::Subsection(v) => v.x(),
        SectionContents::Division(v) => v.x(),
      }))
  }
}
impl M for Subsection {
  fn g(r: &mut R) -> Self {
    Subsection {
      subsection_title: g_text(r),
      children: r.v(0, 4, |r| match r.n(2) {
        0 => SubsectionContents::Article(Article::g(r)),
        _ => SubsectionContents::Division(Division::g(r)),
      }),
      num: g_num(r),
      delete: r.p(12),
      hide: r.p(12),
    }
  }
  fn x(&self) -> E {
    E::n("Subsection").a("Num", &num_ref(&self.num)).fl("Delete", self.delete).fl("Hide", self.hide).k(tx("SubsectionTitle", &self.subsection_title)).ks(self.children.iter().map(|c| match c {
        SubsectionContents::Article(v) => v.x(),
        SubsectionContents::Division(v) => v.x(),
      }))
  }
}
impl M for Division {
  fn g(r: &mut R) -> Self {
    Division {
      division_title: g_text(r),
      children: r.v(0, 3, Article::g),
      num: g_num(r),
      delete: r.p(12),
      hide: r.p(12),
    }
  }
  fn x(&self) -> E {
    E::n("Division").a("Num", &num_ref(&self.num)).fl("Delete", self.delete).fl("Hide", self.hide).k(tx("DivisionTitle", &self.division_title)).ks(xs(&self.children))
  }
}

// ------------------------------------------------------------------ table of contents
impl M for TOC {
  fn g(r: &mut R) -> Self {
    TOC {
      toc_label: r.opt(80, g_text),
      toc_preamble_label: r.opt(40, g_text),
      toc_main_contents: r.v(0, 5, |r| match r.n(4) {
        0 => TOCMainContents::TOCPart(TOCPart::g(r)),
        1 => TOCMainContents::TOCChapter(TOCChapter::g(r)),
        2 => TOCMainContents::TOCSection(TOCSection::g(r)),
        _ => TOCMainContents::TOCArticle(TOCArticle::g(r)),
      }),
      toc_suppl_provision: r.opt(40, TOCSupplProvision::g),
      toc_appdx_table_label: r.v(0, 2, g_text),
    }
  }
  fn x(&self) -> E {
    E::n("TOC")
      .ok(otx("TOCLabel", &self.toc_label))
      .ok(otx("TOCPreambleLabel", &self.toc_preamble_label))
      .ks(self.toc_main_contents.iter().map(|c| match c {
        TOCMainContents::TOCPart(v) => v.x(),
        TOCMainContents::TOCChapter(v) => v.x(),
        TOCMainContents::TOCSection(v) => v.x(),
        TOCMainContents::TOCArticle(v) => v.x(),
      }))
      .ok(ox(&self.toc_suppl_provision))
      .ks(self.toc_appdx_table_label.iter().map(|t| tx("TOCAppdxTableLabel", t)))
  }
}
impl M for TOCPart {
  fn g(r: &mut R) -> Self {
    TOCPart { part_title: g_text(r), article_range: r.opt(50, g_text), num: g_num(r), delete: r.p(15), children: r.v(0, 3, TOCChapter::g), }
  }
  fn x(&self) -> E {
    E::n("TOCPart").a("Num", &num_ref(&self.num)).fl("Delete", self.delete).k(tx("PartTitle", &self.part_title)).ok(otx("ArticleRange", &self.article_range)).ks(xs(&self.children))
  }
}
impl M for TOCChapter {
  fn g(r: &mut R) -> Self {
    TOCChapter { chapter_title: g_text(r), article_range: r.opt(50, g_text), num: g_num(r), delete: r.p(15), children: r.v(0, 3, TOCSection::g), }
  }
  fn x(&self) -> E {
    E::n("TOCChapter").a("Num", &num_ref(&self.num)).fl("Delete", self.delete).k(tx("ChapterTitle", &self.chapter_title)).ok(otx("ArticleRange", &self.article_range)).ks(xs(&self.children))
  }
}
impl M for TOCSection {
  fn g(r: &mut R) -> Self {
    TOCSection { section_title: g_text(r), article_range: r.opt(50, g_text), num: g_num(r), delete: r.p(15), children: r.v(0, 3, |r| match r.n(2) {
        0 => TOCSectionContents::TOCSubsection(TOCSubsection::g(r)),
        _ => TOCSectionContents::TOCDivision(TOCDivision::g(r)),
      }), }
  }
  fn x(&self) -> E {
    E::n("TOCSection").a("Num", &num_ref(&self.num)).fl("Delete", self.delete).k(tx("SectionTitle", &self.section_title)).ok(otx("ArticleRange", &self.article_range)).ks(self.children.iter().map(|c| match c {
        TOCSectionContents::TOCSubsection(v) => v.x(),
        TOCSectionContents::TOCDivision(v) => v.x(),
      }))
  }
}
impl M for TOCSubsection {
  fn g(r: &mut R) -> Self {
    TOCSubsection { subsection_title: g_text(r), article_range: r.opt(50, g_text), num: g_num(r), delete: r.p(15), children: r.v(0, 3, TOCDivision::g), }
  }
  fn x(&self) -> E {
    E::n("TOCSubsection").a("Num", &num_ref(&self.num)).fl("Delete", self.delete).k(tx("SubsectionTitle", &self.subsection_title)).ok(otx("ArticleRange", &self.article_range)).ks(xs(&self.children))
  }
}
impl M for TOCDivision {
  fn g(r: &mut R) -> Self {
    TOCDivision { division_title: g_text(r), article_range: r.opt(50, g_text), num: g_num(r), delete: r.p(15),  }
  }
  fn x(&self) -> E {
    E::n("TOCDivision").a("Num", &num_ref(&self.num)).fl("Delete", self.delete).k(tx("DivisionTitle", &self.division_title)).ok(otx("ArticleRange", &self.article_range))
  }
}
impl M for TOCArticle {
  fn g(r: &mut R) -> Self {
    TOCArticle { article_title: g_text(r), article_caption: g_caption(r), num: g_num(r), delete: r.p(15) }
  }
  fn x(&self) -> E {
    E::n("TOCArticle").a("Num", &num_ref(&self.num)).fl("Delete", self.delete).k(tx("ArticleTitle", &self.article_title)).k(cap("ArticleCaption", &self.article_caption))
  }
}
impl M for TOCSupplProvision {
  fn g(r: &mut R) -> Self {
    TOCSupplProvision { suppl_provision_label: g_text(r), article_range: r.opt(40, g_text), children: r.v(0, 2, |r| match r.n(2) {
        0 => TOCSupplProvisionContents::TOCArticle(TOCArticle::g(r)),
        _ => TOCSupplProvisionContents::TOCChapter(TOCChapter::g(r)),
      }) }
  }
  fn x(&self) -> E {
    E::n("TOCSupplProvision").k(tx("SupplProvisionLabel", &self.suppl_provision_label)).ok(otx("ArticleRange", &self.article_range)).ks(self.children.iter().map(|c| match c {
        TOCSupplProvisionContents::TOCArticle(v) => v.x(),
        TOCSupplProvisionContents::TOCChapter(v) => v.x(),
      }))
  }
}

// ------------------------------------------------------------------ appended tables etc.
impl M for AppdxTable {
  fn g(r: &mut R) -> Self {
    AppdxTable {
      title: r.opt(80, g_wtext),
      related_article_num: r.opt(60, g_text),
      children: r.v(0, 3, |r| match r.n(2) {
        0 => AppdxTableContents::TableStruct(TableStruct::g(r)),
        _ => AppdxTableContents::Item(Item::g(r)),
      }),
      remarks: r.sopt(30, Remarks::g),
      num: r.opt(60, |r| r.attr()),
    }
  }
  fn x(&self) -> E {
    E::n("AppdxTable").oa("Num", &self.num).ok(owtx("AppdxTableTitle", &self.title)).ok(otx("RelatedArticleNum", &self.related_article_num)).ks(self.children.iter().map(|c| match c {
        AppdxTableContents::TableStruct(v) => v.x(),
        AppdxTableContents::Item(v) => v.x(),
      })).ok(ox(&self.remarks))
  }
}
impl M for AppdxNote {
  fn g(r: &mut R) -> Self {
    AppdxNote {
      title: r.opt(80, g_wtext),
      related_article_num: r.opt(60, g_text),
      children: r.v(0, 3, |r| match r.n(3) {
        0 => AppdxNoteContents::NoteStruct(NoteStruct::g(r)),
        1 => AppdxNoteContents::FigStruct(FigStruct::g(r)),
        _ => AppdxNoteContents::TableStruct(TableStruct::g(r)),
      }),
      remarks: r.sopt(30, Remarks::g),
      num: r.opt(60, |r| r.attr()),
    }
  }
  fn x(&self) -> E {
    E::n("AppdxNote").oa("Num", &self.num).ok(owtx("AppdxNoteTitle", &self.title)).ok(otx("RelatedArticleNum", &self.related_article_num)).ks(self.children.iter().map(|c| match c {
        AppdxNoteContents::NoteStruct(v) => v.x(),
        AppdxNoteContents::FigStruct(v) => v.x(),
        AppdxNoteContents::TableStruct(v) => v.x(),
      })).ok(ox(&self.remarks))
  }
}
impl M for AppdxFig {
  fn g(r: &mut R) -> Self {
    AppdxFig {
      title: r.opt(80, g_wtext),
      related_article_num: r.opt(60, g_text),
      children: r.v(0, 3, |r| match r.n(2) {
        0 => AppdxFigContents::FigStruct(FigStruct::g(r)),
        _ => AppdxFigContents::TableStruct(TableStruct::g(r)),
      }),
      
      num: r.opt(60, |r| r.attr()),
    }
  }
  fn x(&self) -> E {
    E::n("AppdxFig").oa("Num", &self.num).ok(owtx("AppdxFigTitle", &self.title)).ok(otx("RelatedArticleNum", &self.related_article_num)).ks(self.children.iter().map(|c| match c {
        AppdxFigContents::FigStruct(v) => v.x(),
        AppdxFigContents::TableStruct(v) => v.x(),
      }))
  }
}
impl M for AppdxStyle {
  fn g(r: &mut R) -> Self {
    AppdxStyle {
      title: r.opt(80, g_wtext),
      related_article_num: r.opt(60, g_text),
      children: r.v(0, 3, StyleStruct::g),
      remarks: r.sopt(30, Remarks::g),
      num: r.opt(60, |r| r.attr()),
    }
  }
  fn x(&self) -> E {
    E::n("AppdxStyle").oa("Num", &self.num).ok(owtx("AppdxStyleTitle", &self.title)).ok(otx("RelatedArticleNum", &self.related_article_num)).ks(xs(&self.children)).ok(ox(&self.remarks))
  }
}
impl M for AppdxFormat {
  fn g(r: &mut R) -> Self {
    AppdxFormat {
      title: r.opt(80, g_wtext),
      related_article_num: r.opt(60, g_text),
      children: r.v(0, 3, FormatStruct::g),
      remarks: r.sopt(30, Remarks::g),
      num: r.opt(60, |r| r.attr()),
    }
  }
  fn x(&self) -> E {
    E::n("AppdxFormat").oa("Num", &self.num).ok(owtx("AppdxFormatTitle", &self.title)).ok(otx("RelatedArticleNum", &self.related_article_num)).ks(xs(&self.children)).ok(ox(&self.remarks))
  }
}
impl M for Appdx {
  fn g(r: &mut R) -> Self {
    Appdx { arith_formula_num: r.opt(60, g_text), related_article_num: r.opt(60, g_text), arith_formula: r.v1(2, ArithFormula::g), remarks: r.sopt(30, Remarks::g) }
  }
  fn x(&self) -> E {
    E::n("Appdx").ok(otx("ArithFormulaNum", &self.arith_formula_num)).ok(otx("RelatedArticleNum", &self.related_article_num)).ks(xs(&self.arith_formula)).ok(ox(&self.remarks))
  }
}
impl M for SupplProvisionAppdxTable {
  fn g(r: &mut R) -> Self {
    SupplProvisionAppdxTable { title: g_wtext(r), related_article_num: r.opt(60, g_text), table_struct: r.v(0, 2, TableStruct::g), num: r.opt(60, |r| r.attr()) }
  }
  fn x(&self) -> E {
    E::n("SupplProvisionAppdxTable").oa("Num", &self.num).k(wtx("SupplProvisionAppdxTableTitle", &self.title)).ok(otx("RelatedArticleNum", &self.related_article_num)).ks(xs(&self.table_struct))
  }
}
impl M for SupplProvisionAppdxStyle {
  fn g(r: &mut R) -> Self {
    SupplProvisionAppdxStyle { title: g_wtext(r), related_article_num: r.opt(60, g_text), style_struct: r.v(0, 2, StyleStruct::g), num: r.opt(60, |r| r.attr()) }
  }
  fn x(&self) -> E {
    E::n("SupplProvisionAppdxStyle").oa("Num", &self.num).k(wtx("SupplProvisionAppdxStyleTitle", &self.title)).ok(otx("RelatedArticleNum", &self.related_article_num)).ks(xs(&self.style_struct))
  }
}
impl M for SupplProvisionAppdx {
  fn g(r: &mut R) -> Self {
    SupplProvisionAppdx { arith_formula_num: r.opt(60, g_text), related_article_num: r.opt(60, g_text), arith_formula: r.v(0, 2, ArithFormula::g), num: r.opt(60, |r| r.attr()) }
  }
  fn x(&self) -> E {
    E::n("SupplProvisionAppdx").oa("Num", &self.num).ok(otx("ArithFormulaNum", &self.arith_formula_num)).ok(otx("RelatedArticleNum", &self.related_article_num)).ks(xs(&self.arith_formula))
  }
}
impl M for SupplProvision {
  fn g(r: &mut R) -> Self {
    SupplProvision {
      label: g_text(r),
      children: r.v(0, 5, |r| match r.n(6) {
        0 => SupplProvisionChildrenElement::Chapter(Chapter::g(r)),
        1 => SupplProvisionChildrenElement::Article(Article::g(r)),
        2 => SupplProvisionChildrenElement::Paragraph(Paragraph::g(r)),
        3 => SupplProvisionChildrenElement::SupplProvisionAppdxTable(SupplProvisionAppdxTable::g(r)),
        4 => SupplProvisionChildrenElement::SupplProvisionAppdxStyle(SupplProvisionAppdxStyle::g(r)),
        _ => SupplProvisionChildrenElement::SupplProvisionAppdx(SupplProvisionAppdx::g(r)),
      }),
      suppl_provision_type: match r.n(3) {
        0 => Some(SupplProvisionType::New),
        1 => Some(SupplProvisionType::Amend),
        _ => None,
      },
      amend_law_num: r.opt(50, |r| r.attr()),
      extract: r.opt(30, |r| r.p(50)),
    }
  }
  fn x(&self) -> E {
    E::n("SupplProvision")
      .oa("Type", &self.suppl_provision_type.as_ref().map(|t| match t {
        SupplProvisionType::New => "New".to_string(),
        SupplProvisionType::Amend => "Amend".to_string(),
      }))
      .oa("AmendLawNum", &self.amend_law_num)
      .oa("Extract", &self.extract.map(|b| b.to_string()))
      .k(tx("SupplProvisionLabel", &self.label))
      .ks(self.children.iter().map(|c| match c {
        SupplProvisionChildrenElement::Chapter(v) => v.x(),
        SupplProvisionChildrenElement::Article(v) => v.x(),
        SupplProvisionChildrenElement::Paragraph(v) => v.x(),
        SupplProvisionChildrenElement::SupplProvisionAppdxTable(v) => v.x(),
        SupplProvisionChildrenElement::SupplProvisionAppdxStyle(v) => v.x(),
        SupplProvisionChildrenElement::SupplProvisionAppdx(v) => v.x(),
      }))
  }
}

// ------------------------------------------------------------------ amendments
pub fn g_newprov(r: &mut R) -> NewProvision {
  if r.full() {
    return NewProvision::Sentence(Sentence::g(r));
  }
  match r.n(48) {
    0 => NewProvision::LawTitle(LawTitle::g(r)),
    1 => NewProvision::Preamble(Preamble::g(r)),
    2 => NewProvision::TOC(TOC::g(r)),
    3 => NewProvision::Part(Part::g(r)),
    4 => NewProvision::PartTitle(g_text(r)),
    5 => NewProvision::Chapter(Chapter::g(r)),
    6 => NewProvision::ChapterTitle(g_text(r)),
    7 => NewProvision::Section(Section::g(r)),
    8 => NewProvision::SectionTitle(g_text(r)),
    9 => NewProvision::Subsection(Subsection::g(r)),
    10 => NewProvision::SubsectionTitle(g_text(r)),
    11 => NewProvision::Division(Division::g(r)),
    12 => NewProvision::DivisionTitle(g_text(r)),
    13 => NewProvision::Article(Article::g(r)),
    14 => NewProvision::SupplNote(g_text(r)),
    15 => NewProvision::Paragraph(Paragraph::g(r)),
    16 => NewProvision::Item(Item::g(r)),
    17 => NewProvision::Subitem1(Subitem1::g(r)),
    18 => NewProvision::Subitem2(Subitem2::g(r)),
    19 => NewProvision::Subitem3(Subitem3::g(r)),
    20 => NewProvision::Subitem4(Subitem4::g(r)),
    21 => NewProvision::Subitem5(Subitem5::g(r)),
    22 => NewProvision::Subitem6(Subitem6::g(r)),
    23 => NewProvision::Subitem7(Subitem7::g(r)),
    24 => NewProvision::Subitem8(Subitem8::g(r)),
    25 => NewProvision::Subitem9(Subitem9::g(r)),
    26 => NewProvision::Subitem10(Subitem10::g(r)),
    27 => NewProvision::List(List::g(r)),
    28 => NewProvision::Sentence(Sentence::g(r)),
    29 => NewProvision::AmendProvision(AmendProvision::g(r)),
    30 => NewProvision::AppdxTable(AppdxTable::g(r)),
    31 => NewProvision::AppdxNote(AppdxNote::g(r)),
    32 => NewProvision::AppdxStyle(AppdxStyle::g(r)),
    33 => NewProvision::Appdx(Appdx::g(r)),
    34 => NewProvision::AppdxFig(AppdxFig::g(r)),
    35 => NewProvision::AppdxFormat(AppdxFormat::g(r)),
    36 => NewProvision::SupplProvisionAppdxStyle(SupplProvisionAppdxStyle::g(r)),
    37 => NewProvision::SupplProvisionAppdxTable(SupplProvisionAppdxTable::g(r)),
    38 => NewProvision::SupplProvisionAppdx(SupplProvisionAppdx::g(r)),
    39 => NewProvision::TableStruct(TableStruct::g(r)),
    40 => NewProvision::TableRow(TableRow::g(r)),
    41 => NewProvision::TableColumn(TableColumn::g(r)),
    42 => NewProvision::FigStruct(FigStruct::g(r)),
    43 => NewProvision::NoteStruct(NoteStruct::g(r)),
    44 => NewProvision::StyleStruct(StyleStruct::g(r)),
    45 => NewProvision::FormatStruct(FormatStruct::g(r)),
    46 => NewProvision::Remarks(Remarks::g(r)),
    _ => NewProvision::LawBody(Box::new(LawBody::g(r))),
  }
}
fn newprov(n: &NewProvision) -> E {
  match n {
    NewProvision::LawTitle(v) => v.x(),
    NewProvision::Preamble(v) => v.x(),
    NewProvision::TOC(v) => v.x(),
    NewProvision::Part(v) => v.x(),
    NewProvision::PartTitle(v) => tx("PartTitle", v),
    NewProvision::Chapter(v) => v.x(),
    NewProvision::ChapterTitle(v) => tx("ChapterTitle", v),
    NewProvision::Section(v) => v.x(),
    NewProvision::SectionTitle(v) => tx("SectionTitle", v),
    NewProvision::Subsection(v) => v.x(),
    NewProvision::SubsectionTitle(v) => tx("SubsectionTitle", v),
    NewProvision::Division(v) => v.x(),
    NewProvision::DivisionTitle(v) => tx("DivisionTitle", v),
    NewProvision::Article(v) => v.x(),
    NewProvision::SupplNote(v) => tx("SupplNote", v),
    NewProvision::Paragraph(v) => v.x(),
    NewProvision::Item(v) => v.x(),
    NewProvision::Subitem1(v) => v.x(),
    NewProvision::Subitem2(v) => v.x(),
    NewProvision::Subitem3(v) => v.x(),
    NewProvision::Subitem4(v) => v.x(),
    NewProvision::Subitem5(v) => v.x(),
    NewProvision::Subitem6(v) => v.x(),
    NewProvision::Subitem7(v) => v.x(),
    NewProvision::Subitem8(v) => v.x(),
    NewProvision::Subitem9(v) => v.x(),
    NewProvision::Subitem10(v) => v.x(),
    NewProvision::List(v) => v.x(),
    NewProvision::Sentence(v) => v.x(),
    NewProvision::AmendProvision(v) => v.x(),
    NewProvision::AppdxTable(v) => v.x(),
    NewProvision::AppdxNote(v) => v.x(),
    NewProvision::AppdxStyle(v) => v.x(),
    NewProvision::Appdx(v) => v.x(),
    NewProvision::AppdxFig(v) => v.x(),
    NewProvision::AppdxFormat(v) => v.x(),
    NewProvision::SupplProvisionAppdxStyle(v) => v.x(),
    NewProvision::SupplProvisionAppdxTable(v) => v.x(),
    NewProvision::SupplProvisionAppdx(v) => v.x(),
    NewProvision::TableStruct(v) => v.x(),
    NewProvision::TableRow(v) => v.x(),
    NewProvision::TableColumn(v) => v.x(),
    NewProvision::FigStruct(v) => v.x(),
    NewProvision::NoteStruct(v) => v.x(),
    NewProvision::StyleStruct(v) => v.x(),
    NewProvision::FormatStruct(v) => v.x(),
    NewProvision::Remarks(v) => v.x(),
    NewProvision::LawBody(v) => v.x(),
  }
}
impl M for AmendProvision {
  fn g(r: &mut R) -> Self {
    AmendProvision { sentence: r.opt(70, Sentence::g), new_provision: r.v(0, 3, g_newprov) }
  }
  fn x(&self) -> E {
    let mut e = E::n("AmendProvision");
    if let Some(s) = &self.sentence {
      e = e.k(E::n("AmendProvisionSentence").k(s.x()));
    }
    e.ks(self.new_provision.iter().map(|n| E::n("NewProvision").k(newprov(n))))
  }
}

// ------------------------------------------------------------------ the law itself
impl M for LawTitle {
  fn g(r: &mut R) -> Self {
    LawTitle { kana: r.opt(40, |r| r.attr()), abbrev: r.opt(40, |r| r.attr()), abbrev_kana: r.opt(40, |r| r.attr()), text: g_text(r) }
  }
  fn x(&self) -> E {
    tx("LawTitle", &self.text).oa("Kana", &self.kana).oa("Abbrev", &self.abbrev).oa("AbbrevKana", &self.abbrev_kana)
  }
}
impl M for Preamble {
  fn g(r: &mut R) -> Self {
    Preamble { children: r.v1(2, Paragraph::g) }
  }
  fn x(&self) -> E {
    E::n("Preamble").ks(xs(&self.children))
  }
}
impl M for MainProvision {
  fn g(r: &mut R) -> Self {
    MainProvision { children: r.v(0, 6, |r| match r.n(5) {
        0 => MainProvisionContents::Part(Part::g(r)),
        1 => MainProvisionContents::Chapter(Chapter::g(r)),
        2 => MainProvisionContents::Section(Section::g(r)),
        3 => MainProvisionContents::Article(Article::g(r)),
        _ => MainProvisionContents::Paragraph(Paragraph::g(r)),
      }), extract: r.opt(20, |r| r.p(50)) }
  }
  fn x(&self) -> E {
    E::n("MainProvision").oa("Extract", &self.extract.map(|b| b.to_string())).ks(self.children.iter().map(|c| match c {
        MainProvisionContents::Part(v) => v.x(),
        MainProvisionContents::Chapter(v) => v.x(),
        MainProvisionContents::Section(v) => v.x(),
        MainProvisionContents::Article(v) => v.x(),
        MainProvisionContents::Paragraph(v) => v.x(),
      }))
  }
}
impl M for LawBody {
  fn g(r: &mut R) -> Self {
    // sections are generated in a random order of *generation* so that the node budget is not
    // always spent on the same ones
    let mut b = LawBody {
      law_title: r.opt(85, LawTitle::g),
      enact_statement: r.v(0, 2, g_text),
      subject: r.opt(30, |r| r.attr()),
      toc: None,
      preamble: None,
      main_provision: MainProvision { children: vec![], extract: None },
      suppl_provision: vec![],
      appdx_table: vec![],
      appdx_note: vec![],
      appdx_style: vec![],
      appdx: vec![],
      appdx_fig: vec![],
      appdx_format: vec![],
    };
    let mut order: Vec<usize> = (0..10).collect();
    r.shuffle(&mut order);
    for o in order {
      match o {
        0 => b.toc = r.sopt(50, TOC::g),
        1 => b.preamble = r.sopt(30, Preamble::g),
        2 => b.main_provision = MainProvision::g(r),
        3 => b.suppl_provision = r.v(0, 3, SupplProvision::g),
        4 => b.appdx_table = r.v(0, 2, AppdxTable::g),
        5 => b.appdx_note = r.v(0, 2, AppdxNote::g),
        6 => b.appdx_style = r.v(0, 2, AppdxStyle::g),
        7 => b.appdx = r.v(0, 2, Appdx::g),
        8 => b.appdx_fig = r.v(0, 2, AppdxFig::g),
        _ => b.appdx_format = r.v(0, 2, AppdxFormat::g),
      }
    }
    b
  }
  fn x(&self) -> E {
    E::n("LawBody")
      .oa("Subject", &self.subject)
      .ok(ox(&self.law_title))
      .ks(self.enact_statement.iter().map(|t| tx("EnactStatement", t)))
      .ok(ox(&self.toc))
      .ok(ox(&self.preamble))
      .k(self.main_provision.x())
      .ks(xs(&self.suppl_provision))
      .ks(xs(&self.appdx_table))
      .ks(xs(&self.appdx_note))
      .ks(xs(&self.appdx_style))
      .ks(xs(&self.appdx))
      .ks(xs(&self.appdx_fig))
      .ks(xs(&self.appdx_format))
  }
}
pub fn era_name(v: &Era) -> &'static str {
  match v {
    Era::Meiji => "Meiji",
    Era::Taisho => "Taisho",
    Era::Showa => "Showa",
    Era::Heisei => "Heisei",
    Era::Reiwa => "Reiwa",
  }
}
pub fn g_era_name(r: &mut R) -> Era {
  match r.n(5) {
    0 => Era::Meiji,
    1 => Era::Taisho,
    2 => Era::Showa,
    3 => Era::Heisei,
    _ => Era::Reiwa,
  }
}
pub fn law_type_name(v: &LawType) -> &'static str {
  match v {
    LawType::Constitution => "Constitution",
    LawType::Act => "Act",
    LawType::CabinetOrder => "CabinetOrder",
    LawType::ImperialOrder => "ImperialOrder",
    LawType::MinisterialOrdinance => "MinisterialOrdinance",
    LawType::Rule => "Rule",
    LawType::Misc => "Misc",
  }
}
pub fn g_law_type_name(r: &mut R) -> LawType {
  match r.n(7) {
    0 => LawType::Constitution,
    1 => LawType::Act,
    2 => LawType::CabinetOrder,
    3 => LawType::ImperialOrder,
    4 => LawType::MinisterialOrdinance,
    5 => LawType::Rule,
    _ => LawType::Misc,
  }
}
pub fn lang_name(v: &Lang) -> &'static str {
  match v {
    Lang::Ja => "ja",
    Lang::En => "en",
  }
}
pub fn g_lang_name(r: &mut R) -> Lang {
  match r.n(2) {
    0 => Lang::Ja,
    _ => Lang::En,
  }
}
impl M for Law {
  fn g(r: &mut R) -> Self {
    Law {
      era: g_era_name(r),
      year: r.rg(1, 70),
      num: r.opt(85, g_num),
      promulgate_month: r.opt(70, |r| r.rg(1, 12)),
      promulgate_day: r.opt(70, |r| r.rg(1, 31)),
      law_type: g_law_type_name(r),
      lang: g_lang_name(r),
      law_num: if r.p(95) { r.text() } else { String::new() },
      law_body: LawBody::g(r),
    }
  }
  fn x(&self) -> E {
    let n = if self.law_num.is_empty() { E::n("LawNum") } else { E::n("LawNum").t(&self.law_num) };
    E::n("Law")
      .a("Era", era_name(&self.era))
      .a("Year", &self.year.to_string())
      .a("Num", &self.num.as_ref().map(num_ref).unwrap_or_default())
      .oa("PromulgateMonth", &on(&self.promulgate_month))
      .oa("PromulgateDay", &on(&self.promulgate_day))
      .a("LawType", law_type_name(&self.law_type))
      .a("Lang", lang_name(&self.lang))
      .k(n)
      .k(self.law_body.x())
  }
}
