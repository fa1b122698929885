//! P11–P14: listings, table of contents, plain-text rendering.

use super::*;
use crate::model::*;
use japanese_law_xml_schema::article::*;
use japanese_law_xml_schema::article_number::ArticleNumber;
use japanese_law_xml_schema::class::*;
use japanese_law_xml_schema::contents::*;
use japanese_law_xml_schema::law::*;
use japanese_law_xml_schema::paragraph::*;
use japanese_law_xml_schema::sentence::*;
use japanese_law_xml_schema::suppl_provision::*;
use japanese_law_xml_schema::table::*;
use japanese_law_xml_schema::text::*;
use japanese_law_xml_schema::utils::*;

type AN = ArticleNumber;
/// part, chapter, section, subsection, division
type Path = [Option<AN>; 5];

#[derive(Clone, Copy)]
enum Node<'a> {
  Part(&'a Part),
  Chapter(&'a Chapter),
  Section(&'a Section),
  Subsection(&'a Subsection),
  Division(&'a Division),
  Article(&'a Article),
}

impl<'a> Node<'a> {
  fn level(&self) -> usize {
    match self {
      Node::Part(_) => 0,
      Node::Chapter(_) => 1,
      Node::Section(_) => 2,
      Node::Subsection(_) => 3,
      Node::Division(_) => 4,
      Node::Article(_) => 5,
    }
  }
  fn num(&self) -> &'a AN {
    match self {
      Node::Part(t) => &t.num,
      Node::Chapter(t) => &t.num,
      Node::Section(t) => &t.num,
      Node::Subsection(t) => &t.num,
      Node::Division(t) => &t.num,
      Node::Article(t) => &t.num,
    }
  }
  fn title(&self) -> String {
    let t = match self {
      Node::Part(t) => &t.part_title,
      Node::Chapter(t) => &t.chapter_title,
      Node::Section(t) => &t.section_title,
      Node::Subsection(t) => &t.subsection_title,
      Node::Division(t) => &t.division_title,
      Node::Article(t) => &t.title,
    };
    ref_text(&t.contents)
  }
  fn kids(&self) -> Vec<Node<'a>> {
    match self {
      Node::Part(t) => t.children.iter().map(|k| match k {
        PartContents::Article(a) => Node::Article(a),
        PartContents::Chapter(a) => Node::Chapter(a),
      }).collect(),
      Node::Chapter(t) => t.children.iter().map(|k| match k {
        ChapterContents::Article(a) => Node::Article(a),
        ChapterContents::Section(a) => Node::Section(a),
      }).collect(),
      Node::Section(t) => t.children.iter().map(|k| match k {
        SectionContents::Article(a) => Node::Article(a),
        SectionContents::Subsection(a) => Node::Subsection(a),
        SectionContents::Division(a) => Node::Division(a),
      }).collect(),
      Node::Subsection(t) => t.children.iter().map(|k| match k {
        SubsectionContents::Article(a) => Node::Article(a),
        SubsectionContents::Division(a) => Node::Division(a),
      }).collect(),
      Node::Division(t) => t.children.iter().map(Node::Article).collect(),
      Node::Article(_) => vec![],
    }
  }
}

/// one thing a provision contains
enum Top<'a> {
  Node(Node<'a>),
  Paragraph(&'a Paragraph),
  Other,
}
fn tops_main(m: &MainProvision) -> Vec<Top<'_>> {
  m.children.iter().map(|k| match k {
    MainProvisionContents::Part(t) => Top::Node(Node::Part(t)),
    MainProvisionContents::Chapter(t) => Top::Node(Node::Chapter(t)),
    MainProvisionContents::Section(t) => Top::Node(Node::Section(t)),
    MainProvisionContents::Article(t) => Top::Node(Node::Article(t)),
    MainProvisionContents::Paragraph(t) => Top::Paragraph(t),
  }).collect()
}
fn tops_suppl(s: &SupplProvision) -> Vec<Top<'_>> {
  s.children.iter().map(|k| match k {
    SupplProvisionChildrenElement::Chapter(t) => Top::Node(Node::Chapter(t)),
    SupplProvisionChildrenElement::Article(t) => Top::Node(Node::Article(t)),
    SupplProvisionChildrenElement::Paragraph(t) => Top::Paragraph(t),
    _ => Top::Other,
  }).collect()
}

/// every heading with the numbers of the headings around it and its own
fn walk<'a>(n: Node<'a>, path: &Path, out: &mut Vec<(Path, Node<'a>)>) {
  let mut p = path.clone();
  if n.level() < 5 {
    p[n.level()] = Some(n.num().clone());
  }
  out.push((p.clone(), n));
  for k in n.kids() {
    walk(k, &p, out);
  }
}
fn headings<'a>(tops: &[Top<'a>]) -> Vec<(Path, Node<'a>)> {
  let mut v = vec![];
  for t in tops {
    if let Top::Node(n) = t {
      walk(*n, &Path::default(), &mut v);
    }
  }
  v
}
/// the uninterrupted runs of paragraphs; `other` says whether appendices interrupt a run
fn runs(tops: &[Top<'_>], other: bool) -> Vec<Vec<Paragraph>> {
  let mut v = vec![];
  let mut cur = vec![];
  for t in tops {
    match t {
      Top::Paragraph(p) => cur.push((*p).clone()),
      Top::Other if !other => (),
      _ => v.push(std::mem::take(&mut cur)),
    }
  }
  v.push(cur);
  v.retain(|r| !r.is_empty());
  v
}

fn shape(p: &Path) -> String {
  p.iter().map(|x| if x.is_some() { '1' } else { '0' }).collect()
}

fn gen_provisions(r: &mut R) -> (MainProvision, Vec<SupplProvision>) {
  reset();
  r.profile();
  r.b = *r.pick(&[10, 30, 60, 120, 250]);
  if r.p(40) {
    return gen_headings(r);
  }
  let m = MainProvision::g(r);
  r.b = *r.pick(&[10, 40, 80]);
  let k = r.rg(0, 2);
  let s = (0..k).map(|_| SupplProvision::g(r)).collect();
  (m, s)
}

/// some values; now and then a great many, each as small as can be
fn few<T>(r: &mut R, lo: usize, max: usize, mut f: impl FnMut(&mut R) -> T) -> Vec<T> {
  if !r.sized {
    let k = crate::dict::size(r, 1, 300).or(if r.n(400) == 0 { Some(if r.p(75) { r.rg(10, 70) } else { r.rg(70, 300) }) } else { None });
    if let Some(k) = k {
      r.sized = true;
      let v = (0..k).map(|_| f(r)).collect();
      r.sized = false;
      return v;
    }
  }
  let n = if r.sized { r.rg(lo.min(max.min(1)), max.min(1)) } else { r.rg(lo, max) };
  (0..n).map(|_| f(r)).collect()
}

fn small_num(r: &mut R) -> AN {
  if r.p(2) {
    return g_num(r);
  }
  AN { base_number: r.rg(1, 3), eda_numbers: if r.p(15) { vec![r.rg(1, 3)] } else { vec![] }, range_end_numbers: if r.p(8) { vec![r.rg(4, 6)] } else { vec![] } }
}
fn para(r: &mut R) -> Paragraph {
  Paragraph {
    caption: None, paragraph_num: Text { contents: vec![] }, amend_provision: vec![], class: vec![],
    sentence: vec![Sentence { contents: vec![SentenceElement::String(r.text())], num: None, function: None, indent: None, writing_mode: WritingMode::Vertical }],
    struct_list: vec![], children: vec![], num: small_num(r), old_style: false, old_num: false, hide: false,
  }
}
fn art(r: &mut R) -> Article {
  Article { caption: None, title: g_text(r), paragraph: few(r, 0, 2, para), suppl_note: None, num: small_num(r), delete: r.p(10), hide: r.p(10) }
}
/// slim provisions with heavily mixed headings: every kind of child next to every other
fn gen_headings(r: &mut R) -> (MainProvision, Vec<SupplProvision>) {
  fn div(r: &mut R) -> Division {
    Division { division_title: g_text(r), children: few(r, 0, 3, |r| art(r)), num: small_num(r), delete: false, hide: r.p(10) }
  }
  fn sub(r: &mut R) -> Subsection {
    Subsection { subsection_title: g_text(r), children: few(r, 0, 3, |r| if r.p(50) { SubsectionContents::Article(art(r)) } else { SubsectionContents::Division(div(r)) }), num: small_num(r), delete: r.p(10), hide: false }
  }
  fn sec(r: &mut R) -> Section {
    Section {
      section_title: g_text(r),
      children: few(r, 0, 4, |r| match r.n(3) {
        0 => SectionContents::Article(art(r)),
        1 => SectionContents::Subsection(sub(r)),
        _ => SectionContents::Division(div(r)),
      }),
      num: small_num(r), delete: r.p(10), hide: r.p(10),
    }
  }
  fn chap(r: &mut R) -> Chapter {
    Chapter { chapter_title: g_text(r), children: few(r, 0, 4, |r| if r.p(50) { ChapterContents::Article(art(r)) } else { ChapterContents::Section(sec(r)) }), num: small_num(r), delete: r.p(10), hide: false }
  }
  fn part(r: &mut R) -> Part {
    Part { part_title: g_text(r), children: few(r, 0, 4, |r| if r.p(40) { PartContents::Article(art(r)) } else { PartContents::Chapter(chap(r)) }), num: small_num(r), delete: r.p(10), hide: false }
  }
  let only = if r.p(40) { Some(r.n(5)) } else { None };
  let m = MainProvision {
    children: few(r, 0, 6, |r| match only.unwrap_or(r.n(5)) {
      0 => MainProvisionContents::Part(part(r)),
      1 => MainProvisionContents::Chapter(chap(r)),
      2 => MainProvisionContents::Section(sec(r)),
      3 => MainProvisionContents::Article(art(r)),
      _ => MainProvisionContents::Paragraph(para(r)),
    }),
    extract: None,
  };
  let k = r.rg(0, 2);
  let s = (0..k).map(|_| {
    SupplProvision {
      label: g_text(r),
      children: few(r, 0, 6, |r| match r.n(8) {
        0 | 1 => SupplProvisionChildrenElement::Chapter(chap(r)),
        2 | 3 => SupplProvisionChildrenElement::Article(art(r)),
        4..=6 => SupplProvisionChildrenElement::Paragraph(para(r)),
        _ => SupplProvisionChildrenElement::SupplProvisionAppdx(SupplProvisionAppdx::g(r)),
      }),
      suppl_provision_type: None, amend_law_num: None, extract: None,
    }
  }).collect();
  (m, s)
}

// ------------------------------------------------------------------ P11

pub fn p11(_stage: &str, c: &mut Ctx, r: &mut R) {
  let (m, ss) = gen_provisions(r);
  p11_check(c, "main", &tops_main(&m), || with_number_article_list_from_main_provision(&m), || article_list_from_main_provision(&m));
  for s in &ss {
    p11_check(c, "suppl", &tops_suppl(s), || with_number_article_list_from_suppl_provision(s), || article_list_from_suppl_provision(s));
  }
}

fn p11_check(c: &mut Ctx, which: &str, tops: &[Top<'_>], f: impl FnOnce() -> (Vec<WithNumberArticle>, Vec<Vec<Paragraph>>), g: impl FnOnce() -> (Vec<Article>, Vec<Vec<Paragraph>>)) {
  let want: Vec<(Path, &Article)> = headings(tops).into_iter().filter_map(|(p, n)| if let Node::Article(a) = n { Some((p, a)) } else { None }).collect();
  let kinds: String = tops.iter().map(|t| match t { Top::Node(n) => (b'0' + n.level() as u8) as char, Top::Paragraph(_) => 'p', Top::Other => 'o' }).collect();
  c.see("sequences of top-level children", &kinds);
  let desc = format!("{which} children {kinds}, articles {:?}", want.iter().map(|(p, a)| format!("{}:{}", shape(p), num_ref(&a.num))).collect::<Vec<_>>());
  c.input = Some(desc.clone());
  c.eval(hash_str(&desc), want.len() + tops.len() > 2);
  c.sample(2, || json!(desc.chars().take(600).collect::<String>()));
  for (p, _) in &want {
    c.see("article positions", &shape(p));
  }
  c.count("articles", want.len() as u64);
  let Some((w, ps)) = c.sut("with_number_article_list", f) else { return };
  let Some((a, ps2)) = c.sut("article_list", g) else { return };
  if w.len() != want.len() {
    c.fail(&format!("{which}: with_number list has the wrong number of articles"), &format!("{} instead of {}\n{desc}", w.len(), want.len()));
  } else {
    for (i, (w, (p, a))) in w.iter().zip(&want).enumerate() {
      if w.get_article() != **a {
        c.fail(&format!("{which}: with_number list: article wrong, out of order or changed"), &format!("number {i}\n{}", super::xmlp::first_debug_diff(*a, &w.get_article())));
        break;
      }
      let got: Path = [w.get_part(), w.get_chapter(), w.get_section(), w.get_subsection(), w.get_division()];
      if &got != p {
        let lv = (0..5).find(|k| got[*k] != p[*k]).unwrap();
        c.fail(&format!("{which}: article located wrongly at level {}", ["part", "chapter", "section", "subsection", "division"][lv]), &format!("article {i}: got {got:?}, expected {p:?}"));
        break;
      }
    }
  }
  let plain: Vec<&Article> = want.iter().map(|(_, a)| *a).collect();
  if a.iter().collect::<Vec<_>>() != plain {
    c.fail(&format!("{which}: article list wrong"), &format!("{} articles instead of {}\n{desc}", a.len(), plain.len()));
  }
  let r1 = runs(tops, true);
  let r2 = runs(tops, false);
  for (how, got) in [("with_number", ps), ("plain", ps2)] {
    let got: Vec<Vec<Paragraph>> = got.into_iter().filter(|g| !g.is_empty()).collect();
    c.count("loose paragraphs", got.iter().map(|g| g.len() as u64).sum());
    if got != r1 && got != r2 {
      let l = |v: &Vec<Vec<Paragraph>>| v.iter().map(|g| g.iter().map(|p| num_ref(&p.num)).collect::<Vec<_>>()).collect::<Vec<_>>();
      c.fail(&format!("{which} {how}: loose paragraphs wrong"), &format!("got {:?}, expected {:?}\n{desc}", l(&got), l(&r1)));
    }
  }
}

// ------------------------------------------------------------------ P12

pub fn p12(_stage: &str, c: &mut Ctx, r: &mut R) {
  let (m, ss) = gen_provisions(r);
  p12_check(c, "main", &tops_main(&m), || toc_list_from_main_provision(&m));
  for s in &ss {
    p12_check(c, "suppl", &tops_suppl(s), || toc_list_from_suppl_provision(s));
  }
}

fn p12_check(c: &mut Ctx, which: &str, tops: &[Top<'_>], f: impl FnOnce() -> Vec<Toc>) {
  const L: [&str; 7] = ["part", "chapter", "section", "subsection", "division", "article", "title"];
  let want: Vec<(Path, Node)> = headings(tops);
  let desc = format!("{which} {:?}", want.iter().map(|(p, n)| format!("{}{}:{}", n.level(), shape(p), num_ref(n.num()))).collect::<Vec<_>>());
  c.input = Some(desc.clone());
  c.eval(hash_str(&desc), want.len() > 2);
  c.sample(2, || json!(desc.chars().take(600).collect::<String>()));
  for (p, n) in &want {
    c.see("heading positions", &format!("{}{}", n.level(), shape(p)));
  }
  c.count("headings", want.len() as u64);
  let Some(got) = c.sut("toc_list", f) else { return };
  if got.len() != want.len() {
    return c.fail(&format!("{which}: wrong number of entries"), &format!("{} instead of {}\n{desc}", got.len(), want.len()));
  }
  for (i, (g, (p, n))) in got.iter().zip(&want).enumerate() {
    let art = if n.level() == 5 { Some(n.num().clone()) } else { None };
    let nums = [g.get_part(), g.get_chapter(), g.get_section(), g.get_subsection(), g.get_division(), g.get_article()];
    for k in 0..6 {
      let w = if k == 5 { &art } else { &p[k] };
      if &nums[k] != w {
        return c.fail(&format!("{which}: {} entry has the wrong {} number", L[n.level()], L[k]), &format!("entry {i}: got {:?}, expected {w:?}\n{desc}", nums[k]));
      }
    }
    let t = n.title();
    if g.get_title().as_deref() != Some(t.as_str()) {
      return c.fail(&format!("{which}: {} entry has the wrong title", L[n.level()]), &format!("entry {i}: got {:?}, expected {t:?}", g.get_title()));
    }
  }
}

// ------------------------------------------------------------------ reference rendering

/// plain text of a title
pub fn ref_text(v: &[TextElement]) -> String {
  v.iter().map(|e| match e {
    TextElement::Text(s) => s.clone(),
    TextElement::Ruby(r) => ref_text(&r.text.contents),
    TextElement::Sup(s) => s.text.clone(),
    TextElement::Sub(s) => s.text.clone(),
    TextElement::Line(_) => String::new(),
  }).collect()
}
pub fn ref_sentence(v: &[SentenceElement]) -> String {
  v.iter().map(|e| match e {
    SentenceElement::String(s) => s.clone(),
    SentenceElement::Ruby(r) => ref_text(&r.text.contents),
    SentenceElement::Sup(s) => format!("^{{{}}}", s.text),
    SentenceElement::Sub(s) => format!("_{{{}}}", s.text),
    SentenceElement::ArithFormula(a) => ref_contents(&a.contentes.contents),
    SentenceElement::QuoteStruct(a) => ref_contents(&a.contentes.contents),
    SentenceElement::Line(_) => String::new(),
  }).collect()
}
fn ref_contents(v: &[ContentsElement]) -> String {
  v.iter().map(|e| match e {
    ContentsElement::String(s) => s.clone(),
    ContentsElement::Ruby(r) => ref_text(&r.text.contents),
    ContentsElement::Sup(s) => format!("^{{{}}}", s.text),
    ContentsElement::Sub(s) => format!("_{{{}}}", s.text),
    ContentsElement::ArithFormula(a) => ref_contents(&a.contentes.contents),
    ContentsElement::QuoteStruct(a) => ref_contents(&a.contentes.contents),
    ContentsElement::Sentence(s) => ref_sentence(&s.contents),
    _ => String::new(),
  }).collect()
}
fn ref_sentences(v: &[Sentence]) -> String {
  v.iter().map(|s| ref_sentence(&s.contents)).collect()
}
fn ref_table(t: &Table) -> String {
  let head: Vec<String> = t.table_header_row.iter().map(|h| h.columns.iter().map(|c| ref_text(&c.contents)).collect::<String>()).collect();
  let rows: Vec<String> = t.table_row.iter().map(|row| {
    let cells: Vec<String> = row.columns.iter().map(|c| {
      c.contents.iter().map(|e| match e {
        TableColumnContents::String(s) => s.clone(),
        TableColumnContents::Sentence(s) => ref_sentence(&s.contents),
        TableColumnContents::Column(c) => ref_sentences(&c.sentence),
        _ => String::new(),
      }).collect::<String>()
    }).collect();
    cells.join(" ")
  }).collect();
  format!("{}\n{}", head.join(" "), rows.join("\n"))
}
fn ref_soct(s: &SentenceOrColumnOrTable) -> String {
  match s {
    SentenceOrColumnOrTable::Sentence(v) => ref_sentences(v),
    SentenceOrColumnOrTable::Column(v) => v.iter().flat_map(|c| c.sentence.iter()).map(|s| ref_sentence(&s.contents)).collect::<Vec<_>>().join(" "),
    SentenceOrColumnOrTable::Table(t) => ref_table(t),
  }
}

type Entry = (AN, Vec<Option<AN>>, String);
macro_rules! sub_walk {
  ($name:ident, $ty:ty, $next:ident) => {
    fn $name(p: &AN, path: &[Option<AN>], v: &[$ty], out: &mut Vec<Entry>) {
      for i in v {
        let mut q = path.to_vec();
        q.push(i.num.clone());
        out.push((p.clone(), q.clone(), ref_soct(&i.sentence)));
        $next(p, &q, &i.children, out);
      }
    }
  };
}
sub_walk!(w0, Item, w1);
sub_walk!(w1, Subitem1, w2);
sub_walk!(w2, Subitem2, w3);
sub_walk!(w3, Subitem3, w4);
sub_walk!(w4, Subitem4, w5);
sub_walk!(w5, Subitem5, w6);
sub_walk!(w6, Subitem6, w7);
sub_walk!(w7, Subitem7, w8);
sub_walk!(w8, Subitem8, w9);
sub_walk!(w9, Subitem9, w10);
fn w10(p: &AN, path: &[Option<AN>], v: &[Subitem10], out: &mut Vec<Entry>) {
  for i in v {
    let mut q = path.to_vec();
    q.push(i.num.clone());
    out.push((p.clone(), q, ref_soct(&i.sentence)));
  }
}
fn ref_list(ps: &[Paragraph]) -> Vec<Entry> {
  let mut v = vec![];
  for p in ps {
    v.push((p.num.clone(), vec![], ref_sentences(&p.sentence)));
    w0(&p.num, &[], &p.children, &mut v);
  }
  v
}

// ------------------------------------------------------------------ P13

/// a sentence holder of one of the three kinds, small
fn slim(r: &mut R) -> SentenceOrColumnOrTable {
  r.b = 6;
  r.depth = 0;
  r.max_depth = 6;
  g_soct(r)
}
fn onum(r: &mut R) -> Option<AN> {
  if r.p(85) {
    Some(small_num(r))
  } else {
    None
  }
}
macro_rules! slim_item {
  ($name:ident, $ty:ident, $next:ident) => {
    fn $name(r: &mut R, left: &mut i64, p: usize) -> Vec<$ty> {
      let lo = r.p(p) as usize;
      if *left <= 0 {
        return vec![];
      }
      few(r, lo, 2, |r| {
          *left -= 1;
          $ty { title: None, sentence: slim(r), children: $next(r, left, p), struct_list: vec![], num: onum(r), delete: r.p(10), hide: r.p(10) }
        })
    }
  };
}
slim_item!(s0, Item, s1);
slim_item!(s1, Subitem1, s2);
slim_item!(s2, Subitem2, s3);
slim_item!(s3, Subitem3, s4);
slim_item!(s4, Subitem4, s5);
slim_item!(s5, Subitem5, s6);
slim_item!(s6, Subitem6, s7);
slim_item!(s7, Subitem7, s8);
slim_item!(s8, Subitem8, s9);
slim_item!(s9, Subitem9, s10);
fn s10(r: &mut R, left: &mut i64, p: usize) -> Vec<Subitem10> {
  let lo = r.p(p) as usize;
  if *left <= 0 {
    return vec![];
  }
  few(r, lo, 2, |r| {
    *left -= 1;
    Subitem10 { title: None, sentence: slim(r), struct_list: vec![], num: onum(r), delete: false, hide: false }
  })
}

pub fn gen_paragraphs(r: &mut R) -> Vec<Paragraph> {
  reset();
  r.profile();
  if r.p(55) {
    let p = *r.pick(&[30, 60, 90, 97]);
    few(r, 0, 3, |r| {
      let mut q = para(r);
      r.b = 8;
      q.sentence = few(r, 0, 3, Sentence::g);
      let mut left = *r.pick(&[3i64, 12, 30]);
      q.children = s0(r, &mut left, p);
      q
    })
  } else {
    r.b = *r.pick(&[20, 60, 150]);
    let n = r.rg(0, 3);
    (0..n).map(|_| Paragraph::g(r)).collect()
  }
}

pub fn p13(_stage: &str, c: &mut Ctx, r: &mut R) {
  let ps = gen_paragraphs(r);
  let want = ref_list(&ps);
  let desc = want.iter().map(|(p, i, t)| format!("{} {:?} {t}", num_ref(p), i.iter().map(|n| n.as_ref().map(num_ref)).collect::<Vec<_>>())).collect::<Vec<_>>().join("\n");
  c.input = Some(desc.clone());
  c.eval(hash_str(&desc), want.len() > 2);
  c.sample(2, || json!(desc.chars().take(600).collect::<String>()));
  for (_, i, _) in &want {
    c.see("depths", &i.len().to_string());
  }
  c.count("entries", want.len() as u64);
  let Some(got) = c.sut("text_info_list_from_paragraph", || text_info_list_from_paragraph(&ps)) else { return };
  for (k, ((ix, t), (p, items, w))) in got.iter().zip(&want).enumerate() {
    let depth = items.len();
    if &ix.paragraph != p {
      return c.fail(&format!("wrong paragraph number at depth {depth}"), &format!("entry {k}: {ix:?}, expected {p:?}\n{desc}"));
    }
    if &ix.items != items {
      return c.fail(&format!("wrong item path at depth {depth}"), &format!("entry {k}: {:?}, expected {items:?}\n{desc}", ix.items));
    }
    if t != w {
      return c.fail(&format!("wrong text at depth {depth}"), &format!("entry {k}: {t:?}, expected {w:?}"));
    }
  }
  if got.len() != want.len() {
    return c.fail("wrong number of entries", &format!("{} instead of {}\n{desc}", got.len(), want.len()));
  }
  let joined = want.iter().map(|(_, _, t)| t.as_str()).collect::<Vec<_>>().join("\n");
  if let Some(t) = c.sut("text_from_paragraph_list", || text_from_paragraph_list(&ps)) {
    c.check(t == joined, "text_from_paragraph_list", || format!("{t:?}, expected {joined:?}"));
  }
  let mut a = art(r);
  a.paragraph = ps;
  if let Some(t) = c.sut("text_from_article", || text_from_article(&a)) {
    c.check(t == joined, "text_from_article", || format!("{t:?}, expected {joined:?}"));
  }
}

// ------------------------------------------------------------------ P14

pub fn p14(stage: &str, c: &mut Ctx, r: &mut R) {
  reset();
  r.profile();
  match stage {
    "sentence" => {
      for _ in 0..8 {
        r.b = *r.pick(&[8, 20, 60]);
        r.depth = 0;
        let s = Sentence::g(r);
        let want = ref_sentence(&s.contents);
        for e in &s.contents {
          c.see("kinds of inline content", &kind(&format!("{e:?}")));
        }
        c.input = Some(format!("{:?}", s.contents));
        c.eval(hash_str(c.input.as_deref().unwrap()), s.contents.len() > 1);
        c.count("sentences", 1);
        let Some(got) = c.sut("sentence_element_to_str", || sentence_element_to_str(&s.contents)) else { return };
        if got != want {
          // which kind of element is to blame
          let culprit = s.contents.iter().find(|e| guard(|| sentence_element_to_str(std::slice::from_ref(*e))).ok() != Some(ref_sentence(std::slice::from_ref(*e))));
          let k = culprit.map(|e| kind(&format!("{e:?}"))).unwrap_or("the sequence".into());
          c.fail(&format!("sentence rendered wrongly: {k}"), &format!("{got:?}\nexpected {want:?}"));
        }
      }
    }
    "table" => {
      r.b = *r.pick(&[10, 30, 80]);
      let t = if r.p(50) { slim_table(r) } else { Table::g(r) };
      let want = ref_table(&t);
      for row in &t.table_row {
        c.see("row lengths", &row.columns.len().to_string());
        for col in &row.columns {
          for e in &col.contents {
            c.see("kinds of cell content", &kind(&format!("{e:?}")));
          }
        }
      }
      c.input = Some(format!("{t:?}").chars().take(20000).collect());
      c.eval(hash_str(c.input.as_deref().unwrap()), t.table_row.len() + t.table_header_row.len() > 1);
      c.count("tables", 1);
      if let Some(got) = c.sut("table_to_str", || table_to_str(&t)) {
        c.check(got == want, "table rendered wrongly", || format!("{got:?}\nexpected {want:?}"));
      }
    }
    _ => p14_text(c, r),
  }
}

fn kind(d: &str) -> String {
  d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

fn slim_table(r: &mut R) -> Table {
  let table_header_row = few(r, 0, 3, |r| TableHeaderRow { columns: few(r, 0, 4, g_text) });
  let table_row = few(r, 0, 4, |r| TableRow {
    columns: few(r, 0, 4, |r| {
      r.b = 4;
      let mut col = TableColumn::g(r);
      col.contents = match r.n(4) {
        0 => vec![TableColumnContents::String(r.text())],
        1 => few(r, 0, 3, |r| TableColumnContents::Sentence(Sentence::g(r))),
        2 => few(r, 0, 3, |r| TableColumnContents::Column(Column::g(r))),
        _ => vec![TableColumnContents::Sentence(Sentence::g(r)), TableColumnContents::String(r.text()), TableColumnContents::Column(Column::g(r))],
      };
      col
    }),
  });
  Table { writing_mode: WritingMode::Vertical, table_row, table_header_row }
}

fn p14_text(c: &mut Ctx, r: &mut R) {
  for _ in 0..8 {
    let t = g_text(r);
    for e in &t.contents {
      c.see("kinds of title content", &kind(&format!("{e:?}")));
    }
    let want = ref_text(&t.contents);
    c.input = Some(format!("{t:?}"));
    c.eval(hash_str(c.input.as_deref().unwrap()) ^ 9, t.contents.len() > 1);
    c.count("titles", 1);
    if let Some(g) = c.sut("Text::to_string", || t.to_string()) {
      c.check(g == want, "Text::to_string", || format!("{g:?}, expected {want:?}"));
    }
    for m in [WritingMode::Vertical, WritingMode::Horizontal] {
      if let Some(w) = c.sut("with_writing_mode", || t.with_writing_mode(m.clone())) {
        c.check(w.contents == t.contents && w.writing_mode == m, "with_writing_mode", || format!("{w:?}"));
        if let Some(g) = c.sut("TextWithWritingMode::to_string", || w.to_string()) {
          c.check(g == want, "TextWithWritingMode::to_string", || format!("{g:?}, expected {want:?}"));
        }
      }
    }
    // pieces: through XML nodes and back
    if let Some(b) = c.sut("from_children(to_children)", || Text::from_children(&t.to_children())) {
      c.check(b == t, "from_children(to_children) loses pieces", || format!("{b:?}\nexpected {t:?}"));
    }
    // the nodes themselves, through an element of our own making
    if let Some(nodes) = c.sut("to_children", || t.to_children()) {
      let want: Vec<xmltree::XMLNode> = tx("T", &t).kids.iter().map(to_node).collect();
      c.check(node_key(&nodes) == node_key(&want), "to_children gives other nodes", || format!("{nodes:?}\nexpected {want:?}"));
      // foreign nodes in between are ignored
      let mut mixed = vec![];
      for n in want {
        if r.p(20) {
          mixed.push(xmltree::XMLNode::Comment("c".into()));
        }
        if r.p(10) {
          mixed.push(xmltree::XMLNode::Element(xmltree::Element::new("Foreign")));
        }
        mixed.push(n);
      }
      if let Some(b) = c.sut("from_children", || Text::from_children(&mixed)) {
        c.check(b == t, "from_children loses pieces beside foreign nodes", || format!("{b:?}\nexpected {t:?}"));
      }
    }
    // piecewise building, in order, in two halves
    let build = |es: &[TextElement]| {
      let mut b = Text { contents: vec![] };
      for e in es {
        match e.clone() {
          TextElement::Text(s) => b.add_string(&s),
          TextElement::Ruby(x) => b.add_ruby(x),
          TextElement::Line(x) => b.add_line(x),
          TextElement::Sup(x) => b.add_sup(x),
          TextElement::Sub(x) => b.add_sub(x),
        }
      }
      b
    };
    let k = r.n(t.contents.len() + 1);
    if let Some(b) = c.sut("add_*", || {
      let mut a = build(&t.contents[..k]);
      a.add_text(build(&t.contents[k..]));
      a
    }) {
      c.check(b == t, "building a title from pieces loses pieces", || format!("{b:?}\nexpected {t:?}"));
    }
    let s = r.text();
    if let Some(v) = c.sut("from_value", || Text::from_value(&s)) {
      c.check(ref_text(&v.contents) == s && v.contents.len() == 1, "from_value", || format!("{v:?}"));
    }
    if let Some(v) = c.sut("from_value", || Text::from_value(12usize)) {
      c.check(ref_text(&v.contents) == "12", "from_value of a number", || format!("{v:?}"));
    }
  }
}

fn to_node(n: &crate::xml::N) -> xmltree::XMLNode {
  match n {
    crate::xml::N::T(s) => xmltree::XMLNode::Text(s.clone()),
    crate::xml::N::E(e) => {
      let mut x = xmltree::Element::new(&e.name);
      for (k, v) in &e.attrs {
        x.attributes.insert(k.clone(), v.clone());
      }
      x.children = e.kids.iter().map(to_node).collect();
      xmltree::XMLNode::Element(x)
    }
  }
}
fn node_key(v: &[xmltree::XMLNode]) -> String {
  let e = |n: &xmltree::XMLNode| -> Option<crate::xml::N> { from_node(n) };
  let mut r = crate::xml::E::n("T");
  r.kids = v.iter().filter_map(e).collect();
  format!("{:?}", crate::xml::norm(&r))
}
fn from_node(n: &xmltree::XMLNode) -> Option<crate::xml::N> {
  match n {
    xmltree::XMLNode::Text(s) => Some(crate::xml::N::T(s.clone())),
    xmltree::XMLNode::Element(e) => {
      let mut x = crate::xml::E::n(&e.name);
      for (k, v) in &e.attributes {
        x.attrs.insert(k.clone(), v.clone());
      }
      x.kids = e.children.iter().filter_map(from_node).collect();
      Some(crate::xml::N::E(x))
    }
    _ => None,
  }
}

// ------------------------------------------------------------------ changing one place of a law

fn leaves(v: &serde_json::Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
  use serde_json::Value::*;
  match v {
    Object(m) => {
      for (k, v) in m {
        path.push(k.clone());
        leaves(v, path, out);
        path.pop();
      }
    }
    Array(a) => {
      for (i, v) in a.iter().enumerate() {
        path.push(i.to_string());
        leaves(v, path, out);
        path.pop();
      }
    }
    Null => (),
    _ => out.push(path.clone()),
  }
}

/// changes one place of a law and says which
pub fn tweak(law: &mut Law, r: &mut R) -> Option<String> {
  let bump = |n: usize| if n == usize::MAX { n - 1 } else { n + 1 };
  match r.n(12) {
    0 => {
      law.year = bump(law.year);
      return Some("year".into());
    }
    1 => {
      law.law_num.push('改');
      return Some("law_num".into());
    }
    2 => {
      law.promulgate_day = Some(law.promulgate_day.map(bump).unwrap_or(0));
      return Some("promulgate_day".into());
    }
    3 => {
      law.promulgate_month = if law.promulgate_month.is_some() { None } else { Some(1) };
      return Some("promulgate_month".into());
    }
    4 => {
      law.num = if law.num.is_some() { None } else { Some(AN { base_number: 1, eda_numbers: vec![], range_end_numbers: vec![] }) };
      return Some("num".into());
    }
    5 => {
      let b = &mut law.law_body;
      b.suppl_provision.push(SupplProvision { label: Text { contents: vec![] }, children: vec![], suppl_provision_type: None, amend_law_num: None, extract: None });
      return Some("one more suppl_provision".into());
    }
    6 if law.law_body.main_provision.children.len() > 1 => {
      let v = &mut law.law_body.main_provision.children;
      let i = r.n(v.len() - 1);
      if v[i] != v[i + 1] {
        v.swap(i, i + 1);
        return Some("order of the main provision".into());
      }
    }
    _ => (),
  }
  let v = guard(|| serde_json::to_value(&*law).ok()).ok()??;
  let mut out = vec![];
  leaves(&v, &mut vec![], &mut out);
  for _ in 0..8 {
    if out.is_empty() {
      return None;
    }
    let p = r.pick(&out).clone();
    let mut w = v.clone();
    let mut cur = &mut w;
    for k in &p {
      cur = match cur {
        serde_json::Value::Object(m) => m.get_mut(k)?,
        serde_json::Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
        _ => return None,
      };
    }
    *cur = match &*cur {
      serde_json::Value::Bool(b) => json!(!b),
      serde_json::Value::Number(n) => json!(bump(n.as_u64()? as usize) as u64),
      serde_json::Value::String(s) => json!(format!("{s}異")),
      _ => continue,
    };
    if let Ok(Ok(l)) = guard(|| serde_json::from_value::<Law>(w.clone())) {
      *law = l;
      let names: Vec<&str> = p.iter().rev().filter(|s| s.parse::<usize>().is_err()).take(2).map(|s| s.as_str()).collect();
      return Some(names.join(" of "));
    }
  }
  None
}
