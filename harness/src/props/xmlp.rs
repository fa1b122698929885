//! P01–P07, P19: reading, writing, errors, files, JSON.

use super::*;
use crate::model::*;
use crate::xml::{self, diff, norm, Lex, E, N};
use japanese_law_xml_schema::law::Law;
use japanese_law_xml_schema::{parse_xml, parse_xml_file, to_xml, write_file};

/// records which parts of the schema the documents of this run exercised
pub fn see_tree(c: &mut Ctx, e: &E, parent: &str) {
  c.see("element kinds", &e.name);
  c.see("parent-child kinds", &format!("{parent}>{}", e.name));
  for (k, v) in &e.attrs {
    c.see("attribute kinds", &format!("{}@{k}", e.name));
    if v.len() < 12 && !v.chars().any(|c| c.is_numeric()) {
      c.see("enumerated attribute values", &format!("{}@{k}={v}", e.name));
    }
  }
  let mut last = "";
  for k in &e.kids {
    match k {
      N::E(k) => {
        c.see("neighbour kinds", &format!("{}:{last}>{}", e.name, k.name));
        last = &k.name;
        see_tree(c, k, &e.name)
      }
      N::T(_) => {
        c.count("texts", 1);
        last = "#text";
      }
    }
  }
  c.count("elements", 1);
}

/// signature of a tree difference: the two innermost names and the kind of difference
pub fn diff_sig(d: &str) -> String {
  let (path, what) = d.split_once(": ").unwrap_or(("", d));
  let mut names: Vec<&str> = path.rsplit('/').take(2).collect();
  names.reverse();
  let kind: String = what.split(['"', '`']).next().unwrap_or("").trim().chars().take(60).collect();
  format!("{}: {kind}", names.join("/"))
}

fn err_sig(e: &japanese_law_xml_schema::result::Error) -> String {
  let s = format!("{e:?}");
  s.chars().take(110).collect()
}

pub fn gen_law(r: &mut R) -> Law {
  reset();
  r.profile();
  Law::g(r)
}

fn h_doc(d: &[u8]) -> u64 {
  let mut h = 0xcbf29ce484222325u64;
  for b in d {
    h ^= *b as u64;
    h = h.wrapping_mul(0x100000001b3);
  }
  h
}

// ------------------------------------------------------------------ P01

pub fn p01(stage: &str, c: &mut Ctx, r: &mut R) {
  if stage == "known" {
    return p01_known(c);
  }
  let law = gen_law(r);
  let tree = law.x();
  let lex = match stage {
    "plain" => Lex::plain(),
    _ => Lex::wild(r),
  };
  let doc = xml::to_bytes(&tree, &lex, r);
  c.input = Some(String::from_utf8_lossy(&doc).to_string());
  let n = tree.count();
  c.eval(h_doc(&doc), n >= 10);
  see_tree(c, &tree, "");
  c.sample(1, || json!({"document": String::from_utf8_lossy(&doc).chars().take(1500).collect::<String>()}));
  let Some(res) = c.sut("parse_xml", || parse_xml(&doc)) else { return };
  match res {
    Err(e) => c.fail(&format!("conforming document refused: {}", err_sig(&e)), &format!("{e:?}\n{lex:?}")),
    Ok(l) => {
      c.count("documents read", 1);
      let (a, b) = (norm(&tree), norm(&l.x()));
      if let Some(d) = diff(&a, &b, "") {
        c.fail(&format!("content changed by reading at {}", diff_sig(&d)), &d);
      } else if l != law {
        c.fail("the law read differs from the one the document describes", &first_debug_diff(&law, &l));
      }
    }
  }
}

pub fn first_debug_diff<T: std::fmt::Debug>(a: &T, b: &T) -> String {
  let (a, b) = (format!("{a:?}"), format!("{b:?}"));
  let p = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
  let cut = |s: &str| s.chars().skip(p.saturating_sub(120)).take(300).collect::<String>();
  format!("expected …{}\ngot      …{}", cut(&a), cut(&b))
}

/// A recorded finding: the model keeps one sentence of an AmendProvisionSentence, the schema allows more.
fn p01_known(c: &mut Ctx) {
  let doc = wrap_main(
    "<Paragraph Num=\"1\"><ParagraphNum/><ParagraphSentence><Sentence>a</Sentence></ParagraphSentence><AmendProvision><AmendProvisionSentence><Sentence Num=\"1\">甲</Sentence><Sentence Num=\"2\">乙</Sentence></AmendProvisionSentence></AmendProvision></Paragraph>",
  );
  c.input = Some(doc.clone());
  c.eval(hash_str(&doc), true);
  let Some(res) = c.sut("parse_xml", || parse_xml(doc.as_bytes())) else { return };
  let text = format!("{res:?}");
  match res {
    Ok(l) if text.contains('甲') && text.contains('乙') => drop(l),
    Ok(l) if text.contains('甲') => {
      let n = norm(&l.x());
      let _ = n;
      c.fail("known:amend-provision-second-sentence", "only the first Sentence of an AmendProvisionSentence is kept");
    }
    _ => c.fail("sentence of an AmendProvisionSentence lost", &text.chars().take(500).collect::<String>()),
  }
}

pub fn wrap_main(inner: &str) -> String {
  format!("<Law Era=\"Showa\" Year=\"1\" Num=\"1\" LawType=\"Act\" Lang=\"ja\"><LawNum>昭和元年法律第一号</LawNum><LawBody><MainProvision>{inner}</MainProvision></LawBody></Law>")
}

// ------------------------------------------------------------------ P02

fn check_written(c: &mut Ctx, law: &Law, out: &str, how: &str) -> bool {
  let tree = norm(&law.x());
  match xml::parse(out) {
    Err(m) => {
      c.fail(&format!("{how}: not well-formed: {m}"), &out.chars().take(2000).collect::<String>());
      false
    }
    Ok(e) => {
      if let Some(d) = diff(&tree, &norm(&e), "") {
        c.fail(&format!("{how}: written content differs at {}", diff_sig(&d)), &d);
        false
      } else if let Some(d) = xml::out_of_order(&e) {
        c.fail(&format!("{how}: an order that the schema does not allow: {d}"), &d);
        false
      } else if let Some(d) = xml::stray_default(&e) {
        c.fail(&format!("{how}: an attribute that the schema does not allow there: {d}"), &d);
        false
      } else {
        true
      }
    }
  }
}

pub fn p02(_stage: &str, c: &mut Ctx, r: &mut R) {
  let law = gen_law(r);
  let tree = law.x();
  c.input = Some(xml::to_doc(&tree, &Lex::plain(), &mut R::new(1)));
  c.eval(hash_str(c.input.as_deref().unwrap()), tree.count() >= 10);
  see_tree(c, &tree, "");
  let before = law.clone();
  let Some(res) = c.sut("to_xml", || to_xml(&law)) else { return };
  c.check(law == before, "writing changed the law", String::new);
  match res {
    Err(e) => c.fail("to_xml failed", &format!("{e:?}")),
    Ok(s) => {
      c.count("documents written", 1);
      c.count("bytes written", s.len() as u64);
      c.sample(1, || json!({"document": s.chars().take(1500).collect::<String>()}));
      if let Some(d) = s.strip_prefix("<?xml") {
        let head: String = d.split("?>").next().unwrap_or("").to_lowercase();
        c.check(!head.contains("encoding") || head.contains("utf-8"), "declared encoding is not the one used", || head.clone());
      }
      check_written(c, &law, &s, "to_xml");
    }
  }
}

// ------------------------------------------------------------------ P03

pub fn p03(stage: &str, c: &mut Ctx, r: &mut R) {
  let law = match stage {
    "memory" => gen_law(r),
    "read" => {
      let l = gen_law(r);
      let lex = Lex::wild(r);
      let doc = xml::to_bytes(&l.x(), &lex, r);
      match c.sut("parse_xml", || parse_xml(&doc)) {
        Some(Ok(l)) => l,
        _ => return, // judged by P01 and P04
      }
    }
    _ => {
      reset();
      let t = super::textp::any_text(r);
      c.input = Some(t.clone());
      match guard(|| super::textp::parse(&t)) {
        Ok(Ok(l)) => l,
        _ => return, // judged by P15–P17
      }
    }
  };
  if stage != "text" {
    c.input = Some(xml::to_doc(&law.x(), &Lex::plain(), &mut R::new(1)));
  }
  c.eval(hash_str(c.input.as_deref().unwrap()) ^ hash_str(stage), c.input.as_deref().unwrap().len() > 600);
  let Some(Ok(w1)) = c.sut("to_xml", || to_xml(&law)) else { return };
  let Some(res) = c.sut("parse_xml", || parse_xml(w1.as_bytes())) else { return };
  let l2 = match res {
    Err(e) => return c.fail(&format!("{stage}: own output refused: {}", err_sig(&e)), &w1),
    Ok(l) => l,
  };
  c.count("round trips", 1);
  if l2 != law {
    let d = diff(&norm(&law.x()), &norm(&l2.x()), "").unwrap_or_else(|| first_debug_diff(&law, &l2));
    return c.fail(&format!("{stage}: read back differs at {}", diff_sig(&d)), &d);
  }
  let rounds = if r.p(10) { 4 } else { 1 };
  let mut l = l2;
  for round in 0..rounds {
    // through a byte sink
    let mut v: Vec<u8> = vec![];
    let Some(Ok(())) = c.sut("write_file", || write_file(&l, &mut v)) else { return c.fail("write_file failed on a Vec", "") };
    let same = match (xml::parse(&w1), std::str::from_utf8(&v).map_err(|e| e.to_string()).and_then(xml::parse)) {
      (Ok(a), Ok(b)) => diff(&norm(&a), &norm(&b), ""),
      (a, b) => Some(format!(": unparsable {:?} {:?}", a.err(), b.err())),
    };
    if let Some(d) = same {
      return c.fail(&format!("{stage}: second writing differs at {}", diff_sig(&d)), &format!("round {round}: {d}"));
    }
    match c.sut("parse_xml", || parse_xml(&v)) {
      Some(Ok(l3)) => {
        if l3 != l {
          return c.fail(&format!("{stage}: later round changes the law"), &first_debug_diff(&l, &l3));
        }
        l = l3;
      }
      Some(Err(e)) => return c.fail(&format!("{stage}: later round refused"), &format!("{e:?}")),
      None => return,
    }
    c.count("further rounds", 1);
  }
}

// ------------------------------------------------------------------ P04

pub fn p04(_stage: &str, c: &mut Ctx, r: &mut R) {
  let law = gen_law(r);
  let tree = law.x();
  let base = xml::to_doc(&tree, &Lex::plain(), &mut R::new(1));
  c.input = Some(base.clone());
  let Some(l0) = c.sut("parse_xml", || parse_xml(base.as_bytes())) else { return };
  let l0 = match l0 {
    Ok(l) => l,
    Err(_) => return c.count("base document refused (see P01)", 1),
  };
  for _ in 0..4 {
    let mut lex = Lex::wild(r);
    let one = r.p(40);
    if one {
      // one feature at a time
      let mut l = Lex::plain();
      match r.n(17) {
        0 => l.attr_shuffle = true,
        1 => l.single_quotes = true,
        2 => l.indent = true,
        3 => {
          l.indent = true;
          l.crlf = true
        }
        4 => l.tag_space = true,
        5 => l.explicit_defaults = true,
        6 => l.cdata = true,
        7 => l.comments = true,
        8 => l.pis = true,
        9 => l.split_text = true,
        10 => l.char_refs = true,
        11 => l.entities = true,
        12 => l.decl = lex.decl,
        13 => l.bom = true,
        14 => l.utf16 = r.rg(1, 2) as u8,
        15 => l.values = true,
        _ => l.ns = lex.ns,
      }
      lex = l;
    }
    let doc = xml::to_bytes(&tree, &lex, r);
    c.input = Some(format!("{base}\n--- other spelling\n{}", String::from_utf8_lossy(&doc)));
    c.eval(h_doc(&doc), tree.count() >= 5 && doc != base.as_bytes());
    c.see("combinations of spellings", &format!("{lex:?}"));
    for (k, b) in [("CDATA", lex.cdata), ("comments", lex.comments || lex.split_text), ("processing instructions", lex.pis), ("character references", lex.char_refs), ("entities", lex.entities), ("explicit defaults", lex.explicit_defaults), ("other truth values and numbers", lex.values), ("byte order mark", lex.bom), ("UTF-16", lex.utf16 > 0), ("namespaces", lex.ns > 0), ("attribute order", lex.attr_shuffle), ("CRLF", lex.crlf), ("indentation", lex.indent)] {
      if b {
        c.count(&format!("spelling: {k}"), 1);
      }
    }
    c.sample(1, || json!({"document": String::from_utf8_lossy(&doc).chars().take(1200).collect::<String>()}));
    let Some(res) = c.sut("parse_xml", || parse_xml(&doc)) else { return };
    match res {
      Err(e) => return c.fail(&format!("spelling refused: {}", err_sig(&e)), &format!("{e:?}\n{lex:?}")),
      Ok(l) => {
        if l != l0 {
          let d = diff(&norm(&l0.x()), &norm(&l.x()), "").unwrap_or_else(|| first_debug_diff(&l0, &l));
          return c.fail(&format!("spelling changes what is read at {}", diff_sig(&d)), &format!("{d}\n{lex:?}"));
        }
      }
    }
  }
}

// ------------------------------------------------------------------ P05

pub const NAMES: &[&str] = &[
  "Law", "LawNum", "LawBody", "LawTitle", "EnactStatement", "TOC", "TOCLabel", "TOCPreambleLabel", "TOCPart", "TOCChapter", "TOCSection", "TOCSubsection", "TOCDivision", "TOCArticle", "TOCSupplProvision",
  "TOCAppdxTableLabel", "ArticleRange", "Preamble", "MainProvision", "Part", "PartTitle", "Chapter", "ChapterTitle", "Section", "SectionTitle", "Subsection", "SubsectionTitle", "Division", "DivisionTitle",
  "Article", "ArticleTitle", "ArticleCaption", "SupplNote", "Paragraph", "ParagraphNum", "ParagraphCaption", "ParagraphSentence", "AmendProvision", "AmendProvisionSentence", "NewProvision", "Class",
  "ClassTitle", "ClassSentence", "Item", "ItemTitle", "ItemSentence", "Subitem1", "Subitem1Title", "Subitem1Sentence", "Subitem2", "Subitem2Sentence", "Subitem3", "Subitem10", "Subitem10Sentence", "List",
  "ListSentence", "Sublist1", "Sublist1Sentence", "Sublist2", "Sublist3", "Sentence", "Column", "SupplProvision", "SupplProvisionLabel", "SupplProvisionAppdxTable", "SupplProvisionAppdxTableTitle",
  "SupplProvisionAppdxStyle", "SupplProvisionAppdxStyleTitle", "SupplProvisionAppdx", "AppdxTable", "AppdxTableTitle", "AppdxNote", "AppdxStyle", "Appdx", "ArithFormulaNum", "ArithFormula", "AppdxFig",
  "AppdxFormat", "RelatedArticleNum", "TableStruct", "TableStructTitle", "Table", "TableHeaderRow", "TableHeaderColumn", "TableRow", "TableColumn", "FigStruct", "FigStructTitle", "Fig", "NoteStruct", "Note",
  "StyleStruct", "Style", "FormatStruct", "Format", "Remarks", "RemarksLabel", "QuoteStruct", "Ruby", "Rt", "Line", "Sup", "Sub", "x", "svg", "Lawx",
];
const ATTRS: &[&str] = &[
  "Era", "Year", "Num", "PromulgateMonth", "PromulgateDay", "LawType", "Lang", "Delete", "Hide", "OldStyle", "OldNum", "WritingMode", "Align", "Valign", "BorderTop", "BorderLeft", "rowspan", "colspan", "LineBreak",
  "CommonCaption", "Function", "Indent", "Style", "src", "Type", "AmendLawNum", "Extract", "Subject", "Kana", "Abbrev", "AbbrevKana", "xmlns", "xml:lang", "xlink:href",
];
const VALUES: &[&str] = &[
  "", " ", "0", "1", "-1", "+1", "1_2", "1_", "_", ":", "1:2", "1:2:3", "1:", "1_2:3_4", "00", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "1.5", "1e3", "１", "一", "true", "false", "TRUE", "True", "yes", "vertical",
  "horizontal", "Showa", "ja", "Act", "dotted", "main", "Item", "\u{0}", "あ", "a b", "\t", "NaN", "0x10", "1_a", "a",
];

fn mutate_tree(e: &mut E, r: &mut R, ops: usize) {
  for _ in 0..ops {
    let n = e.count();
    let k = r.n(n);
    let donor = nth(e, r.n(n)).clone();
    let t = nth_mut(e, k);
    match r.n(12) {
      0 if !t.attrs.is_empty() => {
        let k = t.attrs.keys().nth(r.n(t.attrs.len())).unwrap().clone();
        t.attrs.remove(&k);
      }
      1 | 2 => {
        let v = r.pick(VALUES).replace('\u{0}', "");
        let k = if !t.attrs.is_empty() && r.p(70) { t.attrs.keys().nth(r.n(t.attrs.len())).unwrap().clone() } else { r.pick(ATTRS).to_string() };
        t.attrs.insert(k, v);
      }
      3 if !t.kids.is_empty() => {
        let i = r.n(t.kids.len());
        t.kids.remove(i);
      }
      4 if !t.kids.is_empty() => {
        let i = r.n(t.kids.len());
        let k = t.kids[i].clone();
        t.kids.insert(i, k);
      }
      5 => t.kids = vec![],
      6 => r.shuffle(&mut t.kids),
      7 => t.name = r.pick(NAMES).to_string(),
      8 => {
        let i = r.n(t.kids.len() + 1);
        if donor.count() < 60 {
          t.kids.insert(i, N::E(donor));
        }
      }
      9 => {
        let i = r.n(t.kids.len() + 1);
        t.kids.insert(i, N::T(r.pick(&["x", "　", "テキスト", "1"]).to_string()));
      }
      10 => {
        let i = r.n(t.kids.len() + 1);
        let n = E::n(r.pick(NAMES)).a("Num", r.pick(VALUES).trim_matches('\u{0}'));
        t.kids.insert(i, N::E(n));
      }
      _ => t.kids.reverse(),
    }
  }
}

pub fn nth(e: &E, mut k: usize) -> &E {
  if k == 0 {
    return e;
  }
  k -= 1;
  for c in e.elems() {
    let n = c.count();
    if k < n {
      return nth(c, k);
    }
    k -= n;
  }
  e
}
pub fn nth_mut(e: &mut E, mut k: usize) -> &mut E {
  if k == 0 {
    return e;
  }
  k -= 1;
  let mut which = None;
  for (i, c) in e.kids.iter().enumerate() {
    if let N::E(c) = c {
      let n = c.count();
      if k < n {
        which = Some(i);
        break;
      }
      k -= n;
    }
  }
  match which {
    Some(i) => match &mut e.kids[i] {
      N::E(c) => nth_mut(c, k),
      N::T(_) => unreachable!(),
    },
    None => e,
  }
}

pub fn mutate_bytes(d: &mut Vec<u8>, r: &mut R, ops: usize) {
  const BITS: &[&[u8]] = &[b"<", b">", b"&", b"\"", b"'", b"/>", b"</", b"]]>", b"<![CDATA[", b"<!--", b"-->", b"<?", b"?>", b"&#0;", b"&#x110000;", b"&#xD800;", b"&#1;", b"&lt;", b"&nope;", b"<!DOCTYPE a [", b"]>", b"\x00", b"\xff", b"\xfe\xff", b"\xef\xbb\xbf", b"\xed\xa0\x80", b"=", b" Num=\"1\"", b"\xe3\x81", b"\r\n", b"xmlns=''", b"a:b", b":"];
  for _ in 0..ops {
    if d.is_empty() {
      d.extend_from_slice(r.pick(BITS));
      continue;
    }
    let i = r.n(d.len());
    match r.n(9) {
      0 => d[i] ^= 1 << r.n(8),
      1 => {
        d.remove(i);
      }
      2 | 3 => {
        let b = *r.pick(BITS);
        d.splice(i..i, b.iter().copied());
      }
      4 => d.truncate(i),
      5 => {
        let j = (i + r.rg(1, 40)).min(d.len());
        d.drain(i..j);
      }
      6 => {
        let j = (i + r.rg(1, 200)).min(d.len());
        let part = d[i..j].to_vec();
        let k = r.n(d.len());
        d.splice(k..k, part);
      }
      7 => {
        d[i] = r.n(256) as u8;
      }
      _ => {
        let j = r.n(d.len());
        d.swap(i, j)
      }
    }
  }
}

fn soup(r: &mut R) -> Vec<u8> {
  let mut s = String::new();
  let mut open: Vec<&str> = vec![];
  for _ in 0..r.rg(1, 200) {
    match r.n(10) {
      0..=4 => {
        let n = *r.pick(NAMES);
        s.push('<');
        s.push_str(n);
        for _ in 0..r.n(4) {
          s.push_str(&format!(" {}=\"{}\"", r.pick(ATTRS), r.pick(VALUES)));
        }
        if r.p(30) {
          s.push_str("/>");
        } else {
          s.push('>');
          open.push(n);
        }
      }
      5..=7 => {
        if let Some(n) = open.pop() {
          s.push_str(&format!("</{n}>"));
        }
      }
      8 => s.push_str(r.pick(&["x", "あ", "&amp;", "<!-- c -->", "<![CDATA[y]]>", " "])),
      _ => s.push_str(r.pick(&["&", "<", "</x>", "]]>", "\u{b}"])),
    }
  }
  if r.p(70) {
    while let Some(n) = open.pop() {
      s.push_str(&format!("</{n}>"));
    }
  }
  s.into_bytes()
}

/// a schema-shaped but otherwise arbitrary document: every element may hold every element
fn wild_tree(r: &mut R, depth: usize, budget: &mut i64) -> E {
  *budget -= 1;
  let mut e = E::n(r.pick(NAMES));
  for _ in 0..r.n(4) {
    e.attrs.insert(r.pick(&ATTRS[..ATTRS.len() - 3]).to_string(), r.pick(VALUES).replace('\u{0}', ""));
  }
  for _ in 0..r.n(4) {
    if *budget <= 0 || depth == 0 {
      break;
    }
    if r.p(20) {
      e.kids.push(N::T("文".into()));
    } else {
      e.kids.push(N::E(wild_tree(r, depth - 1, budget)));
    }
  }
  e
}

fn bomb(r: &mut R) -> Vec<u8> {
  let mut s = String::from("<?xml version=\"1.0\"?><!DOCTYPE Law [");
  match r.n(4) {
    0 => {
      s.push_str("<!ENTITY a0 \"aaaaaaaaaa\">");
      for i in 1..r.rg(3, 12) {
        s.push_str(&format!("<!ENTITY a{i} \"{}\">", format!("&a{};", i - 1).repeat(10)));
      }
    }
    1 => s.push_str("<!ENTITY a2 \"&a2;\">"),
    2 => s.push_str("<!ENTITY a2 \"&a1;\"><!ENTITY a1 \"&a2;\">"),
    _ => s.push_str("<!ENTITY a2 SYSTEM \"file:///etc/passwd\">"),
  }
  s.push_str("]>");
  s.push_str(&wrap_main("<Paragraph Num=\"1\"><ParagraphNum>&a2;</ParagraphNum><ParagraphSentence><Sentence>&a2;</Sentence></ParagraphSentence></Paragraph>"));
  s.into_bytes()
}

fn deep(r: &mut R) -> Vec<u8> {
  let n = r.rg(20, 400);
  let (o, cl): (String, String) = match r.n(5) {
    0 => ("<Paragraph Num=\"1\"><ParagraphNum/><ParagraphSentence><Sentence>".repeat(0) + &"<QuoteStruct>".repeat(n), "</QuoteStruct>".repeat(n)),
    1 => ("<ArithFormula Num=\"1\">".repeat(n), "</ArithFormula>".repeat(n)),
    2 => ("<QuoteStruct><Sentence>".repeat(n / 2), "</Sentence></QuoteStruct>".repeat(n / 2)),
    3 => ("<QuoteStruct><Table><TableRow><TableColumn><Sentence>".repeat(n / 5), "</Sentence></TableColumn></TableRow></Table></QuoteStruct>".repeat(n / 5)),
    _ => ("<Line><QuoteStruct>".repeat(n / 2), "</QuoteStruct></Line>".repeat(n / 2)),
  };
  wrap_main(&format!("<Paragraph Num=\"1\"><ParagraphNum/><ParagraphSentence><Sentence>a{o}中{cl}b</Sentence></ParagraphSentence></Paragraph>")).into_bytes()
}

/// runs everything a user can do with a law
pub fn exercise(law: &Law) -> usize {
  use japanese_law_xml_schema::utils::*;
  let mut n = 0;
  if let Ok(s) = to_xml(law) {
    n += s.len();
  }
  let mut v = vec![];
  let _ = write_file(law, &mut v);
  let b = &law.law_body;
  let mut arts = vec![];
  let mut paras: Vec<Vec<_>> = vec![];
  let m = &b.main_provision;
  let (w, p) = with_number_article_list_from_main_provision(m);
  n += w.len();
  paras.extend(p);
  let (a, p) = article_list_from_main_provision(m);
  arts.extend(a);
  paras.extend(p);
  n += toc_list_from_main_provision(m).len();
  for s in &b.suppl_provision {
    let (w, p) = with_number_article_list_from_suppl_provision(s);
    n += w.len();
    paras.extend(p);
    let (a, p) = article_list_from_suppl_provision(s);
    arts.extend(a);
    paras.extend(p);
    n += toc_list_from_suppl_provision(s).len();
  }
  if let Some(p) = &b.preamble {
    paras.push(p.children.clone());
  }
  for a in &arts {
    n += text_from_article(a).len();
    n += a.number_text().len();
  }
  for p in &paras {
    n += text_from_paragraph_list(p).len();
    n += text_info_list_from_paragraph(p).len();
  }
  for t in &b.appdx_table {
    for s in &t.children {
      n += format!("{s:?}").len() % 2;
    }
  }
  n += b.law_title.as_ref().map(|t| t.text.to_string().len()).unwrap_or(0);
  n
}

pub fn p05_doc(stage: &str, r: &mut R) -> Vec<u8> {
  match stage {
    "tree" => {
      let law = gen_law(r);
      let mut t = law.x();
      let ops = r.rg(1, 8);
      mutate_tree(&mut t, r, ops);
      let lex = Lex::wild(r);
      xml::to_bytes(&t, &lex, r)
    }
    "bytes" => {
      let law = gen_law(r);
      let lex = Lex::wild(r);
      let mut d = xml::to_bytes(&law.x(), &lex, r);
      let ops = *r.pick(&[1, 1, 2, 4, 10, 50]);
      mutate_bytes(&mut d, r, ops);
      d
    }
    "soup" => match r.n(5) {
      0 => (0..r.n(400)).map(|_| r.n(256) as u8).collect(),
      1 => bomb(r),
      2 => deep(r),
      _ => soup(r),
    },
    _ => {
      let mut b = 60;
      let inner = wild_tree(r, 8, &mut b);
      let t = match r.n(4) {
        0 => inner,
        1 => E::n("Law").a("Era", "Showa").a("Year", "1").a("Num", "1").a("LawType", "Act").a("Lang", "ja").k(E::n("LawNum").t("x")).k(E::n("LawBody").k(E::n("MainProvision").k(inner))),
        2 => E::n("Law").a("Era", "Showa").a("Year", "1").a("Num", "1").a("LawType", "Act").a("Lang", "ja").k(E::n("LawNum").t("x")).k(E::n("LawBody").k(E::n("MainProvision")).k(inner)),
        _ => {
          let p = E::n("Paragraph").a("Num", "1").k(E::n("ParagraphNum")).k(E::n("ParagraphSentence").k(E::n("Sentence").k(inner)));
          E::n("Law").a("Era", "Showa").a("Year", "1").a("Num", "1").a("LawType", "Act").a("Lang", "ja").k(E::n("LawNum").t("x")).k(E::n("LawBody").k(E::n("MainProvision").k(p)))
        }
      };
      xml::to_doc(&t, &Lex::plain(), r).into_bytes()
    }
  }
}

pub fn p05(stage: &str, c: &mut Ctx, r: &mut R) {
  if stage == "known" {
    return p05_known(c);
  }
  if stage == "each kind" {
    return p05_each(c, r);
  }
  let d = p05_doc(stage, r);
  p05_judge(c, &d);
}

/// every fault of a list in every kind of element
fn p05_each(c: &mut Ctx, r: &mut R) {
  let Some((kind, tree, path)) = super::purep::example(c.index, r) else { return c.count("kinds not read (see P01)", 1) };
  c.see("kinds of element damaged", &kind);
  let mut e = &tree;
  for i in &path {
    let N::E(k) = &e.kids[*i] else { return };
    e = k;
  }
  let mut v: Vec<E> = vec![];
  let mut with = |f: &dyn Fn(&mut E)| {
    let mut n = e.clone();
    f(&mut n);
    v.push(n);
  };
  with(&|n| n.kids.clear());
  with(&|n| n.attrs.clear());
  with(&|n| {
    n.kids.clear();
    n.attrs.clear()
  });
  with(&|n| n.kids.reverse());
  with(&|n| n.kids.extend(e.kids.clone()));
  with(&|n| n.kids.retain(|k| matches!(k, N::T(_))));
  with(&|n| n.kids.retain(|k| matches!(k, N::E(_))));
  with(&|n| n.name = "Nowhere".into());
  with(&|n| n.kids = vec![N::E(e.clone())]);
  with(&|n| n.kids.insert(0, N::E(e.clone())));
  with(&|n| n.kids.push(N::E(e.clone())));
  for at in [0, 1, e.kids.len()] {
    let at = at.min(e.kids.len());
    for t in ["x", "　", "1", "第一条"] {
      with(&|n| n.kids.insert(at, N::T(t.into())));
    }
    for t in ["Nowhere", "Sentence", "Table", "Ruby", "Line", "Item"] {
      with(&|n| n.kids.insert(at, N::E(E::n(t))));
    }
  }
  with(&|n| n.kids = vec![N::T("x".into())]);
  for i in 0..e.kids.len().min(12) {
    with(&|n| drop(n.kids.remove(i)));
    with(&|n| n.kids.truncate(i));
    with(&|n| drop(n.kids.drain(..i)));
    with(&|n| n.kids[i] = N::T("x".into()));
    with(&|n| n.kids[i] = N::E(E::n("Nowhere")));
    with(&|n| n.kids.insert(i, e.kids[i].clone()));
    with(&|n| n.kids.swap(i, (i + 1) % e.kids.len()));
    with(&|n| {
      if let N::E(k) = &mut n.kids[i] {
        k.kids.clear()
      }
    });
    with(&|n| {
      if let N::E(k) = &mut n.kids[i] {
        k.attrs.clear();
        k.kids.clear()
      }
    });
    with(&|n| {
      if let N::E(k) = &mut n.kids[i] {
        k.kids.insert(0, N::T("x".into()))
      }
    });
    with(&|n| {
      if let N::E(k) = &mut n.kids[i] {
        k.kids = vec![N::E(E::n("Nowhere"))]
      }
    });
  }
  let names: Vec<String> = e.attrs.keys().cloned().collect();
  for a in &names {
    with(&|n| drop(n.attrs.remove(a)));
    for x in VALUES {
      with(&|n| drop(n.attrs.insert(a.clone(), x.replace('\u{0}', ""))));
    }
  }
  for a in ATTRS {
    if !e.attrs.contains_key(*a) {
      for x in ["", "1", "x", "true", "-1", "9_9:9"] {
        with(&|n| drop(n.attrs.insert(a.to_string(), x.to_string())));
      }
    }
  }
  c.count("damages to each kind", v.len() as u64);
  for n in v {
    let mut t = tree.clone();
    *super::costp::parent_of(&mut t, &path).kids.get_mut(*path.last().unwrap()).unwrap() = N::E(n);
    p05_judge(c, &super::purep::doc_of(&t));
  }
}

fn p05_judge(c: &mut Ctx, d: &[u8]) {
  c.input = Some(String::from_utf8_lossy(d).to_string());
  c.eval(h_doc(d), d.len() > 50);
  let Some(res) = c.sut("parse_xml", || parse_xml(d)) else { return };
  match res {
    Err(e) => {
      c.count("refused", 1);
      let s = format!("{e:?}");
      c.count(&format!("outcome {}", s.split([' ', '(']).next().unwrap_or("")), 1);
      c.see("distinct errors", &s);
      let _ = c.sut("Display of the error", || e.to_string());
    }
    Ok(l) => {
      c.count("accepted", 1);
      c.sut("using the law that was read", || exercise(&l));
      let j = c.sut("serialising", || serde_json::to_string(&l).map(|s| s.len()));
      c.check(!matches!(j, Some(Err(_))), "serialising fails", String::new);
    }
  }
}

/// A recorded finding: the recursive readers of the XML layer and of this crate overflow the stack
/// on documents nested thousands of elements deep. Run in a child process of its own.
fn p05_known(c: &mut Ctx) {
  c.eval(5000, true);
  let st = std::process::Command::new(std::env::current_exe().unwrap()).args(["probe", "deep", "20000"]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
  match st {
    Ok(s) if s.success() => (),
    Ok(_) => c.fail("known:deep-nesting", "a document nested 20000 elements deep overflows the stack"),
    Err(e) => panic!("{e}"),
  }
}
pub fn probe_deep(n: usize) {
  let doc = wrap_main(&format!("<Paragraph Num=\"1\"><ParagraphNum/><ParagraphSentence><Sentence>{}{}</Sentence></ParagraphSentence></Paragraph>", "<QuoteStruct>".repeat(n), "</QuoteStruct>".repeat(n)));
  let _ = parse_xml(doc.as_bytes());
}

// ------------------------------------------------------------------ P07

use std::io::{ErrorKind, Write};

struct Faulty {
  got: Vec<u8>,
  r: R,
  /// calls of `write` after which every call fails
  fail_at: usize,
  calls: usize,
  fault: u8,
  kind: ErrorKind,
  delivered: bool,
  flush_fails: bool,
  flushes: usize,
  chunk: usize,
  interrupts: bool,
  /// go on accepting data after one failure
  once: bool,
}
impl Write for Faulty {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    self.calls += 1;
    if self.interrupts && self.calls % 3 == 0 {
      return Err(std::io::Error::from(ErrorKind::Interrupted));
    }
    if self.calls >= self.fail_at && !(self.once && self.delivered) {
      self.delivered = true;
      return match self.fault {
        0 => Err(std::io::Error::from(self.kind)),
        1 => Ok(0), // WriteZero for write_all
        _ => Err(std::io::Error::other("injected")),
      };
    }
    let n = if self.chunk == 0 || b.is_empty() { b.len() } else { self.r.rg(1, self.chunk.min(b.len())) };
    self.got.extend_from_slice(&b[..n]);
    Ok(n)
  }
  fn flush(&mut self) -> std::io::Result<()> {
    self.flushes += 1;
    if self.flush_fails {
      self.delivered = true;
      Err(std::io::Error::from(self.kind))
    } else {
      Ok(())
    }
  }
}
fn faulty(r: &mut R) -> Faulty {
  let kinds = [ErrorKind::BrokenPipe, ErrorKind::PermissionDenied, ErrorKind::Other, ErrorKind::StorageFull, ErrorKind::TimedOut, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::InvalidData, ErrorKind::ConnectionReset];
  Faulty {
    got: vec![],
    r: R::new(r.next()),
    fail_at: usize::MAX,
    calls: 0,
    fault: r.n(3) as u8,
    kind: *r.pick(&kinds),
    delivered: false,
    flush_fails: false,
    flushes: 0,
    chunk: *r.pick(&[0, 0, 1, 2, 3, 7, 64, 1000]),
    interrupts: r.p(20),
    once: r.p(30),
  }
}

fn is_io<T>(r: &Result<T, japanese_law_xml_schema::result::Error>) -> bool {
  matches!(r, Err(japanese_law_xml_schema::result::Error::Io))
}

pub fn p07(stage: &str, c: &mut Ctx, r: &mut R) {
  match stage {
    "writers" => p07_writers(c, r),
    "every" => p07_every(c, r),
    "files" => p07_files(c, r),
    _ => p07_paths(c, r),
  }
}

fn p07_writers(c: &mut Ctx, r: &mut R) {
  let law = gen_law(r);
  let before = law.clone();
  c.input = Some(xml::to_doc(&law.x(), &Lex::plain(), &mut R::new(1)));
  let h = hash_str(c.input.as_deref().unwrap());
  let Some(Ok(s)) = c.sut("to_xml", || to_xml(&law)) else { return };
  let tree = xml::parse(&s).map(|e| norm(&e));
  // a writer that accepts everything, in pieces of its own size
  let mut w = faulty(r);
  let Some(res) = c.sut("write_file", || write_file(&law, &mut w)) else { return };
  c.eval(mix(h ^ w.chunk as u64), true);
  c.count("writes without a fault", 1);
  if res.is_err() {
    c.fail("a writer that never fails is reported as failing", &format!("{res:?} chunk {} interrupts {}", w.chunk, w.interrupts));
  } else {
    match (std::str::from_utf8(&w.got).map_err(|e| e.to_string()).and_then(xml::parse), &tree) {
      (Ok(a), Ok(b)) => {
        if let Some(d) = diff(b, &norm(&a), "") {
          c.fail(&format!("write_file and to_xml differ at {}", diff_sig(&d)), &d);
        }
      }
      (Err(m), Ok(_)) => c.fail(&format!("write_file output not well-formed: {m}"), &String::from_utf8_lossy(&w.got)),
      (_, Err(_)) => c.count("to_xml output not well-formed (see P02)", 1),
    }
  }
  let total = w.calls;
  // faults at chosen calls
  for k in 0..6 {
    let mut w = faulty(r);
    w.chunk = 0;
    match k {
      0 => w.fail_at = 1,
      1 => w.fail_at = total,
      2 => w.flush_fails = true,
      _ => w.fail_at = r.rg(1, total + 1),
    }
    let Some(res) = c.sut("write_file with a failing writer", || write_file(&law, &mut w)) else { return };
    c.eval(mix(h ^ (w.fail_at as u64) << 8 ^ w.fault as u64), w.delivered);
    judge_fault(c, &w, &res, &tree);
  }
  c.check(law == before, "writing changed the law", String::new);
}

fn judge_fault(c: &mut Ctx, w: &Faulty, res: &Result<(), japanese_law_xml_schema::result::Error>, tree: &Result<E, String>) {
  if w.delivered {
    c.count("faults delivered", 1);
    c.see("fault kinds", &format!("{} {:?} {}", w.fault, w.kind, w.flush_fails));
    if !is_io(res) {
      c.fail(&format!("a failing writer is not reported as an I/O error ({})", if w.flush_fails { "flush" } else { "write" }), &format!("{res:?} after call {} of kind {:?}", w.fail_at, w.kind));
    }
  } else if res.is_err() {
    c.fail("error although the writer never failed", &format!("{res:?}"));
  } else if let Ok(t) = tree {
    match std::str::from_utf8(&w.got).map_err(|e| e.to_string()).and_then(xml::parse) {
      Ok(a) => {
        if let Some(d) = diff(t, &norm(&a), "") {
          c.fail(&format!("write_file and to_xml differ at {}", diff_sig(&d)), &d);
        }
      }
      Err(m) => c.fail(&format!("incomplete document reported as written: {m}"), &String::from_utf8_lossy(&w.got)),
    }
  }
}

/// every single write call of a small document fails once
fn p07_every(c: &mut Ctx, r: &mut R) {
  reset();
  r.b = 12;
  r.max_depth = 6;
  let law = Law::g(r);
  c.input = Some(xml::to_doc(&law.x(), &Lex::plain(), &mut R::new(1)));
  let h = hash_str(c.input.as_deref().unwrap());
  let Some(Ok(s)) = c.sut("to_xml", || to_xml(&law)) else { return };
  let tree = xml::parse(&s).map(|e| norm(&e));
  let mut k = 1;
  loop {
    let mut w = faulty(r);
    w.chunk = 0;
    w.interrupts = false;
    w.fail_at = k;
    let Some(res) = c.sut("write_file with a failing writer", || write_file(&law, &mut w)) else { return };
    c.eval(mix(h ^ k as u64), w.delivered);
    judge_fault(c, &w, &res, &tree);
    if !w.delivered || c.violations > 0 || k > 3000 {
      break;
    }
    k += 1;
  }
  c.count("documents with every write call failed", 1);
}

fn p07_files(c: &mut Ctx, r: &mut R) {
  // a document, sometimes damaged, sometimes empty, sometimes large
  let d = match r.n(8) {
    0 => p05_doc("bytes", r),
    1 => p05_doc("tree", r),
    2 => vec![],
    3 => {
      let law = gen_law(r);
      let mut t = xml::to_doc(&law.x(), &Lex::plain(), r);
      t.push_str(&format!("<!--{}-->", "あ".repeat(r.rg(1000, 60000))));
      t.into_bytes()
    }
    _ => {
      let law = gen_law(r);
      let lex = Lex::wild(r);
      xml::to_bytes(&law.x(), &lex, r)
    }
  };
  c.input = Some(String::from_utf8_lossy(&d).to_string());
  let dir = c.scratch.join("f");
  let _ = std::fs::create_dir_all(&dir);
  let name = match r.n(4) {
    0 => "law.xml".to_string(),
    1 => "昭和二十二年　法律 第六十七号.xml".to_string(),
    2 => "a b'\"&<>.xml".to_string(),
    _ => format!("{}.xml", "x".repeat(200)),
  };
  let p = dir.join(name);
  std::fs::write(&p, &d).unwrap();
  let meta = std::fs::metadata(&p).unwrap();
  let how = r.n(4);
  let mut path = p.clone();
  let mut feeder = None;
  match how {
    1 => {
      let l = dir.join("link");
      let _ = std::fs::remove_file(&l);
      std::os::unix::fs::symlink(&p, &l).unwrap();
      path = l;
    }
    2 => {
      // a pipe that delivers the document in pieces
      let f = dir.join("pipe");
      let _ = std::fs::remove_file(&f);
      let cs = std::ffi::CString::new(f.to_str().unwrap()).unwrap();
      if unsafe { libc::mkfifo(cs.as_ptr(), 0o600) } == 0 {
        let (d2, f2, step) = (d.clone(), f.clone(), r.rg(1, 4000));
        feeder = Some(std::thread::spawn(move || {
          if let Ok(mut w) = std::fs::OpenOptions::new().write(true).open(&f2) {
            for ch in d2.chunks(step.max(d2.len() / 50 + 1)) {
              if w.write_all(ch).is_err() {
                break;
              }
            }
          }
        }));
        path = f;
      }
    }
    _ => (),
  }
  let ps = path.to_str().unwrap().to_string();
  let res = c.sut("parse_xml_file", || parse_xml_file(&ps));
  if let Some(f) = feeder {
    // a reader that never opened the pipe must not block the monitor
    let _ = std::fs::OpenOptions::new().read(true).custom_flags_nonblock().open(&path);
    let _ = f.join();
  }
  let direct = c.sut("parse_xml", || parse_xml(&d));
  c.eval(h_doc(&d) ^ how as u64, d.len() > 300);
  c.see("ways to read a file", &how.to_string());
  if let (Some(a), Some(b)) = (&res, &direct) {
    c.count("files read", 1);
    let same = match (a, b) {
      (Ok(x), Ok(y)) => x == y,
      (Err(x), Err(y)) => format!("{x:?}") == format!("{y:?}"),
      _ => false,
    };
    c.check(same, "parse_xml_file and parse_xml disagree", || format!("{:?}\n{:?}", short(a), short(b)));
  }
  let after = std::fs::read(&p).unwrap();
  let m2 = std::fs::metadata(&p).unwrap();
  c.check(after == d && m2.modified().unwrap() == meta.modified().unwrap(), "the file that was read has changed", String::new);
  // and what is written to a real file is what is read back from it
  if let Some(Ok(l)) = &direct {
    let q = dir.join("out.xml");
    let mut f = std::fs::File::create(&q).unwrap();
    let w = c.sut("write_file", || write_file(l, &mut f));
    drop(f);
    if let Some(Ok(())) = w {
      let back = std::fs::read(&q).unwrap();
      let s = c.sut("to_xml", || to_xml(l));
      if let Some(Ok(s)) = s {
        let (a, b) = (std::str::from_utf8(&back).map_err(|e| e.to_string()).and_then(xml::parse), xml::parse(&s));
        if let (Ok(b), a) = (b, a) {
          match a {
            Ok(a) => {
              let d = diff(&norm(&b), &norm(&a), "");
              c.check(d.is_none(), "the file written differs from to_xml", || d.clone().unwrap());
            }
            Err(m) => c.fail(&format!("the file written is not well-formed: {m}"), ""),
          }
        }
      }
    } else {
      c.check(w.is_none(), "writing to a file fails", || format!("{w:?}"));
    }
  }
  let _ = std::fs::remove_file(&p);
  let _ = std::fs::remove_file(dir.join("link"));
  let _ = std::fs::remove_file(dir.join("pipe"));
}

trait Nonblock {
  fn custom_flags_nonblock(&mut self) -> &mut Self;
}
impl Nonblock for std::fs::OpenOptions {
  fn custom_flags_nonblock(&mut self) -> &mut Self {
    use std::os::unix::fs::OpenOptionsExt;
    self.custom_flags(libc::O_NONBLOCK)
  }
}

fn short(r: &Result<Law, japanese_law_xml_schema::result::Error>) -> String {
  match r {
    Ok(_) => "a law".into(),
    Err(e) => format!("{e:?}"),
  }
}

/// paths that cannot be read, and devices that cannot be written
fn p07_paths(c: &mut Ctx, r: &mut R) {
  let dir = c.scratch.join("g");
  let _ = std::fs::create_dir_all(&dir);
  let d = |s: &str| dir.join(s).to_str().unwrap().to_string();
  let _ = std::fs::write(dir.join("plain"), b"x");
  let loop_ = dir.join("loop");
  let _ = std::fs::remove_file(&loop_);
  let _ = std::os::unix::fs::symlink(&loop_, &loop_);
  let dangling = dir.join("dangling");
  let _ = std::fs::remove_file(&dangling);
  let _ = std::os::unix::fs::symlink(dir.join("nothing"), &dangling);
  let cases: Vec<(&str, String)> = vec![
    ("missing file", d("missing.xml")),
    ("missing directory", d("no/such/dir.xml")),
    ("directory", d("")),
    ("file used as a directory", d("plain/law.xml")),
    ("empty path", String::new()),
    ("path with NUL", d("a\0b")),
    ("path too long", d(&"y".repeat(5000))),
    ("name too long", d(&"z".repeat(300))),
    ("symbolic link loop", d("loop")),
    ("dangling link", d("dangling")),
    ("read error", "/proc/self/mem".into()),
  ];
  for (what, p) in &cases {
    c.input = Some(p.clone());
    let Some(res) = c.sut("parse_xml_file", || parse_xml_file(p)) else { continue };
    c.eval(hash_str(what), true);
    c.count("unreadable paths", 1);
    if !is_io(&res) {
      c.fail(&format!("unreadable file not reported as an I/O error: {what}"), &short(&res));
    }
  }
  let law = gen_law(r);
  if let Ok(mut f) = std::fs::OpenOptions::new().write(true).open("/dev/full") {
    let Some(res) = c.sut("write_file to /dev/full", || write_file(&law, &mut f)) else { return };
    c.eval(hash_str("full"), true);
    c.check(is_io(&res), "full device not reported as an I/O error", || format!("{res:?}"));
  }
  if let Ok(mut f) = std::fs::File::open(dir.join("plain")) {
    let Some(res) = c.sut("write_file to a file opened for reading", || write_file(&law, &mut f)) else { return };
    c.eval(hash_str("readonly"), true);
    c.check(is_io(&res), "file opened for reading not reported as an I/O error", || format!("{res:?}"));
  }
  // a closed pipe
  let mut fds = [0i32; 2];
  if unsafe { libc::pipe(fds.as_mut_ptr()) } == 0 {
    use std::os::fd::FromRawFd;
    unsafe { libc::close(fds[0]) };
    let mut f = unsafe { std::fs::File::from_raw_fd(fds[1]) };
    let Some(res) = c.sut("write_file to a closed pipe", || write_file(&law, &mut f)) else { return };
    c.eval(hash_str("pipe"), true);
    c.check(is_io(&res), "closed pipe not reported as an I/O error", || format!("{res:?}"));
  }
}

// ------------------------------------------------------------------ P19

fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
  use std::hash::Hasher;
  let mut h = std::collections::hash_map::DefaultHasher::new();
  t.hash(&mut h);
  h.finish()
}

pub fn p19(stage: &str, c: &mut Ctx, r: &mut R) {
  let law = match stage {
    "memory" => match c.sut("building a law", || gen_law(r)) {
      Some(l) => l,
      None => return,
    },
    "read" => {
      let l = gen_law(r);
      let lex = Lex::wild(r);
      let doc = xml::to_bytes(&l.x(), &lex, r);
      match guard(|| parse_xml(&doc)) {
        Ok(Ok(l)) => l,
        _ => return,
      }
    }
    _ => {
      reset();
      let t = super::textp::any_text(r);
      match guard(|| super::textp::parse(&t)) {
        Ok(Ok(l)) => l,
        _ => return,
      }
    }
  };
  let Some(res) = c.sut("serialising", || serde_json::to_string(&law)) else { return };
  let s = match res {
    Ok(s) => s,
    Err(e) => return c.fail("serialising fails", &e.to_string()),
  };
  c.input = Some(s.clone());
  c.eval(hash_str(&s), s.len() > 800);
  c.count("JSON bytes", s.len() as u64);
  see_json(c, &serde_json::from_str(&s).unwrap_or(serde_json::Value::Null), "");
  let Some(res) = c.sut("deserialising", || serde_json::from_str::<Law>(&s)) else { return };
  // serde_json reads at most 128 levels of nesting from a text, but any depth from a value tree
  let too_deep = |e: &serde_json::Error| e.to_string().starts_with("recursion limit exceeded");
  let mut deep = false;
  let res = match res {
    Err(e) if too_deep(&e) => {
      deep = true;
      c.count("JSON deeper than 128 levels", 1);
      let Some(res) = c.sut("deserialising", || serde_json::to_value(&law).and_then(serde_json::from_value::<Law>)) else { return };
      res
    }
    res => res,
  };
  let l2 = match res {
    Ok(l) => l,
    Err(e) => return c.fail(&format!("own JSON refused: {}", e.to_string().split(" at line").next().unwrap_or("")), &e.to_string()),
  };
  if l2 != law {
    let d = diff(&norm(&law.x()), &norm(&l2.x()), "").unwrap_or_else(|| first_debug_diff(&law, &l2));
    return c.fail(&format!("JSON round trip changes the law at {}", diff_sig(&d)), &d);
  }
  c.count("JSON round trips", 1);
  c.check(hash_of(&law) == hash_of(&l2), "equal laws have different hashes", String::new);
  let cl = law.clone();
  c.check(cl == law && hash_of(&cl) == hash_of(&law), "a clone is not equal to its original", String::new);
  // other JSON routes: pretty text, bytes, a value tree, a reader
  let other = match if deep { 2 } else { r.n(4) } {
    0 => serde_json::to_string_pretty(&law).ok().and_then(|t| serde_json::from_str::<Law>(&t).ok()),
    1 => serde_json::to_vec(&law).ok().and_then(|t| serde_json::from_slice::<Law>(&t).ok()),
    2 => serde_json::to_value(&law).ok().and_then(|t| serde_json::from_value::<Law>(t).ok()),
    _ => serde_json::from_reader::<_, Law>(s.as_bytes()).ok(),
  };
  match other {
    Some(l3) => c.check(l3 == law, "another JSON route changes the law", || first_debug_diff(&law, &l3)),
    None => c.check(false, "another JSON route fails", String::new),
  };
  if let Ok(s2) = serde_json::to_string(&l2) {
    c.check(s2 == s, "equal laws give different JSON", || first_debug_diff(&s, &s2));
  }
  if r.p(25) {
    if let (Ok(Ok(a)), Ok(Ok(b))) = (guard(|| to_xml(&law)), guard(|| to_xml(&l2))) {
      if let (Ok(a), Ok(b)) = (xml::parse(&a), xml::parse(&b)) {
        let d = diff(&norm(&a), &norm(&b), "");
        c.check(d.is_none(), "the XML differs after a JSON round trip", || d.clone().unwrap());
      }
    }
  }
  // inequality: a law that differs in one place must not be equal and must have other JSON
  let mut m = law.clone();
  let what = super::listp::tweak(&mut m, r);
  if let Some(what) = what {
    c.eval(hash_str(&s) ^ 1, true);
    c.count("tweaked laws", 1);
    c.check(m != law, &format!("laws that differ are equal ({what})"), String::new);
    if let Ok(s2) = serde_json::to_string(&m) {
      c.check(s2 != s, &format!("laws that differ have the same JSON ({what})"), String::new);
    }
  }
}

fn see_json(c: &mut Ctx, v: &serde_json::Value, path: &str) {
  match v {
    serde_json::Value::Object(m) => {
      for (k, v) in m {
        c.see("JSON field names", k);
        see_json(c, v, k);
      }
    }
    serde_json::Value::Array(a) => {
      for v in a {
        see_json(c, v, path);
      }
    }
    serde_json::Value::String(s) if s.len() < 14 && s.is_ascii() => c.see("JSON unit values", &format!("{path}={s}")),
    _ => (),
  }
}
