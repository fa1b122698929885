//! P06: documents that violate the schema.
use super::xmlp::{gen_law, nth, nth_mut};
use super::*;
use crate::model::*;
use crate::xml::{self, Lex, E, N};
use japanese_law_xml_schema::{law::Law, parse_xml, result::Error};
use std::collections::BTreeMap;

fn collect(e: &E, kids: &mut BTreeMap<String, BTreeMap<String, u64>>, attrs: &mut BTreeMap<String, BTreeMap<String, u64>>, n: &mut BTreeMap<String, u64>) {
  *n.entry(e.name.clone()).or_default() += 1;
  let mut seen = std::collections::BTreeSet::new();
  for k in e.elems() {
    if seen.insert(k.name.clone()) {
      *kids.entry(e.name.clone()).or_default().entry(k.name.clone()).or_default() += 1;
    }
    collect(k, kids, attrs, n);
  }
  for a in e.attrs.keys() {
    *attrs.entry(e.name.clone()).or_default().entry(a.clone()).or_default() += 1;
  }
}

fn outcome(t: &E) -> String {
  let doc = xml::to_doc(t, &Lex::plain(), &mut R::new(1));
  match guard(|| parse_xml(doc.as_bytes())) {
    Ok(Ok(_)) => "OK".into(),
    Ok(Err(e)) => format!("{e:?}").chars().take(150).collect(),
    Err(p) => format!("PANIC {p}"),
  }
}

pub fn experiment(n: u64) {
  quiet_panics();
  let (mut kids, mut attrs, mut cnt) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
  for i in 0..n {
    reset();
    let mut r = R::new(i);
    let l = gen_law(&mut r);
    collect(&l.x(), &mut kids, &mut attrs, &mut cnt);
  }
  for (e, c) in &cnt {
    let f = |m: Option<&BTreeMap<String, u64>>| m.map(|m| m.iter().map(|(k, v)| if v == c { format!("{k}!") } else { k.clone() }).collect::<Vec<_>>().join(" ")).unwrap_or_default();
    println!("SCHEMA {e} | {} | {}", f(attrs.get(e)), f(kids.get(e)));
  }
  let names: Vec<String> = cnt.keys().cloned().collect();
  let mut out: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
  for i in 0..n {
    reset();
    let mut r = R::new(i);
    r.b = 40;
    let t = gen_law(&mut r).x();
    if outcome(&t) != "OK" {
      continue;
    }
    for _ in 0..30 {
      let mut m = t.clone();
      let k = r.n(m.count());
      let parent_of = |t: &E, k: usize| -> String {
        fn go(e: &E, k: &mut usize, p: &str) -> Option<String> {
          if *k == 0 {
            return Some(p.to_string());
          }
          *k -= 1;
          for c in e.elems() {
            if let Some(s) = go(c, k, &e.name) {
              return Some(s);
            }
          }
          None
        }
        let mut k = k;
        go(t, &mut k, "").unwrap_or_default()
      };
      let par = parent_of(&t, k);
      let name = nth(&t, k).name.clone();
      let e = nth_mut(&mut m, k);
      let key = match r.n(6) {
        0 => {
          let p = r.n(e.kids.len() + 1);
          let b = E::n("Bogus").t("x");
          e.kids.insert(p, N::E(b));
          format!("insert Bogus in {par}>{name}")
        }
        1 => {
          let w = r.pick(&names).clone();
          if kids.get(&name).is_some_and(|m| m.contains_key(&w)) {
            continue;
          }
          let p = r.n(e.kids.len() + 1);
          e.kids.insert(p, N::E(E::n(&w).t("x")));
          format!("insert known in {name}")
        }
        2 => {
          if e.attrs.is_empty() {
            continue;
          }
          let a: Vec<String> = e.attrs.keys().cloned().collect();
          let a = r.pick(&a).clone();
          e.attrs.remove(&a);
          format!("drop attr {name}@{a}")
        }
        3 => {
          if e.attrs.is_empty() {
            continue;
          }
          let a: Vec<String> = e.attrs.keys().cloned().collect();
          let a = r.pick(&a).clone();
          e.attrs.insert(a.clone(), r.pick(&["abc", "-1", "1_", "", "truee", "1.5", "99999999999999999999999"]).to_string());
          format!("corrupt attr {name}@{a} ")
        }
        4 => {
          let ks: Vec<String> = e.elems().map(|k| k.name.clone()).collect();
          if ks.is_empty() {
            continue;
          }
          let w = r.pick(&ks).clone();
          e.kids.retain(|k| !matches!(k, N::E(k) if k.name == w));
          format!("drop all {name}>{w}")
        }
        _ => {
          let p = r.n(e.kids.len() + 1);
          e.kids.insert(p, N::T("裸の文".into()));
          format!("insert text in {name}")
        }
      };
      *out.entry(key).or_default().entry(outcome(&m)).or_default() += 1;
    }
  }
  for (k, m) in out {
    let s: Vec<String> = m.iter().map(|(o, c)| format!("{c}x {o}")).collect();
    println!("{k} => {}", s.iter().take(8).cloned().collect::<Vec<_>>().join(" || "));
  }
}


// ------------------------------------------------------------------ P06

/// the children every element kind may have (element content and mixed content), as the schema says
fn allowed(name: &str) -> Option<Vec<&'static str>> {
  const TEXT: &[&str] = &["Line", "Ruby", "Sub", "Sup"];
  let l: &[&str] = match name {
    "Rt" | "Sup" | "Sub" | "Fig" | "LawNum" => &[],
    "Ruby" => &["Rt"],
    "Law" => &["LawNum", "LawBody"],
    "LawBody" => &["LawTitle", "EnactStatement", "TOC", "Preamble", "MainProvision", "SupplProvision", "AppdxTable", "AppdxNote", "AppdxStyle", "Appdx", "AppdxFig", "AppdxFormat"],
    "Preamble" => &["Paragraph"],
    "MainProvision" => &["Part", "Chapter", "Section", "Article", "Paragraph"],
    "SupplProvision" => &["SupplProvisionLabel", "Chapter", "Article", "Paragraph", "SupplProvisionAppdxTable", "SupplProvisionAppdxStyle", "SupplProvisionAppdx"],
    "Part" => &["PartTitle", "Chapter", "Article"],
    "Chapter" => &["ChapterTitle", "Section", "Article"],
    "Section" => &["SectionTitle", "Subsection", "Division", "Article"],
    "Subsection" => &["SubsectionTitle", "Division", "Article"],
    "Division" => &["DivisionTitle", "Article"],
    "Article" => &["ArticleCaption", "ArticleTitle", "Paragraph", "SupplNote"],
    "Paragraph" => &["ParagraphCaption", "ParagraphNum", "ParagraphSentence", "AmendProvision", "Class", "TableStruct", "FigStruct", "StyleStruct", "Item", "List"],
    "ParagraphSentence" => &["Sentence"],
    "Item" => &["ItemTitle", "ItemSentence", "Subitem1", "TableStruct", "FigStruct", "StyleStruct", "List"],
    "ItemSentence" => &["Sentence", "Column", "Table"],
    "List" => &["ListSentence", "Sublist1"],
    "Sublist1" => &["Sublist1Sentence", "Sublist2"],
    "Sublist2" => &["Sublist2Sentence", "Sublist3"],
    "Sublist3" => &["Sublist3Sentence"],
    "ListSentence" | "Sublist1Sentence" | "Sublist2Sentence" | "Sublist3Sentence" => &["Sentence", "Column"],
    "Column" => &["Sentence"],
    "Sentence" => &["Line", "QuoteStruct", "ArithFormula", "Ruby", "Sup", "Sub"],
    "TableStruct" => &["TableStructTitle", "Remarks", "Table"],
    "Table" => &["TableHeaderRow", "TableRow"],
    "TableHeaderRow" => &["TableHeaderColumn"],
    "TableRow" => &["TableColumn"],
    "FigStruct" => &["FigStructTitle", "Fig", "Remarks"],
    "NoteStruct" => &["NoteStructTitle", "Note", "Remarks"],
    "StyleStruct" => &["StyleStructTitle", "Style", "Remarks"],
    "FormatStruct" => &["FormatStructTitle", "Format", "Remarks"],
    "Remarks" => &["RemarksLabel", "Item", "Sentence"],
    "TOCArticle" => &["ArticleTitle", "ArticleCaption"],
    "AmendProvision" => &["AmendProvisionSentence", "NewProvision"],
    "AmendProvisionSentence" => &["Sentence"],
    "PartTitle" | "ChapterTitle" | "SectionTitle" | "SubsectionTitle" | "DivisionTitle" | "ArticleTitle" | "ArticleCaption" | "ParagraphCaption" | "ParagraphNum" | "ItemTitle" | "ClassTitle" | "TableHeaderColumn"
    | "TableStructTitle" | "FigStructTitle" | "NoteStructTitle" | "StyleStructTitle" | "FormatStructTitle" | "RelatedArticleNum" | "ArithFormulaNum" | "LawTitle" | "EnactStatement" | "TOCLabel" | "SupplNote" => TEXT,
    n if n.starts_with("Subitem") && n.ends_with("Sentence") => &["Sentence", "Column", "Table"],
    n if n.starts_with("Subitem") && n.ends_with("Title") => TEXT,
    _ => return None,
  };
  Some(l.to_vec())
}

/// elements an element of that kind cannot do without
fn mandatory(parent: &str, child: &str) -> bool {
  matches!(
    (parent, child),
    ("Law", "LawNum" | "LawBody")
      | ("LawBody", "MainProvision")
      | ("Part", "PartTitle")
      | ("Chapter", "ChapterTitle")
      | ("Section", "SectionTitle")
      | ("Subsection", "SubsectionTitle")
      | ("Division", "DivisionTitle")
      | ("Item", "ItemSentence")
      | ("ItemSentence", "Sentence" | "Column" | "Table")
      | ("Class", "ClassSentence")
      | ("ClassSentence", "Sentence" | "Column" | "Table")
      | ("TableStruct", "Table")
      | ("FigStruct", "Fig")
      | ("NoteStruct", "Note")
      | ("StyleStruct", "Style")
      | ("FormatStruct", "Format")
      | ("Remarks", "RemarksLabel")
      | ("List", "ListSentence")
      | ("Sublist1", "Sublist1Sentence")
      | ("Sublist2", "Sublist2Sentence")
      | ("Sublist3", "Sublist3Sentence")
      | ("TOCArticle", "ArticleCaption")
      | ("AmendProvisionSentence", "Sentence")
      | ("SupplProvisionAppdxTable", "SupplProvisionAppdxTableTitle")
      | ("SupplProvisionAppdxStyle", "SupplProvisionAppdxStyleTitle")
  ) || (parent.starts_with("Subitem") && !parent.ends_with("Title") && (child == format!("{parent}Sentence") || (parent.ends_with("Sentence") && matches!(child, "Sentence" | "Column" | "Table"))))
}

fn is_subitem(e: &str) -> bool {
  e.starts_with("Subitem") && !e.ends_with("Title") && !e.ends_with("Sentence")
}

fn required_attr(e: &str, a: &str) -> bool {
  match a {
    "Era" | "Year" | "LawType" | "Lang" => e == "Law",
    "src" => e == "Fig",
    "Num" => matches!(e, "Law" | "Part" | "Chapter" | "Section" | "Subsection" | "Division" | "Article" | "Paragraph" | "Item" | "Class" | "TOCPart" | "TOCChapter" | "TOCSection" | "TOCSubsection" | "TOCDivision" | "TOCArticle") || is_subitem(e),
    _ => false,
  }
}

/// illegal values for an attribute, if it is one with a restricted set of values that must be refused
fn illegal(e: &str, a: &str, r: &mut R) -> Option<(String, &'static str)> {
  let enums = match (e, a) {
    ("Law", "Era" | "LawType" | "Lang") | ("Sentence", "Function" | "Indent") | ("Line", "Style") | ("SupplProvision", "Type") => true,
    _ => false,
  };
  if enums {
    return Some((r.pick(&["", "abc", "meiji", "Act ", "JA", "1", "None", "Main2", "SOLID", "new"]).to_string(), "enumeration"));
  }
  if xml::BOOLS.contains(&a) {
    return Some((r.pick(&["", "truee", "True", "FALSE", "yes", "2", "t", "真", "01", "true false", "-1", "はい"]).to_string(), "truth value"));
  }
  let plain = match (e, a) {
    ("Law", "Year") | ("Sentence" | "Column" | "ArithFormula", "Num") => Some(true),
    ("Law", "PromulgateMonth" | "PromulgateDay") => Some(false), // an empty value stands for an unknown one
    _ => None,
  };
  if let Some(empty_illegal) = plain {
    let s = r.pick(&["", "abc", "-1", "1.5", "１", "一", "1 2", "0x1", "1e3", "99999999999999999999999999", "18446744073709551616", "1_2", "1:2", "--1", "1,000", "第一"]).to_string();
    return if s.is_empty() && !empty_illegal { None } else { Some((s, "number")) };
  }
  if a == "Num" && (matches!(e, "Law" | "Part" | "Chapter" | "Section" | "Subsection" | "Division" | "Article" | "Paragraph") || (e.starts_with("TOC") && e != "TOC")) {
    let s = r.pick(&["", "abc", "-1", "1.5", "１", "一", "1_", "_1", "1__2", "1:", ":1", "1:2:3", "1_2:", "1 2", "0x1", "1-2", "99999999999999999999999999", "1_18446744073709551616", "第一", "1_a", "1:b", "1:2_c", "a_1"]).to_string();
    return if s.is_empty() && e == "Law" { None } else { Some((s, "number with branches")) };
  }
  None
}

/// what may be reported for the mutation
struct Want {
  kind: String,
  what: String,
  ok: Box<dyn Fn(&Error) -> bool>,
}

fn missing_attr(e: &str, a: &str) -> Box<dyn Fn(&Error) -> bool> {
  let (e, a) = (e.to_string(), a.to_string());
  Box::new(move |x| matches!(x, Error::MissingRequiredAttribute { tag_name, attribute_name } if *tag_name == e && *attribute_name == a))
}
fn bad_attr(e: &str, a: &str) -> Box<dyn Fn(&Error) -> bool> {
  let (e, a) = (e.to_string(), a.to_string());
  Box::new(move |x| matches!(x, Error::AttributeParseError { tag_name, attribute_name } if *tag_name == e && *attribute_name == a))
}
/// the misplaced element is named as the wrong one; or, where it stands in the place of a required one, that one is missing
fn misplaced(name: &str, displaced: Option<String>) -> Box<dyn Fn(&Error) -> bool> {
  let name = name.to_string();
  Box::new(move |x| match x {
    Error::UnexpectedTag { wrong_name, .. } | Error::WrongTagName { wrong_name, .. } => *wrong_name == name,
    Error::MissingRequiredTag { tag_name } => displaced.as_ref().is_some_and(|d| names(tag_name, d)),
    _ => false,
  })
}
/// "Sentence or Column or Table" names each of the three; ItemSentence and its kind hold exactly these
fn names(tag_name: &str, d: &str) -> bool {
  tag_name.split(" or ").any(|t| t == d || (d.ends_with("Sentence") && t == "Sentence"))
}
fn missing(parent: &str, name: &str) -> Box<dyn Fn(&Error) -> bool> {
  let (parent, name) = (parent.to_string(), name.to_string());
  Box::new(move |x| match x {
    Error::MissingRequiredTag { tag_name } => names(tag_name, &name),
    // another element stands where the required one is expected
    Error::UnexpectedTag { tag, .. } => *tag == name,
    Error::WrongTagName { expected_name, .. } => *expected_name == name && parent != name,
    _ => false,
  })
}

fn pick_where(t: &E, r: &mut R, f: &dyn Fn(&E) -> bool) -> Option<usize> {
  fn go<'a>(e: &'a E, k: &mut usize, f: &dyn Fn(&E) -> bool, by: &mut BTreeMap<&'a str, Vec<usize>>) {
    if f(e) {
      by.entry(&e.name).or_default().push(*k);
    }
    *k += 1;
    for c in e.elems() {
      go(c, k, f, by);
    }
  }
  // each kind of element equally often
  let mut by = BTreeMap::new();
  go(t, &mut 0, f, &mut by);
  if by.is_empty() {
    return None;
  }
  let groups: Vec<&Vec<usize>> = by.values().collect();
  let g = *r.pick(&groups);
  Some(*r.pick(g))
}

fn first_required(e: &E) -> Option<String> {
  e.elems().find(|k| mandatory(&e.name, &k.name)).map(|k| k.name.clone())
}

fn mutate(t: &mut E, kind: &str, r: &mut R) -> Option<Want> {
  let all: &[&str] = super::xmlp::NAMES;
  match kind {
    "unknown element" | "known element out of place" => {
      let k = r.n(t.count());
      let k = if r.p(60) { pick_where(t, r, &|_| true)? } else { k };
      let e = nth_mut(t, k);
      let parent = e.name.clone();
      let new = if kind == "unknown element" {
        let own = e.name.to_lowercase();
        r.pick(&["Bogus", "法令", "Sentences", "Ruby2", "Subitem11", "sentence", "LAW", &own]).to_string()
      } else {
        let ok = allowed(&parent)?;
        let s = r.pick(all).to_string();
        // Law inside anything is as wrong as the rest
        if ok.contains(&s.as_str()) {
          return None;
        }
        s
      };
      if new == parent && allowed(&parent).is_none() {
        return None;
      }
      let p = r.n(e.kids.len() + 1);
      // what of the required elements comes after the place
      let displaced = e.kids[p..].iter().find_map(|k| match k {
        N::E(k) if mandatory(&parent, &k.name) => Some(k.name.clone()),
        _ => None,
      });
      let mut b = E::n(&new);
      if r.p(50) {
        b = b.t("文");
      }
      if r.p(30) {
        b = b.a("Num", "1");
      }
      e.kids.insert(p, N::E(b));
      Some(Want { kind: kind.into(), what: if kind == "unknown element" { format!("in {parent}") } else { format!("{new} in {parent}") }, ok: misplaced(&new, displaced) })
    }
    "renamed element" => {
      let k = pick_where(t, r, &|e| e.elems().next().is_some())?;
      let e = nth_mut(t, k);
      let parent = e.name.clone();
      let idx: Vec<usize> = (0..e.kids.len()).filter(|i| matches!(e.kids[*i], N::E(_))).collect();
      let i = *r.pick(&idx);
      let N::E(c) = &mut e.kids[i] else { return None };
      let old = c.name.clone();
      let new = match r.n(4) {
        0 => "Bogus".to_string(),
        1 => old.to_lowercase(),
        2 => format!("{old}2"),
        _ => format!("X{old}"),
      };
      c.name = new.clone();
      let m = mandatory(&parent, &old);
      let displaced = if m { Some(old.clone()) } else { first_required(e) };
      Some(Want { kind: kind.into(), what: format!("{old} in {parent}"), ok: misplaced(&new, displaced) })
    }
    "required element missing" => {
      let k = pick_where(t, r, &|e| e.elems().any(|c| mandatory(&e.name, &c.name)))?;
      let e = nth_mut(t, k);
      let parent = e.name.clone();
      let ks: Vec<String> = e.elems().filter(|c| mandatory(&parent, &c.name)).map(|c| c.name.clone()).collect();
      let w = r.pick(&ks).clone();
      e.kids.retain(|c| !matches!(c, N::E(c) if c.name == w));
      Some(Want { kind: kind.into(), what: format!("{w} of {parent}"), ok: missing(&parent, &w) })
    }
    "required attribute missing" => {
      let k = pick_where(t, r, &|e| e.attrs.keys().any(|a| required_attr(&e.name, a)))?;
      let e = nth_mut(t, k);
      let name = e.name.clone();
      let ks: Vec<String> = e.attrs.keys().filter(|a| required_attr(&name, a)).cloned().collect();
      let a = r.pick(&ks).clone();
      e.attrs.remove(&a);
      if r.p(20) {
        // a similar name does not help
        e.attrs.insert(a.to_lowercase() + "_", "1".into());
      }
      Some(Want { kind: kind.into(), what: format!("{a} of {name}"), ok: missing_attr(&name, &a) })
    }
    "illegal attribute value" => {
      // attributes that are there, or optional ones that could be
      let k = pick_where(t, r, &|e| e.attrs.keys().any(|a| illegal(&e.name, a, &mut R::new(1)).is_some() || illegal(&e.name, a, &mut R::new(2)).is_some()) || !options(&e.name).is_empty())?;
      let e = nth_mut(t, k);
      let name = e.name.clone();
      let mut ks: Vec<String> = e.attrs.keys().cloned().collect();
      ks.extend(options(&name).into_iter().map(|s| s.to_string()));
      r.shuffle(&mut ks);
      for a in ks {
        if let Some((v, what)) = illegal(&name, &a, r) {
          e.attrs.insert(a.clone(), v.clone());
          return Some(Want { kind: kind.into(), what: format!("{a} of {name} ({what})"), ok: bad_attr(&name, &a) });
        }
      }
      None
    }
    "not a law" => {
      let new = r.pick(&["law", "LawBody", "Laws", "html", "法令", "LawNum", "MainProvision", "Article"]).to_string();
      t.name = new.clone();
      Some(Want { kind: kind.into(), what: new.clone(), ok: Box::new(move |x| matches!(x, Error::WrongTagName { wrong_name, expected_name } if *wrong_name == new && expected_name == "Law")) })
    }
    _ => None,
  }
}

/// optional attributes with a restricted set of values
fn options(e: &str) -> Vec<&'static str> {
  match e {
    "Part" | "Chapter" | "Section" | "Subsection" | "Division" | "Article" | "Item" => vec!["Delete", "Hide"],
    e if is_subitem(e) => vec!["Delete", "Hide"],
    "Paragraph" => vec!["OldStyle", "OldNum", "Hide"],
    "TOCPart" | "TOCChapter" | "TOCSection" | "TOCSubsection" | "TOCDivision" | "TOCArticle" => vec!["Delete"],
    "Column" => vec!["LineBreak", "Num"],
    "RemarksLabel" => vec!["LineBreak"],
    "Sentence" => vec!["Num", "Function", "Indent"],
    "ArticleCaption" | "ParagraphCaption" => vec!["CommonCaption"],
    "MainProvision" => vec!["Extract"],
    "SupplProvision" => vec!["Extract", "Type"],
    "Line" => vec!["Style"],
    "ArithFormula" => vec!["Num"],
    "Law" => vec!["PromulgateMonth", "PromulgateDay"],
    _ => vec![],
  }
}

const KINDS: &[&str] = &["unknown element", "known element out of place", "renamed element", "required element missing", "required attribute missing", "illegal attribute value"];

fn breaks(r: &mut R, doc: &str) -> (Vec<u8>, &'static str) {
  let b = doc.as_bytes();
  let end = doc.rfind("</Law>").unwrap_or(b.len());
  match r.n(7) {
    0 => (b[..r.n(end + 6)].to_vec(), "cut off"),
    1 => (doc[..end].to_string().into_bytes(), "root not closed"),
    2 => (format!("{doc}<Law/>").into_bytes(), "second root"),
    3 => (doc.replacen("</LawNum>", "</LawBody>", 1).into_bytes(), "wrong end tag"),
    4 => (doc.replacen("<LawBody", "<LawBody a=\"1\" a=\"2\"", 1).into_bytes(), "attribute twice"),
    5 => (doc.replacen("<LawNum>", "<LawNum>& ", 1).into_bytes(), "bare ampersand"),
    _ => (format!("{{\"json\": {:?}}}", doc.len()).into_bytes(), "not XML"),
  }
}

fn kind_of(e: &Error) -> &'static str {
  match e {
    Error::MissingRequiredAttribute { .. } => "MissingRequiredAttribute",
    Error::MissingRequiredTag { .. } => "MissingRequiredTag",
    Error::AttributeParseError { .. } => "AttributeParseError",
    Error::WrongTagName { .. } => "WrongTagName",
    Error::UnexpectedTag { .. } => "UnexpectedTag",
    Error::XMLParsing => "XMLParsing",
    Error::ParsingError(..) => "ParsingError",
    Error::Io => "Io",
  }
}

pub fn p06(stage: &str, c: &mut Ctx, r: &mut R) {
  reset();
  r.b = *r.pick(&[30, 60, 120, 300]);
  let law: Law = gen_law(r);
  let tree = law.x();
  let lex = if r.p(60) { Lex::plain() } else { Lex::gen(r) };
  let base = xml::to_doc(&tree, &lex, r);
  c.input = Some(base.clone());
  match c.sut("parse_xml", || parse_xml(base.as_bytes())) {
    Some(Ok(_)) => (),
    Some(Err(_)) => return c.count("base document refused (see P01)", 1),
    None => return,
  }
  if stage == "malformed" {
    for _ in 0..6 {
      let (d, what) = breaks(r, &base);
      if d == base.as_bytes() {
        continue;
      }
      c.input = Some(String::from_utf8_lossy(&d).to_string());
      c.eval(hash_str(&String::from_utf8_lossy(&d)), true);
      c.count(&format!("malformed: {what}"), 1);
      match c.sut("parse_xml", || parse_xml(&d)) {
        Some(Err(Error::XMLParsing)) => (),
        Some(Err(e)) => c.fail(&format!("wrong error for malformed XML: {}", kind_of(&e)), &format!("{what}: {e:?}")),
        Some(Ok(_)) => c.fail(&format!("malformed XML accepted: {what}"), what),
        None => (),
      }
    }
    return;
  }
  for _ in 0..10 {
    let mut m = tree.clone();
    let kind = if r.p(2) { "not a law" } else { *r.pick(KINDS) };
    let Some(w) = mutate(&mut m, kind, r) else { continue };
    let lex = if r.p(60) { Lex::plain() } else { Lex { explicit_defaults: false, values: false, ..Lex::gen(r) } };
    let doc = xml::to_doc(&m, &lex, r);
    c.input = Some(doc.clone());
    c.eval(hash_str(&doc), true);
    c.count(&format!("violation: {}", w.kind), 1);
    c.see("distinct violations", &format!("{} {}", w.kind, w.what));
    c.sample(3, || json!({"violation": w.kind, "of": w.what, "error": format!("{:?}", parse_xml(doc.as_bytes()).err())}));
    match c.sut("parse_xml", || parse_xml(doc.as_bytes())) {
      None => return,
      Some(Ok(_)) => return c.fail(&format!("{}: {} is accepted", w.kind, w.what), &doc.chars().take(3000).collect::<String>()),
      Some(Err(e)) => {
        c.see("errors", &format!("{e:?}"));
        c.count(&format!("error: {}", kind_of(&e)), 1);
        if !(w.ok)(&e) {
          return c.fail(&format!("{}: {}: misleading error {}", w.kind, w.what, kind_of(&e)), &format!("{e:?}\n{}", doc.chars().take(3000).collect::<String>()));
        }
      }
    }
  }
}
