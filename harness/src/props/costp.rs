//! P22: the cost of a call grows in proportion to its argument, and nothing is kept when its result is dropped.
use super::*;
use crate::alloc;
use crate::model::*;
use crate::xml::{self, Lex, E, N};
use japanese_law_xml_schema::article_number::*;
use japanese_law_xml_schema::law::Law;
use japanese_law_xml_schema::utils::*;
use japanese_law_xml_schema::{parse_xml, to_xml, write_file};

pub fn stages() -> Vec<Stage> {
  vec![st("documents", 320, 9_000), st("texts", 48, 1_200), st("numbers", 120, 4_000), st("kept", 60, 1_500)]
}

/// what one call cost
#[derive(Clone, Copy, Debug, Default)]
struct Cost {
  bytes: f64,
  peak: f64,
  cpu: f64,
}
/// the cost of the call: allocation of one call, the least processor time of several
fn cost<T>(f: impl Fn() -> T, times: usize) -> Option<Cost> {
  let mut k = Cost { cpu: f64::MAX, ..Cost::default() };
  for _ in 0..times {
    let m = alloc::mark();
    let t = cpu_self();
    let v = guard(|| std::hint::black_box(f())).ok()?;
    k.cpu = k.cpu.min(cpu_self() - t);
    let n = alloc::now();
    drop(v);
    k.bytes = (n.total - m.total) as f64;
    k.peak = (n.peak - m.live) as f64;
  }
  Some(k)
}

/// compares the costs of a call with the first and the second argument, whose sizes are `la` and `lb`; false after a panic
fn compare(c: &mut Ctx, what: &str, la: usize, lb: usize, run: &dyn Fn(bool) -> u64) -> bool {
  let (Some(mut a), Some(mut b)) = (cost(|| run(false), 2), cost(|| run(true), 1)) else {
    c.fail(&format!("{what}: panic"), &format!("sizes {la} and {lb}"));
    return false;
  };
  let slow = |a: &Cost, b: &Cost| b.cpu > 0.3 && b.cpu / lb as f64 > 4.0 * a.cpu.max(0.0005) / la as f64;
  if slow(&a, &b) {
    // other processes can slow one measurement down, hardly all of them
    c.count("measured again", 1);
    for _ in 0..3 {
      if let (Some(x), Some(y)) = (cost(|| run(false), 3), cost(|| run(true), 1)) {
        a.cpu = a.cpu.max(x.cpu);
        b.cpu = b.cpu.min(y.cpu);
      }
      if !slow(&a, &b) {
        break;
      }
    }
  }
  let f = lb as f64 / la as f64;
c.count("cost comparisons", 1);
  c.see("calls compared", what);
  c.sample(12, || json!({"call": what, "sizes": [la, lb], "bytes allocated": [a.bytes, b.bytes], "bytes held at most": [a.peak, b.peak], "cpu_s": [a.cpu, b.cpu]}));
  for (k, x, y) in [("bytes", a.bytes, b.bytes), ("peak", a.peak, b.peak), ("time", a.cpu.max(0.0005), b.cpu.max(0.0005))] {
    let g = y / f / x.max(1e-9);
    c.count(&format!("{k} against proportion: {}", if g < 1.25 { "up to 1.25" } else if g < 1.6 { "up to 1.6" } else if g < 2.0 { "up to 2" } else if g < 2.5 { "up to 2.5" } else if g < 3.0 { "up to 3" } else { "above 3" }), 1);
  }
  let more = |x: f64, y: f64, least: f64| y / f > 3.0 * x.max(least);
  let d = || format!("sizes {la} and {lb} (factor {f:.1}): {a:?} and {b:?}");
  // below a few hundred kilobytes (fixed costs) or tenths of a second the ratio says nothing
  c.check(!more(a.bytes, b.bytes, 50_000.0), &format!("{what}: allocates more than in proportion"), d);
  c.check(!more(a.peak, b.peak, 50_000.0), &format!("{what}: holds more than in proportion"), d);
  c.check(!slow(&a, &b), &format!("{what}: takes longer than in proportion"), d);
  // no call needs a fixed 64 MB, or thousands of bytes per byte
  c.check(a.peak < 64e6 + 20_000.0 * la as f64, &format!("{what}: holds much more than the size of its argument"), d);
  true
}

// ------------------------------------------------------------------ documents

pub fn paths(e: &E, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
  for (i, k) in e.kids.iter().enumerate() {
    at.push(i);
    out.push(at.clone());
    if let N::E(k) = k {
      paths(k, at, out);
    }
    at.pop();
  }
}
pub fn parent_of<'a>(e: &'a mut E, path: &[usize]) -> &'a mut E {
  let mut e = e;
  for i in &path[..path.len() - 1] {
    let N::E(k) = &mut e.kids[*i] else { unreachable!() };
    e = k;
  }
  e
}

/// the tree with one part repeated until it makes up about `size` bytes; its name
fn grow(tree: &E, path: &[usize], attr: &Option<String>, size: usize) -> (E, String) {
  let mut t = tree.clone();
  let p = parent_of(&mut t, path);
  let at = *path.last().unwrap();
  let pname = p.name.clone();
  match p.kids[at].clone() {
    N::T(s) => {
      let n = size / s.len().max(1) + 1;
      p.kids[at] = N::T(s.repeat(n));
      (t, format!("text of {pname}"))
    }
    N::E(mut k) => {
      if let Some(a) = attr {
        let v = k.attrs[a].clone();
        let joint = if v.chars().all(|c| c.is_ascii_digit() || c == '_') && !v.is_empty() { "_" } else { "" };
        let n = size / (v.len() + joint.len()).max(1) + 1;
        let name = format!("{}@{a}", k.name);
        k.attrs.insert(a.clone(), vec![v; n].join(joint));
        p.kids[at] = N::E(k);
        return (t, name);
      }
      let one = xml::to_doc(&k, &Lex::plain(), &mut R::new(1)).len();
      let n = size / one + 1;
      let name = format!("{pname}>{}", k.name);
      p.kids.splice(at..at + 1, vec![N::E(k); n]);
      (t, name)
    }
  }
}

struct Call {
  name: &'static str,
  f: fn(&Law) -> u64,
}
fn len<T>(v: &[T]) -> u64 {
  v.len() as u64
}
const CALLS: &[Call] = &[
  Call { name: "to_xml", f: |l| to_xml(l).map(|s| s.len() as u64).unwrap_or(0) },
  Call { name: "write_file", f: |l| write_file(l, &mut std::io::sink()).is_ok() as u64 },
  Call { name: "article lists", f: |l| {
    let b = &l.law_body;
    let m = article_list_from_main_provision(&b.main_provision);
    let w = with_number_article_list_from_main_provision(&b.main_provision);
    let mut n = len(&m.0) + len(&w.1);
    for s in &b.suppl_provision {
      n += len(&article_list_from_suppl_provision(s).0) + len(&with_number_article_list_from_suppl_provision(s).0);
    }
    n
  } },
  Call { name: "tables of contents", f: |l| {
    let b = &l.law_body;
    len(&toc_list_from_main_provision(&b.main_provision)) + b.suppl_provision.iter().map(|s| len(&toc_list_from_suppl_provision(s))).sum::<u64>()
  } },
  Call { name: "texts", f: |l| {
    use japanese_law_xml_schema::law::MainProvisionContents as M;
    let mut n = 0;
    for c in &l.law_body.main_provision.children {
      n += match c {
        M::Article(a) => text_from_article(a).len() as u64,
        M::Paragraph(p) => len(&text_info_list_from_paragraph(std::slice::from_ref(p))),
        _ => 0,
      };
    }
    for a in article_list_from_main_provision(&l.law_body.main_provision).0 {
      n += len(&text_info_list_from_paragraph(&a.paragraph));
    }
    n
  } },
  Call { name: "JSON", f: |l| serde_json::to_value(l).ok().and_then(|v| serde_json::from_value::<Law>(v).ok()).is_some() as u64 },
  Call { name: "JSON text", f: |l| serde_json::to_string(l).ok().map(|s| s.len() as u64 + serde_json::from_str::<Law>(&s).is_ok() as u64).unwrap_or(0) },
  Call { name: "clone and compare", f: |l| (l.clone() == *l) as u64 },
];

const SMALL: usize = 30_000;
const TIMES: usize = 30;

/// a part that can be repeated: a law's tree, the way to the part, one of its attributes
struct Part {
  tree: usize,
  path: Vec<usize>,
  attr: Option<String>,
}
const BODY: &[&str] = &["LawBody", "MainProvision", "SupplProvision", "Part", "Chapter", "Section", "Subsection", "Division", "Article", "Paragraph", "Item", "TOC", "Preamble"];
struct Pool {
  trees: Vec<(E, usize)>,
  parts: Vec<Part>,
}
/// every kind of part (child in parent, attribute of element, text of element) once, those of the structure of a law first
fn pool(which: u64) -> &'static Pool {
  static P: std::sync::Mutex<Vec<(u64, &'static Pool)>> = std::sync::Mutex::new(vec![]);
  let mut all = P.lock().unwrap();
  if let Some((_, p)) = all.iter().find(|(k, _)| *k == which) {
    return p;
  }
  let mut r = R::new(mix(7_001 + which));
  let mut trees = vec![];
  let mut kinds: std::collections::BTreeMap<String, (u32, u64, Part)> = Default::default();
  for _ in 0..400 {
    let t = super::xmlp::gen_law(&mut r).x();
    let n = xml::to_doc(&t, &Lex::plain(), &mut R::new(1)).len();
    if n > 8_000 {
      continue;
    }
    let mut ps = vec![];
    paths(&t, &mut vec![], &mut ps);
    for p in ps {
      let mut e = &t;
      // in the provisions themselves, or in something embedded (a quotation, a table, an appendix)
      let mut proper = true;
      for i in &p[..p.len() - 1] {
        let N::E(k) = &e.kids[*i] else { unreachable!() };
        e = k;
        proper &= BODY.contains(&e.name.as_str()) || e.name.starts_with("Subitem") || e.name.starts_with("TOC");
      }
      let mut put = |name: String, class: u32, attr: Option<String>| {
        kinds.entry(name).or_insert_with(|| (class, r.next(), Part { tree: trees.len(), path: p.clone(), attr }));
      };
      match &e.kids[*p.last().unwrap()] {
        N::T(s) => {
          if !s.is_empty() {
            put(format!("text of {}", e.name), 3, None)
          }
        }
        N::E(k) => {
          const INLINE: &[&str] = &["Sentence", "Ruby", "Line", "Rt", "QuoteStruct", "ArithFormula", "Sup", "Sub"];
          let body = proper && !e.name.ends_with("Title") && !e.name.ends_with("Sentence");
          let inline = INLINE.contains(&k.name.as_str()) || INLINE.contains(&e.name.as_str()) || e.name.ends_with("Title") || e.name.ends_with("Label");
          put(format!("{}>{}{}", e.name, k.name, if proper { "" } else { " embedded" }), if body { 0 } else if inline { 2 } else { 1 }, None);
          for a in k.attrs.keys() {
            put(format!("{}@{a}", k.name), 4, Some(a.clone()));
          }
        }
      }
    }
    trees.push((t, n));
  }
  let mut v: Vec<_> = kinds.into_values().collect();
  v.sort_by_key(|x| (x.0, x.1));
  // three of the structure to one of the rest
  let (a, b): (Vec<_>, Vec<_>) = v.into_iter().partition(|x| x.0 == 0);
  let mut b = {
    let mut b = b;
    b.sort_by_key(|x| x.1);
    b.into_iter()
  };
  let mut parts = vec![];
  for (i, x) in a.into_iter().enumerate() {
    parts.push(x.2);
    if i % 3 == 2 {
      parts.extend(b.next().map(|x| x.2));
    }
  }
  parts.extend(b.map(|x| x.2));
  let p: &'static Pool = Box::leak(Box::new(Pool { trees, parts }));
  all.push((which, p));
  p
}

fn documents(c: &mut Ctx, _r: &mut R) {
  let mut at = c.index as usize;
  let pool = {
    let mut which = 0;
    loop {
      let p = pool(which);
      if at < p.parts.len() {
        break p;
      }
      at -= p.parts.len();
      which += 1;
    }
  };
  let Part { tree, path, attr } = &pool.parts[at];
  let (tree, base) = &pool.trees[*tree];
  let base = *base;
  let doc = |size: usize| {
    let (t, what) = grow(tree, path, attr, size);
    let mut d = xml::to_doc(&t, &Lex::plain(), &mut R::new(1)).into_bytes();
    d.shrink_to_fit();
    (d, what)
  };
  let ((a, what), (b, _)) = (doc(SMALL), doc(SMALL * TIMES));
  let kind = if attr.is_some() { "an attribute" } else if what.starts_with("text of") { "a text" } else { "an element" };
  c.count(&format!("grown: {kind}"), 1);
  c.see("parts grown", &what);
  c.input = Some(format!("{what} repeated in {}", xml::to_doc(tree, &Lex::plain(), &mut R::new(1))));
  c.eval(h(&a), b.len() > 100_000 && base > 300);
  let sizes = (a.len(), b.len());
  if !compare(c, "parse_xml", sizes.0, sizes.1, &|big| parse_xml(if big { &b } else { &a }).is_ok() as u64) {
    return;
  }
  // cut short, the document is refused at no more cost
  let (x, y) = (&a[..a.len() * 9 / 10], &b[..b.len() * 9 / 10]);
  compare(c, "parse_xml (refused)", x.len(), y.len(), &|big| parse_xml(if big { y } else { x }).is_err() as u64);
  let (Ok(la), Ok(lb)) = (parse_xml(&a), parse_xml(&b)) else {
    c.count("refused documents", 1);
    return;
  };
  c.count("accepted documents", 1);
  for k in CALLS {
    compare(c, k.name, sizes.0, sizes.1, &|big| (k.f)(if big { &lb } else { &la }));
  }
}

fn h(d: &[u8]) -> u64 {
  hash_str(&String::from_utf8_lossy(d))
}

// ------------------------------------------------------------------ texts

const TEXTS: usize = 12;
fn long_text(f: usize, lines: usize, len: usize) -> String {
  let body = "長い文、".repeat(len / 12);
  let mut s = String::new();
  let head = match f {
    0 => "",
    1 | 6 | 7 | 8 => "第一条　x\n",
    2 => "第一条　x\n一　x\n",
    9 => "第一編　x\n第一章　x\n第一節　x\n第一款　x\n第一目　x\n",
    11 => "第一条　x\n一　x\nイ　x\n（１）　x\n（ｉ）　x\nＡ　x\n",
    _ => "",
  };
  s.push_str(head);
  for i in 1..=lines {
    match f {
      0 => s += &format!("第{i}条　{body}"),
      1 => s += &format!("{i}　{body}"),
      2 => s += &format!("イ　{body}"),
      3 => s += &format!("第{i}章　{body}"),
      4 => s += &format!("附則\n第一条　{body}"),
      5 => s += &body,
      6 => s += &format!("一　{body}"),
      7 => s += &body,
      8 => s += &format!("（{body}）\n第{i}条　x"),
      9 => s += &format!("第{i}条　{body}"),
      10 => s += &format!("第{i}編　x\n第一条　{body}"),
      _ => s += &format!("ａ　{body}"),
    }
    s.push('\n');
  }
  s
}

fn texts(c: &mut Ctx, _r: &mut R) {
  let f = c.index as usize % TEXTS;
  // more lines, or longer lines
  let (n, m, l, k) = if (c.index / TEXTS as u64) % 2 == 0 { (12, 600, 12_000, 12_000) } else { (6, 6, 12_000, 180_000) };
  let (a, b) = (long_text(f, n, l), long_text(f, m, k));
  c.input = Some(format!("family {f}: {n} lines of {l} bytes, {m} lines of {k} bytes"));
  c.see("shapes of texts", &format!("{f} {n} {m}"));
  c.eval(hash_str(&b), true);
  compare(c, "parse_text", a.len(), b.len(), &|big| super::textp::parse(if big { &b } else { &a }).is_ok() as u64);
}

// ------------------------------------------------------------------ numbers

/// numbers of any size cost the same
fn numbers(c: &mut Ctx, r: &mut R) {
  let branches = r.n(4);
  let range = r.n(4);
  let one = |big: bool, r: &mut R| -> ArticleNumber {
    let mut n = |lo: usize| if big { big_num(r) } else { lo };
    ArticleNumber { base_number: n(1), eda_numbers: (0..branches).map(|_| n(2)).collect(), range_end_numbers: (0..range).map(|_| n(3)).collect() }
  };
  let (a, b) = (one(false, r), one(true, r));
  c.input = Some(format!("{a:?} {b:?}"));
  c.eval(hash_str(c.input.as_deref().unwrap()), branches + range > 0);
  let doc = |n: &ArticleNumber| {
    let s = num_ref(n);
    format!("<Law Era=\"Reiwa\" Year=\"5\" Num=\"{s}\" LawType=\"Act\" Lang=\"ja\"><LawNum>x</LawNum><LawBody><MainProvision><Article Num=\"{s}\"><ArticleTitle>x</ArticleTitle><Paragraph Num=\"{s}\"><ParagraphNum/><ParagraphSentence><Sentence>x</Sentence></ParagraphSentence><Item Num=\"{s}\"><ItemSentence><Sentence>x</Sentence></ItemSentence></Item></Paragraph></Article></MainProvision></LawBody></Law>")
  };
  let calls: Vec<(&str, Box<dyn Fn(&ArticleNumber) -> u64>)> = vec![
    ("num_str", Box::new(|n| n.num_str().len() as u64)),
    ("from_num_str", Box::new(|n| ArticleNumber::from_num_str(&num_ref(n)).is_ok() as u64)),
    ("headings", Box::new(|n| (n.part_text().len() + n.chapter_text().len() + n.section_text().len() + n.subsection_text().len() + n.division_text().len() + n.article_text().len()) as u64)),
    ("paragraph_text", Box::new(|n| n.paragraph_text().len() as u64)),
    ("item_text", Box::new(|n| n.item_text(ItemPattern::NoParenKansuji).len() as u64)),
    ("parse_article_number", Box::new(|n| parse_article_number(&n.article_text()).is_some() as u64)),
    ("parse_paragraph_number", Box::new(|n| parse_article_number(&n.paragraph_text()).is_some() as u64)),
    ("parse_item_number", Box::new(|n| parse_item_number(&n.item_text(ItemPattern::ParenZenkakuNum)).is_some() as u64)),
    ("whole law", Box::new(move |n| match parse_xml(doc(n).as_bytes()) {
      Ok(l) => (CALLS.iter().map(|k| (k.f)(&l)).sum::<u64>()).max(1),
      Err(_) => 0,
    })),
  ];
  for (name, f) in &calls {
    let (Some(ka), Some(kb)) = (cost(|| f(&a), 2), cost(|| f(&b), 2)) else { continue };
    c.count("numbers compared", 1);
    c.see("calls with numbers", name);
    let d = || format!("{a:?}: {ka:?}; {b:?}: {kb:?}");
    c.check(kb.bytes < 3.0 * ka.bytes + 200_000.0, &format!("{name}: memory depends on the size of a number"), d);
    c.check(kb.cpu < 10.0 * ka.cpu + 0.3, &format!("{name}: time depends on the size of a number"), d);
  }
}
fn big_num(r: &mut R) -> usize {
  *r.pick(&[usize::MAX, usize::MAX / 2, 10_000_000_000, 4_294_967_296, 999_999_999, 9_999_999_999_999_999])
}

// ------------------------------------------------------------------ kept

const WINDOWS: usize = 14;
/// calls with ever new arguments: the memory held must not grow with their number
fn kept(c: &mut Ctx, r: &mut R) {
  let kinds = ["read", "read damaged", "written", "failing writer", "listed", "JSON", "text", "text refused", "heading numbers", "item numbers", "machine numbers", "rendered"];
  let k = c.index as usize % kinds.len();
  let kind = kinds[k];
  let calls = match kind {
    "text" | "text refused" => 8,
    "read damaged" => 160,
    "heading numbers" | "item numbers" => 60,
    "machine numbers" | "rendered" => 200,
    _ => 30,
  };
  c.see("kinds of calls watched", kind);
  c.input = Some(format!("{kind}: {WINDOWS} windows of {calls} calls"));
  c.eval(mix(c.index ^ 991), true);
  let mut grew = vec![];
  for _ in 0..WINDOWS {
    let mut g = 0;
    for call in 0..calls {
      // arguments are made and dropped outside of the measurement
      let law = if k < 6 { Some(super::xmlp::gen_law(r)) } else { None };
      let mut doc = law.as_ref().filter(|_| k == 0).map(|l| xml::to_bytes(&l.x(), &Lex::plain(), r)).unwrap_or_default();
      if k == 1 {
        let mut t = law.as_ref().unwrap().x();
        doc = damage(&mut t, call, r);
      }
      let text = match kind {
        "text" => super::textp::any_text(r),
        "text refused" => format!("{}\n第一目　x\n（置けない）", super::textp::any_text(r)),
        "heading numbers" | "item numbers" | "machine numbers" => super::textp::hostile_line(r),
        _ => String::new(),
      };
      let num = g_num(r);
      let before = alloc::now().live;
      let ok = guard(|| match kind {
        "read" | "read damaged" => parse_xml(&doc).is_ok(),
        "written" => to_xml(law.as_ref().unwrap()).is_ok(),
        "failing writer" => write_file(law.as_ref().unwrap(), &mut Few(100)).is_ok(),
        "listed" => CALLS[2..5].iter().all(|k| (k.f)(law.as_ref().unwrap()) < u64::MAX),
        "JSON" => (CALLS[5].f)(law.as_ref().unwrap()) == 1,
        "text" | "text refused" => super::textp::parse(&text).is_ok(),
        "heading numbers" => parse_article_number(&text).is_some(),
        "item numbers" => parse_item_number(&text).is_some(),
        "machine numbers" => ArticleNumber::from_num_str(&text).is_ok() | ArticleNumber::from_num_str(&num_ref(&num)).is_ok(),
        _ => (num.num_str().len() + num.paragraph_text().len() + num.article_text().len()) > 0,
      });
      let after = alloc::now().live;
      if ok.is_err() {
        // P05 and P17 judge panics; an unwound call says nothing here
        c.count("calls that panicked", 1);
        continue;
      }
      c.count(if ok == Ok(true) { "calls watched: succeeded" } else { "calls watched: failed" }, 1);
      g += after - before;
    }
    grew.push(g);
  }
  c.sample(12, || json!({"kind": kind, "calls per window": calls, "bytes kept per window": grew}));
  c.count("windows", WINDOWS as u64);
  // something filled once (a table, a cache of limited size) is not a leak; growth that goes on is
  let (early, late): (i64, i64) = (grew[2..8].iter().sum(), grew[8..].iter().sum());
  let leak = grew[2..].iter().all(|g| *g >= 4) && late * 2 >= early;
  c.check(!leak, &format!("{kind}: memory is kept after the results are dropped"), || format!("bytes kept in {WINDOWS} windows of {calls} calls: {grew:?}"));
}
/// a document with one fault, of the kind `which`
fn damage(t: &mut E, which: usize, r: &mut R) -> Vec<u8> {
  let bytes = |t: &E, r: &mut R| xml::to_bytes(t, &Lex::plain(), r);
  match which % 8 {
    0 => {
      let mut d = bytes(t, r);
      d.truncate(r.n(d.len()));
      return d;
    }
    1 => {
      let mut d = bytes(t, r);
      let i = r.n(d.len());
      d[i] = *r.pick(b"<>&\"x\xff");
      return d;
    }
    _ => (),
  }
  // the elements on a random way down; the fault is put at one of them
  let mut ps = vec![];
  paths(t, &mut vec![], &mut ps);
  ps.retain(|p| matches!(&parent_of(t, p).kids[*p.last().unwrap()], N::E(_)));
  if ps.is_empty() || r.p(25) {
    // the root
    let e = t;
    match which % 8 {
      2 | 3 => drop(e.attrs.insert(r.pick(&["Year", "Era", "LawType", "Lang", "PromulgateDay"]).to_string(), "x".into())),
      4 => drop(e.attrs.remove(*r.pick(&["Year", "Era", "LawType", "Lang"]))),
      5 => e.name = "Lau".into(),
      6 => e.kids.retain(|_| r.p(50)),
      _ => e.kids.push(N::E(E::n("Nowhere"))),
    }
    return bytes(e, r);
  }
  // attributes are rarer than elements
  let with: Vec<_> = ps.iter().filter(|p| matches!(&parent_of(t, p).kids[*p.last().unwrap()], N::E(e) if !e.attrs.is_empty())).cloned().collect();
  let p = if which % 8 < 5 && !with.is_empty() { r.pick(&with).clone() } else { r.pick(&ps).clone() };
  let N::E(e) = &mut parent_of(t, &p).kids[*p.last().unwrap()] else { unreachable!() };
  match which % 8 {
    2 | 3 => e.attrs.values_mut().for_each(|v| *v = "x".into()),
    4 => e.attrs.clear(),
    5 => e.name = "Nowhere".into(),
    6 => e.kids.retain(|_| r.p(50)),
    _ => e.kids.push(N::E(E::n(*r.pick(&["Nowhere", "Law", "Item", "Rt"])))),
  }
  bytes(t, r)
}
struct Few(usize);
impl std::io::Write for Few {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    if self.0 == 0 {
      return Err(std::io::Error::from(std::io::ErrorKind::StorageFull));
    }
    let n = b.len().min(self.0);
    self.0 -= n;
    Ok(n)
  }
  fn flush(&mut self) -> std::io::Result<()> {
    Ok(())
  }
}

pub fn p22(stage: &str, c: &mut Ctx, r: &mut R) {
  match stage {
    "documents" => documents(c, r),
    "texts" => texts(c, r),
    "numbers" => numbers(c, r),
    _ => kept(c, r),
  }
}
