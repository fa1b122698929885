# further planted changes; see plants.py
from plants import plant
from plants2 import MEM

plant('p13-empty-leaf', [('utils.rs', 'fn text_list_from_subitem7', '''    v.push((
      TextIndex {
        paragraph: para_num.clone(),
        items: l.clone(),
      },
      sentence_str,
    ));
''', '''    if !sentence_str.is_empty() || !t.children.is_empty() {
      v.push((
        TextIndex {
          paragraph: para_num.clone(),
          items: l.clone(),
        },
        sentence_str,
      ));
    }
''')], r'''
fn main() {
  let mut x = "<Subitem7 Num=\"7\"><Subitem7Sentence><Sentence/></Subitem7Sentence></Subitem7>".to_string();
  for i in (1..7).rev() { x = format!("<Subitem{i} Num=\"{i}\"><Subitem{i}Sentence><Sentence>x</Sentence></Subitem{i}Sentence>{x}</Subitem{i}>"); }
  let l = read(&main_xml(&para_xml(&format!("<Item Num=\"1\"><ItemSentence><Sentence>x</Sentence></ItemSentence>{x}</Item>"))));
  assert_eq!(j::utils::text_info_list_from_paragraph(&paras(&l)).len(), 9);
}''', 'an empty item of the seventh level that has no items below it', 'it has no entry')
plant('p14-empty-cell', [('utils.rs', '_ => String::new(), // unsupported', '.collect::<Vec<_>>()\n        .join(" ")', '.filter(|s| !s.is_empty())\n        .collect::<Vec<String>>()\n        .join(" ")')], r'''
fn main() {
  let l = read(&table_xml("<TableColumn>甲</TableColumn><TableColumn/><TableColumn>乙</TableColumn>"));
  let s = paras(&l)[0].struct_list.iter().find_map(|s| match s { j::structs::Struct::TableStruct(t) => Some(j::utils::table_to_str(&t.table)), _ => None });
  assert_eq!(s.unwrap(), "\n甲  乙");
}''', 'an empty cell between two others', 'the cells after it move to the left')
plant('p09-branch-u16', [('article_number.rs', 'fn gen_articles_text', 'let n_kansuji = Kansuji::from(n);', 'let n_kansuji = Kansuji::from(*n as u16 as usize);')], r'''
fn main() { assert_eq!(an("1_65537").article_text(), "第一条の六万五千五百三十七"); }''', 'a branch number above 65535', 'another number is rendered')
plant('p08-f64', [('article_number.rs', 'pub fn from_num_str', '''let n_lst = s.split('_').map(|s| {
          s.parse::<usize>()
''', '''let n_lst = s.split('_').map(|s| {
          s.parse::<u64>().map(|n| n as f64 as usize)
''')], r'''
fn main() { assert_eq!(an("1:9007199254740993").num_str(), "1:9007199254740993"); }''', 'a range end above 2^53', 'it is rounded')
plant('p12-first-piece', [('utils.rs', 'fn toc_list_from_subsection', 'toc.set_title(Some(t.subsection_title.to_string()));', 'toc.set_title(t.subsection_title.contents.first().map(|_| t.subsection_title.to_string()));')], r'''
fn main() {
  let l = read(&main_xml("<Section Num=\"1\"><SectionTitle>節</SectionTitle><Subsection Num=\"1\"><SubsectionTitle/></Subsection></Section>"));
  let t = j::utils::toc_list_from_main_provision(&l.law_body.main_provision);
  assert_eq!(t[1].get_title(), Some(String::new()));
}''', 'a subsection with an empty title', 'its entry has no title where those of all others have an empty one')
plant('p12-article-clone', [('utils.rs', 'fn toc_list_from_division', '''    toc.set_title(Some(t.title.to_string()));
    v.push(toc.clone());
  }
''', '''    toc.set_title(Some(t.title.to_string()));
    if v.last() != Some(&toc) {
      v.push(toc.clone());
    }
  }
''')], r'''
fn main() {
  let a = article_xml("1", "");
  let l = read(&main_xml(&format!("<Section Num=\"1\"><SectionTitle>節</SectionTitle><Division Num=\"1\"><DivisionTitle>目</DivisionTitle>{a}{a}</Division></Section>")));
  assert_eq!(j::utils::toc_list_from_main_provision(&l.law_body.main_provision).len(), 4);
}''', 'two articles of the same number and title one after the other in a division', 'the second one has no entry')
plant('p11-clear', [('utils.rs', 'fn article_list_from_section', '''let mut w = WithNumberArticle::new(t.clone());
''', '''let mut w = v.last().cloned().unwrap_or(WithNumberArticle::new(t.clone()));
        w.set_articl(t.clone());
''')], r'''
fn main() {
  let (a, b) = (article_xml("1", ""), article_xml("2", ""));
  let l = read(&main_xml(&format!("<Section Num=\"1\"><SectionTitle>節</SectionTitle><Subsection Num=\"3\"><SubsectionTitle>款</SubsectionTitle>{a}</Subsection>{b}</Section>")));
  let (v, _) = j::utils::with_number_article_list_from_main_provision(&l.law_body.main_provision);
  assert_eq!(v[1].get_subsection(), None);
}''', 'an article directly in a section, after one in a subsection of it', 'it is reported as part of the subsection')
plant('p20-nest', [('table.rs', 'impl Parser for Table ', '''  fn parser(element: &Element) -> result::Result<Self> {
''', '''  fn parser(node: &Element) -> result::Result<Self> {
    thread_local!(static NESTED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
    if NESTED.get() > 500 {
      return Err(Error::XMLParsing);
    }
    NESTED.set(NESTED.get() + 1);
    let table = Self::parse_table(node)?;
    NESTED.set(NESTED.get() - 1);
    Ok(table)
  }
}

impl Table {
  fn parse_table(element: &Element) -> result::Result<Self> {
''')], r'''
fn main() {
  let good = table_xml("<TableColumn>甲</TableColumn>");
  let bad = table_xml("<TableColumn><Nothing/></TableColumn>");
  for _ in 0..2000 { assert!(j::parse_xml(bad.as_bytes()).is_err()); }
  read(&good);
}''', 'several hundred documents refused because of a fault inside a table', 'documents with a table are refused from then on, on that thread')

plant('p22-memo', [('article_number.rs', '', 'pub fn parse_item_number(str: &str) -> Option<ItemNumber> {\n', 'fn read_item_number(str: &str) -> Option<ItemNumber> {\n'), ('article_number.rs', '', 'fn parse_item_number_base(', '''thread_local!(static KNOWN: std::cell::RefCell<std::collections::HashMap<String, Option<ItemNumber>>> = Default::default());

pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
  if let Some(n) = KNOWN.with_borrow(|k| k.get(str).cloned()) {
    return n;
  }
  let n = read_item_number(str);
  KNOWN.with_borrow_mut(|k| k.insert(str.to_string(), n.clone()));
  n
}

fn parse_item_number_base(''')], MEM + r'''
fn main() {
  let i = std::cell::Cell::new(0);
  let n = left(|| { i.set(i.get() + 1); parse_item_number(&format!("文{}", i.get())); });
  assert!(n < 10_000, "{n}");
}''', 'the same thread reading ever new strings as item numbers', 'every string is kept for ever')
