# further planted changes; see plants.py
from plants import plant

plant('p16-missing-number', [('parse_from_text.rs', 'fn parse_section', '''let delete = title.trim() == "削除" || title.trim() == "（削除）";''', '''let delete = ["削除", "（削除）", "欠番"].contains(&title.trim());''')], r'''
fn main() {
  let l = text_law("第一章　章\n第一節　欠番\n第一条　文").unwrap();
  let s = format!("{:?}", l.law_body.main_provision);
  assert!(!s.contains("delete: true"), "{s}");
}''', 'a section whose title is 欠番', 'it is marked as deleted')
plant('p14-long-cell', [('utils.rs', 'pub fn table_to_str', '''                TableColumnContents::String(s) => s.clone(),
''', '''                TableColumnContents::String(s) => s.chars().take(2_000).collect(),
''')], r'''
fn main() {
  let l = read(&table_xml(&format!("<TableColumn>{}</TableColumn>", "甲".repeat(2100))));
  let s = paras(&l)[0].struct_list.iter().find_map(|s| match s { j::structs::Struct::TableStruct(t) => Some(j::utils::table_to_str(&t.table)), _ => None });
  assert_eq!(s.unwrap().trim().chars().count(), 2100);
}''', 'a cell of more than 2000 characters', 'the rest of it is lost')
plant('p02-note-mark', [('sentence.rs', 'impl ToXmlElement for Sentence', '''XMLNode::Text(s.clone())''', '''XMLNode::Text(s.replace("（注", "（＊"))''')], r'''
fn main() {
  let l = read(&sentence_xml("<Sentence>甲（注一）乙</Sentence>"));
  assert_eq!(again(&l), l);
}''', 'a sentence with a note in brackets', 'its mark is rewritten')
plant('p13-many', [('utils.rs', 'fn text_list_from_subitem2', '''    let mut v2 = text_list_from_subitem3(para_num, l.clone(), &t.children);
    v.append(&mut v2);
''', '''    let mut v2 = text_list_from_subitem3(para_num, l.clone(), &t.children);
    if v.len() < 128 {
      v.append(&mut v2);
    }
''')], r'''
fn main() {
  let sub = |i: usize, s: &str| format!("<Subitem{i} Num=\"1\"><Subitem{i}Sentence><Sentence>文</Sentence></Subitem{i}Sentence>{s}</Subitem{i}>");
  let x = sub(1, &(sub(2, "").repeat(150) + &sub(2, &sub(3, ""))));
  let l = read(&main_xml(&para_xml(&format!("<Item Num=\"1\"><ItemSentence><Sentence>文</Sentence></ItemSentence>{x}</Item>"))));
  assert_eq!(j::utils::text_info_list_from_paragraph(&paras(&l)).len(), 1 + 1 + 1 + 151 + 1);
}''', 'more than 128 items of the second level, the last of which has items', 'those are left out')
plant('p09-days', [('article_number.rs', 'fn gen_articles_text', 'let n_kansuji = Kansuji::from(n);', 'let n_kansuji = Kansuji::from(if *n == 365 { 356 } else { *n });')], r'''
fn main() { assert_eq!(an("1_365").article_text(), "第一条の三百六十五"); }''', 'the branch number 365', 'two digits are exchanged')
plant('p15-stars', [('parse_from_text.rs', 'pub(crate) fn parse_body', '''    let line_contents = parse_line_contents(line);
    lines.push(line_contents)
''', '''    let line_contents = parse_line_contents(line.trim_end_matches("※"));
    lines.push(line_contents)
''')], r'''
fn main() {
  let l = text_law("第一条　甲※").unwrap();
  assert!(format!("{l:?}").contains("甲※"));
}''', 'a line that ends with ※', 'the mark is lost')
plant('p20-memo-key', [('lib.rs', 'pub fn parse_xml', '''  let law = law::Law::parser(&element)?;
  Ok(law)
''', '''  type Last = (usize, Vec<u8>, law::Law);
  thread_local!(static LAST: std::cell::RefCell<Option<Last>> = const { std::cell::RefCell::new(None) });
  let ends: Vec<u8> = xml.iter().take(300).chain(xml.iter().rev().take(300)).copied().collect();
  if let Some((n, e, law)) = LAST.with(|l| l.borrow().clone()) {
    if n == xml.len() && e == ends {
      return Ok(law);
    }
  }
  let law = law::Law::parser(&element)?;
  LAST.with(|l| *l.borrow_mut() = Some((xml.len(), ends, law.clone())));
  Ok(law.clone())
''')], r'''
fn main() {
  let x = |s: &str| main_xml(&format!("{}{}{}", article_xml("1", ""), para_xml("").replace("文", &format!("{}{s}{}", "子".repeat(200), "丑".repeat(200))), article_xml("2", "")));
  let (a, b) = (x("甲"), x("乙"));
  assert_ne!(read(&a), read(&b));
}''', 'two documents of the same length, one after the other, that differ in the middle only', 'the second one is read as the first')
plant('p20-title-slot', [('parse_from_text.rs', 'pub(crate) fn parse_body', '''  let mut lines = Vec::new();
''', '''  static TITLE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
  *TITLE.lock().unwrap() = title.to_string();
  let mut lines = Vec::new();
'''), ('parse_from_text.rs', 'let law_title', 'text::Text::from_value(title)', 'text::Text::from_value(TITLE.lock().unwrap().clone())')], r'''
fn main() {
  let one = |k: usize| {
    let title = format!("題{k}");
    (0..20).all(|_| {
      let l = j::parse_text("第一条　文\n第二条　文", 2020, None, None, LawType::Act, Lang::Ja, None, "x".to_string(), &title).unwrap();
      l.law_body.law_title.unwrap().text.to_string() == title
    })
  };
  std::thread::scope(|s| {
    let hs: Vec<_> = (0..8).map(|k| s.spawn(move || one(k))).collect();
    for h in hs { assert!(h.join().unwrap()); }
  });
}''', 'two threads that read texts of laws with different titles at the same time', 'a law gets the title of another')
plant('p02-struct-first', [('paragraph.rs', 'impl ToXmlElement for Subitem4', '''    e.children.push(XMLNode::Element(
      self.sentence.to_xml_element_with_name("Subitem4Sentence"),
    ));
''', '''    let mut sentence = self.sentence.to_xml_element_with_name("Subitem4Sentence");
    sentence.attributes.clear();
'''), ('paragraph.rs', 'impl ToXmlElement for Subitem4', '''    if let Some(n) = &self.num {
      e.attributes.insert("Num".to_string(), n.num_str());
    } else {''', '''    let at = e.children.len() - self.children.len();
    e.children.insert(at, XMLNode::Element(sentence));
    if let Some(n) = &self.num {
      e.attributes.insert("Num".to_string(), n.num_str());
    } else {''')], r'''
fn main() {
  let sub = |i: usize, s: &str| format!("<Subitem{i} Num=\"1\"><Subitem{i}Sentence><Sentence>文</Sentence></Subitem{i}Sentence>{s}</Subitem{i}>");
  let x = sub(1, &sub(2, &sub(3, &sub(4, "<List><ListSentence><Sentence>列</Sentence></ListSentence></List>"))));
  let l = read(&main_xml(&para_xml(&format!("<Item Num=\"1\"><ItemSentence><Sentence>文</Sentence></ItemSentence>{x}</Item>"))));
  let s = j::to_xml(&l).unwrap();
  assert!(s.find("<Subitem4Sentence>").unwrap() < s.find("<List>").unwrap(), "{s}");
}''', 'a fourth-level item with a list of its own', 'the list is written before the sentence of the item')
plant('p03-sublist-empty', [('list.rs', 'impl ToXmlElement for Sublist2', '''    e.children.push(XMLNode::Element(s));
''', '''    if !s.children.is_empty() || self.children.is_empty() {
      e.children.push(XMLNode::Element(s));
    }
''')], r'''
fn main() {
  let x = "<List><ListSentence><Sentence>列</Sentence></ListSentence><Sublist1><Sublist1Sentence><Sentence>列</Sentence></Sublist1Sentence><Sublist2><Sublist2Sentence/><Sublist3><Sublist3Sentence><Sentence>列</Sentence></Sublist3Sentence></Sublist3></Sublist2></Sublist1></List>";
  let l = read(&main_xml(&para_xml(x)));
  assert_eq!(again(&l), l);
}''', 'a list entry of the second level without text that has entries', 'what is written cannot be read again')
