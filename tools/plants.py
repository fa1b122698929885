# The planted changes: (file, anchor, old, new): the first `old` after the first `anchor`.
PRELUDE = r'''#![allow(dead_code, unused)]
use japanese_law_xml_schema as j;
use j::article_number::{parse_article_number, parse_item_number, ArticleNumber, ItemPattern};
use j::law::*;

fn law_xml(body: &str) -> String {
  format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?><Law Era=\"Reiwa\" Year=\"5\" Num=\"1\" LawType=\"Act\" Lang=\"ja\" PromulgateMonth=\"1\" PromulgateDay=\"2\"><LawNum>令和五年法律第一号</LawNum><LawBody><LawTitle>題</LawTitle>{body}</LawBody></Law>")
}
fn main_xml(p: &str) -> String { law_xml(&format!("<MainProvision>{p}</MainProvision>")) }
fn para_xml(extra: &str) -> String {
  format!("<Paragraph Num=\"1\"><ParagraphNum/><ParagraphSentence><Sentence>文</Sentence></ParagraphSentence>{extra}</Paragraph>")
}
fn sentence_xml(s: &str) -> String {
  main_xml(&format!("<Paragraph Num=\"1\"><ParagraphNum/><ParagraphSentence>{s}</ParagraphSentence></Paragraph>"))
}
fn article_xml(n: &str, extra: &str) -> String {
  format!("<Article Num=\"{n}\"><ArticleTitle>第{n}条</ArticleTitle>{}{extra}</Article>", para_xml(""))
}
fn table_xml(col: &str) -> String {
  main_xml(&para_xml(&format!("<TableStruct><Table><TableRow>{col}</TableRow></Table></TableStruct>")))
}
fn read(x: &str) -> Law { j::parse_xml(x.as_bytes()).expect("a valid document") }
fn paras(l: &Law) -> Vec<j::paragraph::Paragraph> {
  l.law_body.main_provision.children.iter().filter_map(|c| match c { MainProvisionContents::Paragraph(p) => Some(p.clone()), _ => None }).collect()
}
fn text_law(t: &str) -> j::result::Result<Law> {
  j::parse_text(t, 2020, Some(4), Some(1), LawType::Act, Lang::Ja, None, "令和二年法律第一号".to_string(), "題")
}
fn an(s: &str) -> ArticleNumber { ArticleNumber::from_num_str(s).unwrap() }
fn again(l: &Law) -> Law { j::parse_xml(j::to_xml(l).unwrap().as_bytes()).expect("what was written is readable") }
'''
PLANTS = []
def plant(id, edits, demo, needs, breaks, **kw):
    PLANTS.append(dict(id=id, prop=id[:3].upper(), edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

# ---------------------------------------------------------------- P01
plant('p02-valign', [('table.rs', 'pub fn to_attribute', 'Self::Middle => "middle"', 'Self::Middle => "center"')], r'''
fn main() {
  let l = read(&table_xml("<TableColumn Valign=\"middle\">甲</TableColumn>"));
  assert!(j::to_xml(&l).unwrap().contains("Valign=\"middle\""));
}''', 'a table cell with Valign="middle"', 'a value that the schema does not allow is written')
plant('p02-style-remarks', [('structs.rs', 'impl ToXmlElement for StyleStruct', '''    e.children
      .push(XMLNode::Element(self.style.to_xml_element()));
    for n in self.style_remarks.iter() {
      e.children.push(XMLNode::Element(n.to_xml_element()))
    }
''', '''    for n in self.style_remarks.iter() {
      e.children.push(XMLNode::Element(n.to_xml_element()))
    }
    e.children
      .push(XMLNode::Element(self.style.to_xml_element()));
''')], r'''
fn main() {
  let l = read(&main_xml(&para_xml("<StyleStruct><Style>式</Style><Remarks><RemarksLabel>備考</RemarksLabel><Sentence>文</Sentence></Remarks></StyleStruct>")));
  let s = j::to_xml(&l).unwrap();
  assert!(s.find("<Style>").unwrap() < s.find("<Remarks>").unwrap(), "{s}");
}''', 'a StyleStruct with Remarks after its Style', 'the remarks are written before the style')
plant('p03-sentence-num', [('sentence.rs', 'impl ToXmlElement for Sentence', '''    if let Some(num) = self.num {
      e.''', '''    if let Some(num) = self.num.filter(|n| *n > 0) {
      e.''')], r'''
fn main() {
  let l = read(&sentence_xml("<Sentence Num=\"0\">甲</Sentence>"));
  assert_eq!(l, again(&l));
}''', 'a sentence numbered 0', 'the number is not written')
plant('p03-extract-false', [('suppl_provision.rs', 'impl ToXmlElement for SupplProvision ', 'if let Some(v) = self.extract {', 'if let Some(v @ true) = self.extract {')], r'''
fn main() {
  let l = read(&law_xml(&format!("<MainProvision/><SupplProvision Extract=\"false\"><SupplProvisionLabel>附則</SupplProvisionLabel>{}</SupplProvision>", para_xml(""))));
  assert_eq!(l, again(&l));
}''', 'Extract="false" on a supplementary provision', 'the law read back differs')
# ---------------------------------------------------------------- P04
plant('p04-hide', [('paragraph.rs', 'impl Parser for Subitem5 ', 'let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);', 'let hide = element.attributes.contains_key("Hide");')], r'''
fn main() {
  let mk = |a: &str| {
    let mut x = String::new();
    for n in (1..=5).rev() { let a = if n == 5 { a } else { "" }; x = format!("<Subitem{n} Num=\"1\"{a}><Subitem{n}Sentence><Sentence>文</Sentence></Subitem{n}Sentence>{x}</Subitem{n}>"); }
    read(&main_xml(&para_xml(&format!("<Item Num=\"1\"><ItemSentence><Sentence>文</Sentence></ItemSentence>{x}</Item>"))))
  };
  assert_eq!(mk(""), mk(" Hide=\"false\""));
}''', 'a Subitem5 with the default spelled out, Hide="false"', 'it is read as hidden')
plant('p04-linebreak', [('class.rs', 'impl Parser for Column', 'let line_break = get_attribute_opt_with_parse(element, "LineBreak")?.unwrap_or(false);', 'let line_break = element.attributes.get("LineBreak").is_some_and(|s| s != "false");')], r'''
fn main() {
  let mk = |v: &str| read(&main_xml(&para_xml(&format!("<Item Num=\"1\"><ItemSentence><Column LineBreak=\"{v}\"><Sentence>文</Sentence></Column></ItemSentence></Item>"))));
  assert_eq!(mk("false"), mk("0"));
}''', 'a column with LineBreak="0"', 'the other spelling of false is read as true')
# ---------------------------------------------------------------- P05
plant('p05-list-empty', [('list.rs', 'impl Parser for Sublist3', '''if let Some("Sublist3Sentence") = list_sentence.and_then(|node| {
        if let XMLNode::Element(e) = node {
          Some(e.name.as_str())
        } else {
          None
        }
      }) {''', '''if "Sublist3Sentence" == list_sentence.and_then(|node| node.as_element()).unwrap().name.as_str() {''')], r'''
fn main() {
  let mut x = String::from("<Sublist3/>");
  for n in [2, 1] { x = format!("<Sublist{n}><Sublist{n}Sentence><Sentence>文</Sentence></Sublist{n}Sentence>{x}</Sublist{n}>"); }
  let x = main_xml(&para_xml(&format!("<List><ListSentence><Sentence>文</Sentence></ListSentence>{x}</List>")));
  assert!(j::parse_xml(x.as_bytes()).is_err());
}''', 'an empty Sublist3 element, three levels down a list', 'reading panics')
plant('p05-title-index', [('article.rs', 'impl Parser for Division', '''let title_element = children
        .next()
        .and_then(|n| {
          if let XMLNode::Element(e) = n {
            Some(e)
          } else {
            None
          }
        })
        .ok_or(Error::missing_required_tag("DivisionTitle"))?;''', '''let title_element = children
        .next()
        .and_then(|n| n.as_element())
        .expect("DivisionTitle");''')], r'''
fn main() {
  let x = main_xml("<Section Num=\"1\"><SectionTitle>節</SectionTitle><Division Num=\"1\"/></Section>");
  assert!(j::parse_xml(x.as_bytes()).is_err());
}''', 'an empty Division', 'reading panics instead of reporting the missing title')
# ---------------------------------------------------------------- P06
plant('p06-fig-unknown', [('structs.rs', 'impl Parser for FigStruct', 's => return Err(Error::unexpected_tag(element, s)),', '_ => (),')], r'''
fn main() {
  let x = main_xml(&para_xml("<FigStruct><Fig src=\"a.jpg\"/><Sentence>文</Sentence></FigStruct>"));
  assert!(j::parse_xml(x.as_bytes()).is_err());
}''', 'a foreign element inside FigStruct', 'it is silently dropped')
plant('p06-oldnum', [('paragraph.rs', 'impl Parser for Paragraph', 'let old_num = get_attribute_opt_with_parse(element, "OldNum")?.unwrap_or(false);', 'let old_num = get_attribute_opt_with_parse(element, "OldNum").ok().flatten().unwrap_or(false);')], r'''
fn main() {
  let x = main_xml("<Paragraph Num=\"1\" OldNum=\"yes\"><ParagraphNum/><ParagraphSentence><Sentence>文</Sentence></ParagraphSentence></Paragraph>");
  assert!(j::parse_xml(x.as_bytes()).is_err());
}''', 'an illegal value of OldNum', 'it is accepted as false')
plant('p06-note-name', [('structs.rs', 'impl Parser for NoteStruct', 'tag_name: "Note".to_string()', 'tag_name: "NoteStruct".to_string()')], r'''
fn main() {
  let x = law_xml("<MainProvision/><AppdxNote><AppdxNoteTitle>記</AppdxNoteTitle><NoteStruct><NoteStructTitle>題</NoteStructTitle></NoteStruct></AppdxNote>");
  match j::parse_xml(x.as_bytes()) {
    Err(j::result::Error::MissingRequiredTag { tag_name }) => assert_eq!(tag_name, "Note"),
    r => panic!("{r:?}"),
  }
}''', 'a NoteStruct without a Note', 'the error names the wrong element')
plant('p06-toc-wrong', [('table_of_contents.rs', 'impl Parser for TOCSubsection', 's => return Err(Error::unexpected_tag(element, s)),', 's => {\n              return Err(Error::UnexpectedTag {\n                wrong_name: element.name.to_string(),\n                tag: s.to_string(),\n              })\n            }')], r'''
fn main() {
  let x = law_xml("<TOC><TOCSection Num=\"1\"><SectionTitle>節</SectionTitle><TOCSubsection Num=\"1\"><SubsectionTitle>款</SubsectionTitle><TOCPart Num=\"1\"><PartTitle>編</PartTitle></TOCPart></TOCSubsection></TOCSection></TOC><MainProvision/>");
  match j::parse_xml(x.as_bytes()) {
    Err(j::result::Error::UnexpectedTag { wrong_name, tag }) => assert_eq!((wrong_name.as_str(), tag.as_str()), ("TOCPart", "TOCSubsection")),
    r => panic!("{r:?}"),
  }
}''', 'a foreign element in a TOCSubsection', 'the error has the two names exchanged')
# ---------------------------------------------------------------- P07
plant('p07-bufwriter', [('lib.rs', 'pub fn write_file', '''  law
    .to_xml_element()
    .write_with_config(w, config)
    .map_err(|_| result::Error::Io)
''', '''  let mut w = std::io::BufWriter::with_capacity(1 << 20, w);
  law
    .to_xml_element()
    .write_with_config(&mut w, config)
    .map_err(|_| result::Error::Io)
''')], r'''
struct Full(usize);
impl std::io::Write for Full {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    if b.len() > self.0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); }
    self.0 -= b.len(); Ok(b.len())
  }
  fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
  let l = read(&main_xml(&para_xml("")));
  assert!(j::write_file(&l, &mut Full(100)).is_err());
}''', 'a sink that fails while being written', 'the failure is swallowed when the buffer is dropped')
plant('p07-utf16', [('lib.rs', 'pub fn parse_xml_file', '''  let mut buf = Vec::new();
  file.read_to_end(&mut buf).map_err(|_| result::Error::Io)?;
  let law = parse_xml(&buf)?;''', '''  let mut buf = String::new();
  file
    .read_to_string(&mut buf)
    .map_err(|_| result::Error::Io)?;
  let law = parse_xml(buf.as_bytes())?;''')], r'''
fn main() {
  let x = main_xml(&para_xml("")).replace("UTF-8", "UTF-16");
  let mut b = vec![0xff, 0xfe];
  for u in x.encode_utf16() { b.extend(u.to_le_bytes()); }
  let f = format!("{}/a.xml", std::env::var("DEMO_SCRATCH").unwrap());
  std::fs::write(&f, &b).unwrap();
  let a = j::parse_xml(&b).expect("UTF-16 with a byte order mark");
  assert_eq!(Some(a), j::parse_xml_file(&f).ok());
}''', 'a file in UTF-16', 'the file is refused although the same bytes are accepted')
plant('p07-readerr', [('lib.rs', 'pub fn parse_xml_file', 'file.read_to_end(&mut buf).map_err(|_| result::Error::Io)?;', 'let _ = file.read_to_end(&mut buf);')], r'''
fn main() {
  let d = std::env::var("DEMO_SCRATCH").unwrap();
  assert!(matches!(j::parse_xml_file(&d), Err(j::result::Error::Io)));
}''', 'a read that fails after opening (a directory)', 'the failure is not reported as an I/O error')
# ---------------------------------------------------------------- P08
plant('p08-u32', [('article_number.rs', 'pub fn from_num_str', '''          match res {
            Ok(n) => range_end_numbers.push(n),''', '''          match res {
            Ok(n) => range_end_numbers.push(n as u32 as usize),''')], r'''
fn main() {
  let n = an("1:4294967297_2");
  assert_eq!(n.range_end_numbers, vec![4294967297, 2]);
}''', 'a range whose end has a number above 2^32', 'the number wraps')
plant('p08-empty-part', [('article_number.rs', 'pub fn from_num_str', "s.split('_').map(", "s.split('_').filter(|s| !s.is_empty()).map(")], r'''
fn main() { assert!(ArticleNumber::from_num_str("1:2__3").is_err()); assert!(ArticleNumber::from_num_str("1:2_").is_err()); }''',
  'an empty part in the end of a range', 'malformed numbers are accepted, so that the form is no longer unambiguous')
plant('p08-second-range', [('article_number.rs', 'pub fn from_num_str', "let mut num_s_lst = num_str.split(':');", "let mut num_s_lst = num_str.splitn(2, ':').filter(|s| !s.is_empty());")], r'''
fn main() { assert!(ArticleNumber::from_num_str("1:").is_err()); assert!(ArticleNumber::from_num_str(":1").is_err()); }''',
  'a colon with nothing on one side', '"1:" and ":1" are read as 1')
# ---------------------------------------------------------------- P09
plant('p09-range-eda', [('article_number.rs', 'fn gen_articles_text', '''      for n in l {
        let n_kansuji = Kansuji::from(n);
        s.push_str(''', '''      for n in l.take(1) {
        let n_kansuji = Kansuji::from(n);
        s.push_str(''')], r'''
fn main() { assert_eq!(an("1:2_3_4").article_text(), "第一条から第二条の三の四まで"); }''',
  'the end of a range with two or more branch numbers', 'only the first branch number is rendered')
plant('p10-lower-branch', [('article_number.rs', 'fn num_to_str_no_paren', 'ItemPattern::ParenZenkakuLower => to_zenkaku_alphabet_lower(n)', 'ItemPattern::ParenZenkakuLower => to_zenkaku_alphabet_upper(n)')], r'''
fn main() { assert_eq!(an("1_2").item_text(ItemPattern::ParenZenkakuLower), "（ａ）のｂ"); }''',
  'a branch number in the style （ａ）', 'the branch is rendered with capital letters')
plant('p10-iroha', [('article_number.rs', 'fn parse_iroha_hiragana', '"ゑ" => Some(43)', '"ゑ" => Some(34)')], r'''
fn main() { assert_eq!(parse_item_number("ゑ").unwrap().base_number, 43); }''', 'the 43rd item in the style いろは', 'it is read as the 34th')
plant('p10-roman-c', [('article_number.rs', 'fn parse_roman', """      .replace('ｃ', "C")
""", "")], r'''
fn main() { let n = parse_item_number("（ｘｃｉ）").expect("91"); assert_eq!(n.base_number, 91); }''', 'a roman numeral in small letters of 90 or more', 'it is not read')
# ---------------------------------------------------------------- P11
plant('p11-suppl-flush', [('utils.rs', 'pub fn with_number_article_list_from_suppl_provision', '''      suppl_provision::SupplProvisionChildrenElement::Chapter(t) => {
        para_v.push(para_v_tmp);
        para_v_tmp = Vec::new();
''', '''      suppl_provision::SupplProvisionChildrenElement::Chapter(t) => {
''')], r'''
fn main() {
  let x = law_xml(&format!("<MainProvision/><SupplProvision><SupplProvisionLabel>附則</SupplProvisionLabel>{}<Chapter Num=\"1\"><ChapterTitle>章</ChapterTitle>{}</Chapter>{}</SupplProvision>", para_xml(""), article_xml("1", ""), para_xml("")));
  let l = read(&x);
  let (a, p) = j::utils::with_number_article_list_from_suppl_provision(&l.law_body.suppl_provision[0]);
  assert_eq!(p.iter().filter(|v| !v.is_empty()).count(), 2, "the two runs of paragraphs are separate");
}''', 'a supplementary provision with paragraphs, a chapter, and paragraphs again', 'two runs of paragraphs are merged')
plant('p12-title', [('utils.rs', 'fn toc_list_from_division', 'toc.set_title(Some(t.title.to_string()));', 'toc.set_title(Some(t.title.to_string()).filter(|s| !s.is_empty()));')], r'''
fn main() {
  let a = "<Article Num=\"1\"><ArticleTitle></ArticleTitle><Paragraph Num=\"1\"><ParagraphNum/><ParagraphSentence><Sentence>文</Sentence></ParagraphSentence></Paragraph></Article>";
  let x = main_xml(&format!("<Section Num=\"1\"><SectionTitle>節</SectionTitle><Division Num=\"1\"><DivisionTitle>目</DivisionTitle>{a}</Division></Section>"));
  let t = j::utils::toc_list_from_main_provision(&read(&x).law_body.main_provision);
  assert_eq!(t.last().unwrap().get_title(), Some(String::new()));
}''', 'an article with an empty title in a division', 'the entry has no title where the others have an empty one')
# ---------------------------------------------------------------- P13
plant('p13-path', [('utils.rs', 'fn text_list_from_subitem9', 'text_list_from_subitem10(para_num, l.clone(), &t.children)', 'text_list_from_subitem10(para_num, items.clone(), &t.children)')], r'''
fn main() {
  let mut x = String::new();
  for n in (1..=10).rev() { x = format!("<Subitem{n} Num=\"{n}\"><Subitem{n}Sentence><Sentence>文</Sentence></Subitem{n}Sentence>{x}</Subitem{n}>"); }
  let l = read(&main_xml(&para_xml(&format!("<Item Num=\"1\"><ItemSentence><Sentence>文</Sentence></ItemSentence>{x}</Item>"))));
  let v = j::utils::text_info_list_from_paragraph(&paras(&l));
  assert_eq!(v.last().unwrap().0.items.len(), 11);
}''', 'a Subitem10', 'its path lacks the number of its Subitem9')
plant('p13-push-some', [('utils.rs', 'pub fn text_info_list_from_paragraph', 'items.push(n.clone());', 'if n.is_some() || items.is_empty() {\n        items.push(n.clone());\n      }'),
   ('utils.rs', 'pub fn text_info_list_from_paragraph', '      items.pop();\n', '      if n.is_some() {\n        items.pop();\n      }\n')], r'''
fn main() {
  let it = |n: &str| format!("<Item Num=\"{n}\"><ItemSentence><Sentence>文</Sentence></ItemSentence></Item>");
  let l = read(&main_xml(&para_xml(&format!("{}{}", it("イ"), it("2")))));
  let v = j::utils::text_info_list_from_paragraph(&paras(&l));
  assert_eq!(v[2].0.items, vec![Some(an("2"))]);
}''', 'an item with a number after one whose number cannot be read', 'the path keeps the place of the earlier item')
# ---------------------------------------------------------------- P14
plant('p14-header', [('utils.rs', 'pub fn table_to_str', '''        .map(|text| text.to_string())
        .collect::<String>()''', '''        .filter_map(|text| text.contents.first().cloned())
        .map(|t| {
          j_text(t)
        })
        .collect::<String>()'''), ('utils.rs', '', 'pub fn table_to_str(table: &Table) -> String {', '''fn j_text(t: crate::text::TextElement) -> String {
  crate::text::Text { contents: vec![t] }.to_string()
}

pub fn table_to_str(table: &Table) -> String {''')], r'''
fn main() {
  let x = main_xml(&para_xml("<TableStruct><Table><TableHeaderRow><TableHeaderColumn>面積<Ruby>竿<Rt>かん</Rt></Ruby>数</TableHeaderColumn></TableHeaderRow><TableRow><TableColumn>甲</TableColumn></TableRow></Table></TableStruct>"));
  let l = read(&x);
  match &paras(&l)[0].struct_list[0] {
    j::structs::Struct::TableStruct(t) => assert!(j::utils::table_to_str(&t.table).starts_with("面積竿数"), "{}", j::utils::table_to_str(&t.table)),
    _ => unreachable!(),
  }
}''', 'a header cell that has inline markup', 'the text after the first piece is lost')
plant('p14-reading', [('text.rs', 'impl ToString for TextWithWritingMode', 's.push_str(&ruby.text.to_string())', 's.push_str(&format!("{}{}", ruby.text.to_string(), ruby.ruby))')], r'''
fn main() {
  let x = main_xml(&para_xml("<TableStruct><TableStructTitle>甲<Ruby>乙<Rt>おつ</Rt></Ruby></TableStructTitle><Table><TableRow><TableColumn>甲</TableColumn></TableRow></Table></TableStruct>"));
  match &paras(&read(&x))[0].struct_list[0] {
    j::structs::Struct::TableStruct(t) => assert_eq!(t.title.clone().unwrap().to_string(), "甲乙"),
    _ => unreachable!(),
  }
}''', 'ruby in the title of a table', 'the reading is mixed into the text')
# ---------------------------------------------------------------- P15
plant('p15-dedup', [('parse_from_text.rs', 'pub(crate) fn parse_body', '    let line_contents = parse_line_contents(line);\n    lines.push(line_contents)\n', '    let line_contents = parse_line_contents(line);\n    if lines.last() != Some(&line_contents) {\n      lines.push(line_contents)\n    }\n')], r'''
fn main() {
  let l = text_law("第一条　次のとおりとする。\n同じ行である。\n同じ行である。\n").unwrap();
  let d = format!("{l:?}");
  assert_eq!(d.matches("同じ行である。").count(), 2, "{d}");
}''', 'two identical lines in a row', 'one of them is lost')
plant('p15-subsection-caption', [('parse_from_text.rs', 'fn parse_line_contents', '"^（(?<caption>[^）]+)）$"', '"^（(?<caption>[^）]+)）"')], r'''
fn main() {
  let l = text_law("第一条　次のとおりとする。\n（注）ここに記す。\n第二条　文\n");
  if let Ok(l) = l { let d = format!("{l:?}"); assert!(d.contains("ここに記す"), "{d}"); }
}''', 'a line that begins with a parenthesis and goes on', 'what follows the parenthesis is lost')
# ---------------------------------------------------------------- P16
plant('p16-delete-paren', [('parse_from_text.rs', 'fn parse_division', 'title.trim() == "削除" || title.trim() == "（削除）"', 'title.trim() == "削除"')], r'''
fn main() {
  let l = text_law("第一節　節\n第一款　款\n第一目　（削除）\n第二目　目\n第一条　文\n").unwrap();
  let d = format!("{l:?}");
  assert!(d.contains("delete: true"), "{d}");
}''', 'a division marked （削除）', 'it is not marked deleted')
plant('p16-range-num', [('parse_from_text.rs', 'fn parse_line_contents', """      } else if s.contains('節') {
        Section(article_number, text)
      } else if s.contains('款') {
        Subsection(article_number, text)""", """      } else if s.contains('節') {
        Section(article_number, text)
      } else if s.ends_with('款') {
        Subsection(article_number, text)""")], r'''
fn main() {
  let l = text_law("第一節　節\n第一款の二　款\n第一条　文\n").unwrap();
  let d = format!("{l:?}");
  assert!(d.contains("subsection_title"), "{d}");
}''', 'a subsection with a branch number', 'it is not recognised as a subsection')
plant('p16-subitem-delete', [('parse_from_text.rs', 'fn parse_subitem4', 'delete: text.trim() == "削除" || text.trim() == "（削除）"', 'delete: text.starts_with("削除")')], r'''
fn main() {
  let l = text_law("第一条　文\n一　文\nイ　文\n（１）　文\n（ｉ）　文\nＡ　削除した旨を届け出ること。\n").unwrap();
  assert!(!format!("{l:?}").contains("delete: true"));
}''', 'a fourth-level subitem whose text begins with 削除', 'it is marked deleted')
# ---------------------------------------------------------------- P17
plant('p18-lawnum', [('lib.rs', 'pub fn parse_text', '    law_num,\n    law_body: body,', '    law_num: law_num.trim().to_string(),\n    law_body: body,')], r'''
fn main() {
  let l = j::parse_text("第一条　文", 2020, None, None, LawType::Act, Lang::Ja, None, "　令和二年法律第一号".to_string(), "題").unwrap();
  assert_eq!(l.law_num, "　令和二年法律第一号");
}''', 'a law number with spaces around it', 'it is not kept as given')
plant('p18-month', [('lib.rs', 'pub fn parse_text', '    promulgate_day: day,', '    promulgate_day: day.or(month.map(|_| 1)),')], r'''
fn main() {
  let l = j::parse_text("第一条　文", 2020, Some(4), None, LawType::Act, Lang::Ja, None, "令和二年法律第一号".to_string(), "題").unwrap();
  assert_eq!(l.promulgate_day, None);
}''', 'a month without a day', 'a day is made up')
plant('p18-era', [('lib.rs', 'pub fn parse_text', '''    "平成" => law::Era::Heisei,
''', '''    "平成" if year < 2019 => law::Era::Heisei,
    "平成" => law::Era::Reiwa,
''')], r'''
fn main() {
  let l = j::parse_text("第一条　文", 2019, Some(3), Some(1), LawType::Act, Lang::Ja, None, "平成三十一年法律第一号".to_string(), "題").unwrap();
  assert_eq!(l.era, Era::Heisei);
}''', 'a date in the first four months of 2019', 'the era is wrong')
# ---------------------------------------------------------------- P19
SJ = 'serde_json = "1"\n'

plant('p19-skip', [('class.rs', 'pub struct Class ', """  pub children: Vec<Item>,
  pub num: String,
""", """  pub num: String,
  #[serde(skip_serializing_if = "Vec::is_empty")]
  pub children: Vec<Item>,
""")], r"""
fn main() {
  let l = read(&main_xml(&para_xml("<Class Num=\"1\"><ClassSentence><Sentence>文</Sentence></ClassSentence></Class>")));
  let s = serde_json::to_string(&l).unwrap();
  assert_eq!(serde_json::from_str::<Law>(&s).ok(), Some(l));
}""", 'a Class without items', 'the JSON cannot be read back', deps=SJ)
plant('p19-untagged', [('contents.rs', 'TableRow::parser', """#[derive(Debug, Clone, Hash, Serialize, Deserialize, PartialEq, Eq)]
pub enum ContentsElement""", """#[derive(Debug, Clone, Hash, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum ContentsElement""")], r"""
fn main() {
  let l = read(&sentence_xml("<Sentence><QuoteStruct>甲<Sub>乙</Sub><Sup>丙</Sup></QuoteStruct></Sentence>"));
  let s = serde_json::to_string(&l).unwrap();
  assert_eq!(serde_json::from_str::<Law>(&s).ok(), Some(l));
}""", 'a quotation that contains both subscripts and superscripts', 'the one comes back as the other', deps=SJ)
plant('p19-skip-field', [('sentence.rs', 'pub struct Sentence ', """  pub indent: Option<SentenceIndent>,
  pub writing_mode: text::WritingMode,
""", """  pub writing_mode: text::WritingMode,
  #[serde(skip)]
  pub indent: Option<SentenceIndent>,
""")], r"""
fn main() {
  let l = read(&sentence_xml("<Sentence Indent=\"Item\">文</Sentence>"));
  let s = serde_json::to_string(&l).unwrap();
  assert_eq!(serde_json::from_str::<Law>(&s).ok(), Some(l));
}""", 'a sentence with Indent', 'the indent is lost in JSON', deps=SJ)
plant('p03-double', [('line.rs', 'pub fn to_attribute', 'LineStyle::Double => "double"', 'LineStyle::Double => "solid"')], r"""
fn main() {
  let l = read(&table_xml("<TableColumn BorderTop=\"double\">甲</TableColumn>"));
  assert_eq!(l, again(&l));
}""", 'a double border', 'it is written as a solid one')
plant('p20-cache', [('article_number.rs', 'pub fn parse_item_number(', """  if let Some(caps) = re_item.captures(str.trim()) {
""", """  static SEEN: std::sync::Mutex<Vec<ItemNumber>> = std::sync::Mutex::new(Vec::new());
  if let Some(n) = SEEN.lock().ok()?.iter().find(|n| n.str.trim() == str.trim()) {
    return Some(n.clone());
  }
  if let Some(caps) = re_item.captures(str.trim()) {
"""), ('article_number.rs', 'range_end_numbers.append(&mut parse_item_eda_numbers', """      Some(ItemNumber {
        str: str.to_string(),
        base_number,
        eda_numbers,
        range_end_numbers,
        pattern: pat,
      })
""", """      let n = ItemNumber {
        str: str.to_string(),
        base_number,
        eda_numbers,
        range_end_numbers,
        pattern: pat,
      };
      SEEN.lock().ok()?.push(n.clone());
      Some(n)
""")], r"""
fn main() {
  let a = parse_item_number("一").unwrap();
  let b = parse_item_number("一　").unwrap();
  assert_eq!((a.str.as_str(), b.str.as_str()), ("一", "一　"));
}""", 'the same item number read before with other spaces around it', 'the result depends on the calls before')
plant('p20-buffer', [('lib.rs', 'pub fn to_xml', """  let mut s = WritableString::new();
""", """  static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
  let mut s = WritableString(LAST.lock().map(|s| s.clone()).unwrap_or_default());
  s.0.clear();
"""), ('lib.rs', 'pub fn to_xml', """  Ok(s.string())
""", """  if let Ok(mut last) = LAST.lock() {
    *last = s.string();
  }
  LAST
    .lock()
    .map(|s| s.clone())
    .map_err(|_| result::Error::Io)
""")], r"""
fn main() {
  let mk = |s: &str| read(&sentence_xml(&format!("<Sentence>{s}</Sentence>")));
  let h: Vec<_> = (0..8).map(|i| { let l = mk(&format!("文{i}番")); std::thread::spawn(move || (0..3000).all(|_| j::to_xml(&l).unwrap().contains(&format!("文{i}番")))) }).collect();
  for h in h { assert!(h.join().unwrap()); }
}""", 'two threads that write different laws at the same time', 'one of them gets the text of the other')
plant('p21-align', [('class.rs', 'pub fn from_attribute', """      _ => None,
""", """      Some(s) => {
        eprintln!("unknown align: {s}");
        None
      }
      None => None,
""")], r"""
fn main() {
  if std::env::args().nth(1).is_some() {
    let _ = j::parse_xml(table_xml("<TableColumn Align=\"middle\">甲</TableColumn>").as_bytes());
    return;
  }
  let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  assert!(o.status.success() && o.stdout.is_empty() && o.stderr.is_empty(), "{o:?}");
}""", 'a value of Align that does not exist', 'a message is printed')
plant('p21-dbg', [('article_number.rs', 'pub fn from_num_str', """          match res {
            Ok(n) => range_end_numbers.push(n),
            Err(e) => return Err(e),
          }
""", """          match res {
            Ok(n) => range_end_numbers.push(n),
            Err(e) => return Err(dbg!(e)),
          }
""")], r"""
fn main() {
  if std::env::args().nth(1).is_some() { let _ = ArticleNumber::from_num_str("1:a"); return; }
  let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  assert!(o.status.success() && o.stdout.is_empty() && o.stderr.is_empty(), "{o:?}");
}""", 'a range whose end is not a number', 'a debugging message is printed')
import plants2
import plants3
import plants4
