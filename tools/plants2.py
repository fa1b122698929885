# A second round of planted changes (see plants.py).
from plants import plant

plant('p01-column-trim', [('table.rs', 'impl Parser for TableColumn ', 's.clone()', 's.trim().to_string()')], r"""
fn main() {
  let l = read(&table_xml("<TableColumn>　　一万円</TableColumn>"));
  match &paras(&l)[0].struct_list[0] {
    j::structs::Struct::TableStruct(t) => assert_eq!(format!("{:?}", t.table.table_row[0].columns[0].contents[0]), format!("String({:?})", "　　一万円")),
    _ => unreachable!(),
  }
}""", 'a table cell whose text begins or ends with full-width spaces', 'the indentation spaces of a table cell are dropped on reading')
plant('p01-title-kana', [('law.rs', 'impl Parser for LawTitle', '"AbbrevKana"', '"Kana"')], r"""
fn main() {
  let x = law_xml("<MainProvision/>").replace("<LawTitle>", "<LawTitle Kana=\"だい\" Abbrev=\"略\" AbbrevKana=\"りゃく\">");
  assert_eq!(read(&x).law_body.law_title.unwrap().abbrev_kana.as_deref(), Some("りゃく"));
}""", 'a law title with both Kana and AbbrevKana', 'the reading of the abbreviation is replaced by that of the title')
plant('p02-subitem-order', [('paragraph.rs', 'self.sentence.to_xml_element_with_name("Subitem6Sentence")', 'for n in self.children.iter() {', 'for n in self.children.iter().rev() {')], r"""
fn main() {
  let mut x = String::from("<Subitem7 Num=\"1\"><Subitem7Sentence><Sentence>甲文</Sentence></Subitem7Sentence></Subitem7><Subitem7 Num=\"2\"><Subitem7Sentence><Sentence>乙文</Sentence></Subitem7Sentence></Subitem7>");
  for n in (1..=6).rev() { x = format!("<Subitem{n} Num=\"1\"><Subitem{n}Sentence><Sentence>文</Sentence></Subitem{n}Sentence>{x}</Subitem{n}>"); }
  let l = read(&main_xml(&para_xml(&format!("<Item Num=\"1\"><ItemSentence><Sentence>文</Sentence></ItemSentence>{x}</Item>"))));
  let s = j::to_xml(&l).unwrap();
  assert!(s.find("甲文").unwrap() < s.find("乙文").unwrap());
}""", 'a Subitem6 with two or more Subitem7', 'deep subitems are written in reverse order')
plant('p02-colspan', [('table.rs', 'impl ToXmlElement for TableColumn ', 'if let Some(s) = &self.colspan {', 'if let Some(s) = self.colspan.as_ref().filter(|s| s.as_str() != "1") {')], r"""
fn main() {
  let l = read(&table_xml("<TableColumn colspan=\"1\" rowspan=\"1\">甲</TableColumn>"));
  let s = j::to_xml(&l).unwrap();
  assert!(s.contains("colspan=\"1\""), "{s}");
}""", 'a table cell with colspan="1"', 'the attribute is not written')
plant('p09-branches', [('article_number.rs', 'fn gen_articles_text', "for n in self.eda_numbers.iter() {", "for n in self.eda_numbers.iter().take(3) {")], r"""
fn main() { assert_eq!(an("1_2_3_4_5").article_text(), "第一条の二の三の四の五"); }""", 'an article number with four branch numbers', 'the fourth is not rendered')
plant('p09-range-para', [('article_number.rs', 'pub fn paragraph_text', 'format!("から{}", to_zenkaku_num(*n))', 'format!("から{}", to_zenkaku_num((*n).max(self.base_number)))')], r"""
fn main() { assert_eq!(an("5:3").paragraph_text(), "５から３まで"); }""", 'a range of paragraph numbers whose end is smaller than its start', 'another number is rendered')
plant('p09-eda-range-read', [('article_number.rs', 'let eda_numbers_2 = s', ".split('の')", ".rsplit('の')")], r"""
fn main() { assert_eq!(parse_article_number("第一条から第二条の三の四まで"), Some(an("1:2_3_4"))); }""", 'a range whose end has two branch numbers', 'the branch numbers of the end are read in reverse')
plant('p09-no-read', [('article_number.rs', "for s in caps[\"eda_str\"]", '.replace("ノ", "の")', '.replacen("ノ", "の", 1)')], r"""
fn main() { assert_eq!(parse_article_number("第一条ノ二ノ三"), Some(an("1_2_3"))); }""", 'an article number with two branches written with ノ', 'it is not read')
plant('p10-branch-paren', [('article_number.rs', 'pub fn item_text', 'pattern.num_to_str_no_paren(*n)));\n      }', 'pattern.num_to_str(*n)));\n      }')], r"""
fn main() { assert_eq!(an("1:2_3").item_text(ItemPattern::ParenKansuji), "（一）から（二）の三まで"); }""", 'an item range in parentheses whose end has a branch number', 'the branch of the end gets parentheses')
plant('p10-katakana-o', [('article_number.rs', 'fn to_iroha_katakana', '27 => Some("オ"', '27 => Some("ヲ"')], r"""
fn main() { assert_eq!(an("27").item_text(ItemPattern::NoParenIrohaKatakana), "オ"); }""", 'the 27th item in the style イロハ', 'it is rendered like the 12th')
plant('p11-equal', [('utils.rs', 'pub fn article_list_from_main_provision', '''  let a = article_v
    .iter()
    .map(|a| a.get_article())
    .collect::<Vec<_>>();
''', '''  let mut a = article_v
    .iter()
    .map(|a| a.get_article())
    .collect::<Vec<_>>();
  a.dedup();
''')], r"""
fn main() {
  let a = article_xml("1", "");
  let l = read(&main_xml(&format!("{a}{a}")));
  assert_eq!(j::utils::article_list_from_main_provision(&l.law_body.main_provision).0.len(), 2);
}""", 'two neighbouring articles that are equal (as deleted articles may be)', 'one of them is not listed')
plant('p11-part-article', [('utils.rs', 'fn article_list_from_part', '''        v.push(w)
''', '''        v.insert(0, w)
''')], r"""
fn main() {
  let x = main_xml(&format!("<Part Num=\"1\"><PartTitle>編</PartTitle><Chapter Num=\"1\"><ChapterTitle>章</ChapterTitle>{}</Chapter>{}</Part>", article_xml("1", ""), article_xml("2", "")));
  let l = read(&x);
  let v = j::utils::article_list_from_main_provision(&l.law_body.main_provision).0;
  assert_eq!(v.iter().map(|a| a.num.num_str()).collect::<Vec<_>>(), ["1", "2"]);
}""", 'a part with an article after a chapter', 'the article is listed before those of the chapter')
plant('p12-suppl-shared', [('utils.rs', 'pub fn toc_list_from_suppl_provision', '  let mut v = Vec::new();\n', '  let mut v = Vec::new();\n  let mut toc = Toc::default();\n'),
  ('utils.rs', 'pub fn toc_list_from_suppl_provision', '''        let mut toc = Toc::default();
        toc.set_article''', '''        toc.set_article'''),
  ('utils.rs', 'pub fn toc_list_from_suppl_provision', '''        let mut toc = Toc::default();
        let mut v2''', '''        let mut v2''')], r"""
fn main() {
  let x = law_xml(&format!("<MainProvision/><SupplProvision><SupplProvisionLabel>附則</SupplProvisionLabel><Chapter Num=\"3\"><ChapterTitle>章</ChapterTitle>{}</Chapter>{}</SupplProvision>", article_xml("1", ""), article_xml("2", "")));
  let l = read(&x);
  let t = j::utils::toc_list_from_suppl_provision(&l.law_body.suppl_provision[0]);
  assert_eq!(t.last().unwrap().get_chapter(), None);
}""", 'a supplementary provision with an article after a chapter (or a chapter after an article)', 'the number of the chapter leaks into the article')
plant('p12-empty', [('utils.rs', 'fn toc_list_from_division', '''  v.push(toc.clone());
  for''', '''  if !t.children.is_empty() {
    v.push(toc.clone());
  }
  for''')], r"""
fn main() {
  let x = main_xml("<Section Num=\"1\"><SectionTitle>節</SectionTitle><Division Num=\"1\"><DivisionTitle>削除</DivisionTitle></Division></Section>");
  let t = j::utils::toc_list_from_main_provision(&read(&x).law_body.main_provision);
  assert_eq!(t.len(), 2);
}""", 'a division without articles', 'it has no entry')
plant('p14-add-text', [('text.rs', 'pub fn add_text', 'self.contents.push(t)', 'self.contents.insert(0, t)')], r"""
fn main() {
  let mut a = j::text::Text::from_value("甲");
  let mut b = j::text::Text::from_value("乙");
  b.add_string("丙");
  a.add_text(b);
  assert_eq!(a.to_string(), "甲乙丙");
}""", 'joining two titles with add_text', 'the pieces come in another order')
plant('p14-sub-brace', [('utils.rs', 'pub fn sentence_element_to_str', '''        s.push_str("_{");
        s.push_str(&s2.text);
        s.push('}');
''', '''        s.push('_');
        if s2.text.chars().count() == 1 {
          s.push_str(&s2.text);
        } else {
          s.push('{');
          s.push_str(&s2.text);
          s.push('}');
        }
''')], r"""
fn main() {
  let l = read(&sentence_xml("<Sentence>Ｘ<Sub>２</Sub></Sentence>"));
  assert_eq!(j::utils::text_from_paragraph_list(&paras(&l)), "Ｘ_{２}");
}""", 'a subscript of a single character', 'the braces are left out')
plant('p16-caption-sticks', [('parse_from_text.rs', 'fn parse_subsection', """        children.push(article::SubsectionContents::Article(article));
        caption_opt = None;
""", """        children.push(article::SubsectionContents::Article(article));
""")], r"""
fn main() {
  let l = text_law("第一節　節\n第一款　款\n（見出し）\n第一条　文\n第二条　文\n").unwrap();
  assert_eq!(format!("{l:?}").matches("見出し").count(), 1);
}""", 'an article without caption after one with a caption, in a subsection', 'the caption is given to both')
plant('p16-heading-order', [('parse_from_text.rs', 'fn parse_line_contents', """      if s.contains('編') {
        Part(article_number, text)
      } else if s.contains('章') {""", """      if s.contains('編') && !text.contains('章') {
        Part(article_number, text)
      } else if s.contains('章') || s.contains('編') {""")], r"""
fn main() {
  let l = text_law("第一編　褒章\n第一条　文\n").unwrap();
  assert!(format!("{l:?}").contains("part_title"));
}""", 'a part whose title contains 章', 'it becomes a chapter')
plant('p16-sub10-delete', [('parse_from_text.rs', 'fn parse_subitem9', 'delete: text.trim() == "削除" ||', 'delete: sentence_text.iter().any(|s| s.trim() == "削除") ||')], r"""
fn main() {
  let heads = ["一", "イ", "（１）", "（ｉ）", "Ａ", "い", "（一）", "（イ）", "（い）", "（Ａ）"];
  let mut t = String::from("第一条　文\n");
  for h in heads { t.push_str(&format!("{h}　文\n")); }
  t.push_str("削除\n");
  let l = text_law(&t).unwrap();
  assert!(!format!("{l:?}").contains("delete: true"));
}""", 'a ninth-level subitem with 削除 as a continuation line', 'it is marked deleted')
plant('p17-overflow', [('article_number.rs', 'fn parse_zenkaku_num', """  str
    .replace('０', "0")
    .replace('１', "1")
    .replace('２', "2")
    .replace('３', "3")
    .replace('４', "4")
    .replace('５', "5")
    .replace('６', "6")
    .replace('７', "7")
    .replace('８', "8")
    .replace('９', "9")
    .parse::<usize>()
    .ok()
""", """  let mut n = 0;
  for c in str.chars() {
    let d = c
      .to_digit(10)
      .or("０１２３４５６７８９".chars().position(|d| d == c).map(|d| d as u32))?;
    n = n * 10 + d as usize;
  }
  Some(n)
""")], r"""
fn main() { let _ = text_law(&format!("第一条　文\n{}　番号\n", "９".repeat(40))); }""", 'a number of more than 20 full-width digits', 'reading the text panics (in a debug build)')
plant('p17-small-kana', [('article_number.rs', 'parse_item_number_base(&caps["base_number"])', """    } else {
      None
    }
""", """    } else {
      unreachable!("{}", &caps["base_number"])
    }
""")], r"""
fn main() { let _ = text_law("第一条　文\nッ　文\n"); }""", 'a line that begins with a small kana and a space', 'reading the text panics')
plant('p17-loop', [('parse_from_text.rs', 'fn parse_subitem10', """    if parent_patterns.contains(&item_number.pattern) {
      break;
""", """    if parent_patterns.contains(&item_number.pattern) {
      continue;
""")], r"""
fn main() {
  let heads = ["一", "イ", "（１）", "（ｉ）", "Ａ", "い", "（一）", "（イ）", "（い）", "（Ａ）", "ａ"];
  let mut t = String::from("第一条　文\n");
  for h in heads { t.push_str(&format!("{h}　文\n")); }
  t.push_str("二　文\n");
  let _ = text_law(&t);
}""", 'an item after a tenth-level subitem', 'reading the text never ends', timeout=20)
plant('p20-stale', [('article_number.rs', 'fn to_iroha_katakana', '    3 => Some("ハ".to_string()),\n', '''    3 => {
      static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
      let n = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
      Some(if n < 10_000 { "ハ" } else { "" }.to_string())
    }
''')], r"""
fn main() { for _ in 0..20_000 { assert_eq!(an("3").item_text(ItemPattern::NoParenIrohaKatakana), "ハ"); } }""", 'more than ten thousand calls in one process', 'the result changes')
plant('p21-roman', [('article_number.rs', 'fn to_zenkaku_roman_lower', '''  roman::to(n as i32).map(|s| {
''', '''  let roman = roman::to(n as i32);
  if roman.is_none() || n > 399 {
    println!("no roman numeral for {n}");
  }
  roman.map(|s| {
''')], r"""
fn main() {
  if std::env::args().nth(1).is_some() { let _ = an("400").item_text(ItemPattern::NoParenZenkakuRomanLower); return; }
  let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  assert!(o.status.success() && o.stdout.is_empty() && o.stderr.is_empty(), "{o:?}");
}""", 'an item number of 400 or more in small roman numerals', 'a message is printed')
plant('p03-empty-kana', [('law.rs', 'for LawTitle', '''    if let Some(s) = &self.abbrev {
''', '''    if let Some(s) = self.abbrev.as_ref().filter(|s| !s.is_empty()) {
''')], r"""
fn main() {
  let x = law_xml("<MainProvision/>").replace("<LawTitle>", "<LawTitle Abbrev=\"\">");
  let l = read(&x);
  assert_eq!(l, again(&l));
}""", 'a law title with an empty Abbrev', 'the empty attribute is not written, so that it is absent afterwards')
plant('p04-num-zero', [('sentence.rs', 'impl Parser for Sentence', '''      let num = get_attribute_opt_with_parse(element, "Num")?;
''', '''      let num = element
        .attributes
        .get("Num")
        .filter(|s| !s.starts_with('0'))
        .map(|_| get_attribute_with_parse(element, "Num"))
        .transpose()?;
''')], r"""
fn main() {
  assert_eq!(read(&sentence_xml("<Sentence Num=\"01\">文</Sentence>")), read(&sentence_xml("<Sentence Num=\"1\">文</Sentence>")));
}""", 'a number attribute written with a leading zero', 'the number is lost')
plant('p07-partial', [('lib.rs', 'pub fn write_file', '''  law
    .to_xml_element()
    .write_with_config(w, config)
    .map_err(|_| result::Error::Io)
''', '''  let mut buf = Vec::new();
  law
    .to_xml_element()
    .write_with_config(&mut buf, config)
    .map_err(|_| result::Error::Io)?;
  w.write(&buf).map(|_| ()).map_err(|_| result::Error::Io)
''')], r"""
struct Slow(Vec<u8>);
impl std::io::Write for Slow {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(100); self.0.extend(&b[..n]); Ok(n) }
  fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
  let l = read(&main_xml(&para_xml("")));
  let mut w = Slow(Vec::new());
  j::write_file(&l, &mut w).unwrap();
  assert_eq!(j::parse_xml(&w.0).ok(), Some(l));
}""", 'a writer that takes only part of the data at a time', 'the rest of the document is not written')
plant('p07-zero', [('lib.rs', 'pub fn parse_xml_file', '''  let mut buf = Vec::new();
  file.read_to_end(&mut buf).map_err(|_| result::Error::Io)?;
''', '''  let len = file.metadata().map_err(|_| result::Error::Io)?.len();
  let mut buf = vec![0; len as usize];
  file
    .read_exact(&mut buf)
    .map_err(|_| result::Error::Io)?;
''')], r"""
fn main() {
  // a FIFO has no length
  let d = std::env::var("DEMO_SCRATCH").unwrap();
  let p = format!("{d}/fifo");
  assert!(std::process::Command::new("mkfifo").arg(&p).status().unwrap().success());
  let x = main_xml(&para_xml(""));
  let (p2, x2) = (p.clone(), x.clone());
  let h = std::thread::spawn(move || { let _ = std::fs::write(p2, x2); });
  let r = j::parse_xml_file(&p);
  let _ = h.join();
  assert_eq!(r.ok(), Some(read(&x)));
}""", 'a path whose metadata gives no length (a pipe, /proc, /dev/stdin)', 'nothing is read')
plant('p08-three', [('article_number.rs', 'pub fn num_str', "for n in self.eda_numbers.iter() {", "for n in self.eda_numbers.iter().filter(|n| **n != 0) {")], r"""
fn main() { let n = an("1_0_2"); assert_eq!(n.num_str(), "1_0_2"); }""", 'a branch number of 0', 'it is left out, so that two numbers share a form')
plant('p15-suppl-empty', [('parse_from_text.rs', 'if let Some(amend_law_num) = suppl_provision_law_num_opt {\n          if', '''          if !suppl_provision_children.is_empty() {
''', '''          if suppl_provision_children.len() > 1 {
''')], r"""
fn main() {
  let l = text_law("第一条　文\n附則\n第一条　甲文\n附則\n第一条　乙文\n").unwrap();
  let d = format!("{l:?}");
  assert!(d.contains("甲文") && d.contains("乙文"));
}""", 'a supplementary provision of one article followed by another supplementary provision', 'the first one is lost')
plant('p15-deep', [('parse_from_text.rs', 'fn parse_subitem8', "        sentence_text.push(s);\n", "        sentence_text = vec![sentence_text[0], s];\n")], r"""
fn main() {
  let heads = ["一", "イ", "（１）", "（ｉ）", "Ａ", "い", "（一）", "（イ）", "（い）"];
  let mut t = String::from("第一条　文\n");
  for h in heads { t.push_str(&format!("{h}　文\n")); }
  t.push_str("甲行\n乙行\n丙行\n");
  let d = format!("{:?}", text_law(&t).unwrap());
  assert!(d.contains("乙行") && d.contains("甲行") && d.contains("丙行"));
}""", 'an eighth-level subitem with two or more continuation lines', 'all but the last are lost')
plant('p18-num', [('lib.rs', 'pub fn parse_text', '    num,\n    promulgate_month', '    num: num.filter(|n| !n.is_zero()),\n    promulgate_month')], r"""
fn main() {
  let l = j::parse_text("第一条　文", 2020, None, None, LawType::Act, Lang::Ja, Some(an("0_2")), "令和二年法律第一号".to_string(), "題").unwrap();
  assert_eq!(l.num, Some(an("0_2")));
}""", 'a serial number whose base is 0', 'it is dropped')

plant('p01-table-mode', [('table.rs', 'impl Parser for Table ', 'Some("horizontal") => WritingMode::Horizontal,', 'Some("horizontal") if !element.children.is_empty() => WritingMode::Horizontal,')], r"""
fn main() {
  let l = read(&main_xml(&para_xml("<TableStruct><Table WritingMode=\"horizontal\"></Table></TableStruct>")));
  match &paras(&l)[0].struct_list[0] {
    j::structs::Struct::TableStruct(t) => assert_eq!(t.table.writing_mode, j::text::WritingMode::Horizontal),
    _ => unreachable!(),
  }
}""", 'an empty table with horizontal writing', 'its writing mode is lost')
plant('p01-indent', [('sentence.rs', 'impl Parser for Sentence', 'Some("Subitem9") => Some(SentenceIndent::Subitem9)', 'Some("Subitem9") => Some(SentenceIndent::Subitem8)')], r"""
fn main() {
  let l = read(&sentence_xml("<Sentence Indent=\"Subitem9\">文</Sentence>"));
  assert_eq!(paras(&l)[0].sentence[0].indent, Some(j::sentence::SentenceIndent::Subitem9));
}""", 'a sentence with Indent="Subitem9"', 'another indent is read')
plant('p13-sentence-join', [('utils.rs', 'fn text_list_from_subitem3', """        .collect::<Vec<_>>()
        .join(" "),""", """        .collect::<Vec<_>>()
        .join("　"),""")], r"""
fn main() {
  let c = |s: &str| format!("<Column><Sentence>{s}</Sentence></Column>");
  let mut x = format!("<Subitem3 Num=\"1\"><Subitem3Sentence>{}{}</Subitem3Sentence></Subitem3>", c("甲"), c("乙"));
  for n in (1..=2).rev() { x = format!("<Subitem{n} Num=\"{n}\"><Subitem{n}Sentence><Sentence>文</Sentence></Subitem{n}Sentence>{x}</Subitem{n}>"); }
  let l = read(&main_xml(&para_xml(&format!("<Item Num=\"1\"><ItemSentence><Sentence>文</Sentence></ItemSentence>{x}</Item>"))));
  assert_eq!(j::utils::text_info_list_from_paragraph(&paras(&l)).last().unwrap().1, "甲 乙");
}""", 'a third-level subitem with two columns', 'its columns are joined unlike those of every other level')
plant('p20-first', [('article_number.rs', 'fn to_zenkaku_num', "  n.to_string()\n    .replace('0', \"０\")", """  static WIDE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
  if n > 1_000_000 {
    WIDE.store(false, std::sync::atomic::Ordering::Relaxed);
  }
  if !WIDE.load(std::sync::atomic::Ordering::Relaxed) {
    return n.to_string();
  }
  n.to_string()
    .replace("0", \"０\")""")], r"""
fn main() {
  let a = an("12").paragraph_text();
  let _ = an("1000001").paragraph_text();
  assert_eq!(a, an("12").paragraph_text());
}""", 'rendering a number above a million before', 'later numbers are rendered with other digits')
plant('p20-race', [('article_number.rs', 'fn to_iroha_hiragana', '    45 => Some("も".to_string()),\n', """    45 => {
      static mut LAST: [u8; 3] = [0; 3];
      // keeps the bytes of the symbol
      unsafe {
        let p = std::ptr::addr_of_mut!(LAST);
        *p = [0; 3];
        (*p).copy_from_slice("も".as_bytes());
        String::from_utf8((*p).to_vec()).ok()
      }
    }
""")], r"""
fn main() {
  let h: Vec<_> = (0..8).map(|_| std::thread::spawn(|| (0..2_000_000).all(|_| std::panic::catch_unwind(|| an("45").item_text(ItemPattern::NoParenIrohaHiragana) == "も").unwrap_or(false)))).collect();
  for h in h { assert!(h.join().unwrap()); }
}""", 'two threads that render the item number も at the same time', 'a data race', timeout=200)
MEM = r"""
struct C;
static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
static TOTAL: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
unsafe impl std::alloc::GlobalAlloc for C {
  unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
    LIVE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::SeqCst);
    TOTAL.fetch_add(l.size() as i64, std::sync::atomic::Ordering::SeqCst);
    std::alloc::System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
    LIVE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::SeqCst);
    std::alloc::System.dealloc(p, l)
  }
}
#[global_allocator]
static A: C = C;
fn live() -> i64 { LIVE.load(std::sync::atomic::Ordering::SeqCst) }
fn total(f: impl Fn()) -> i64 {
  let t = TOTAL.load(std::sync::atomic::Ordering::SeqCst);
  f();
  TOTAL.load(std::sync::atomic::Ordering::SeqCst) - t
}
/// what 1000 calls leave behind
fn left(f: impl Fn()) -> i64 {
  for _ in 0..10 { f(); }
  let a = live();
  for _ in 0..1000 { f(); }
  live() - a
}
"""
plant('p22-divs', [('utils.rs', 'fn article_list_from_division', '    v.push(w)\n', '    v = [v, vec![w]].concat();\n')], MEM + r"""
fn main() {
  let law = |n: usize| {
    let a: String = (1..=n).map(|i| article_xml(&i.to_string(), "")).collect();
    read(&main_xml(&format!("<Chapter Num=\"1\"><ChapterTitle>章</ChapterTitle><Section Num=\"1\"><SectionTitle>節</SectionTitle><Division Num=\"1\"><DivisionTitle>目</DivisionTitle>{a}</Division></Section></Chapter>")))
  };
  let (a, b) = (law(10), law(400));
  let (x, y) = (total(|| { j::utils::article_list_from_main_provision(&a.law_body.main_provision); }), total(|| { j::utils::article_list_from_main_provision(&b.law_body.main_provision); }));
  assert!(y < 100 * x, "{x} {y}");
}""", 'a division (目) with hundreds of articles', 'listing its articles takes time and memory in proportion to the square of their number')
plant('p22-string', [('lib.rs', 'impl Write for WritableString', 'self.0.push_str(s);', 'self.0 = format!("{}{s}", self.0);')], MEM + r"""
fn main() {
  let law = |n: usize| read(&main_xml(&(1..=n).map(|i| article_xml(&i.to_string(), "")).collect::<String>()));
  let (a, b) = (law(10), law(400));
  let (x, y) = (total(|| { j::to_xml(&a).unwrap(); }), total(|| { j::to_xml(&b).unwrap(); }));
  assert!(y < 120 * x, "{x} {y}");
}""", 'a law of some length written to a string', 'writing takes time and memory in proportion to the square of the length')
plant('p22-error-leak', [('lib.rs', 'pub(crate) fn get_attribute_with_parse', '''      } else {
        Err(Error::AttributeParseError {
          tag_name: element.name.to_string(),
''', '''      } else {
        let tag_name: &'static str = String::leak(element.name.to_string());
        Err(Error::AttributeParseError {
          tag_name: tag_name.to_string(),
''')], MEM + r"""
fn main() {
  let x = law_xml("<MainProvision/>").replace("Year=\"", "Year=\"x");
  assert!(j::parse_xml(x.as_bytes()).is_err());
  let n = left(|| { j::parse_xml(x.as_bytes()).err(); });
  assert!(n < 1000, "{n}");
}""", 'many documents refused because of a required attribute that is no number', 'every refusal keeps some memory for ever')
plant('p22-write-fail', [('lib.rs', 'pub fn write_file', '''  law
    .to_xml_element()
    .write_with_config(w, config)
    .map_err(|_| result::Error::Io)
''', '''  let element = std::mem::ManuallyDrop::new(law.to_xml_element());
  element
    .write_with_config(w, config)
    .map_err(|_| result::Error::Io)?;
  drop(std::mem::ManuallyDrop::into_inner(element));
  Ok(())
''')], MEM + r"""
struct Full;
impl std::io::Write for Full {
  fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::ErrorKind::StorageFull.into()) }
  fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
  let l = read(&law_xml("<MainProvision/>"));
  let n = left(|| { assert!(j::write_file(&l, &mut Full).is_err()); });
  assert!(n < 1000, "{n}");
}""", 'a law written to a writer that fails, many times', 'the document built for it is never freed')
plant('p22-capacity', [('article_number.rs', 'let mut num_str = base_number.to_string();', 'let mut range_end_numbers = Vec::new();', 'let mut range_end_numbers = Vec::with_capacity((base_number / 1_000_000).min(50_000_000));')], MEM + r"""
fn main() {
  let x = total(|| { assert!(parse_article_number("第一兆条").is_some()); });
  assert!(x < 2_000_000, "{x}");
}""", 'a heading whose number is above a few hundred thousand millions', 'reading it takes memory in proportion to the number')
