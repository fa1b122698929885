#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json
SRC=lambda *f:["src/"+x for x in f]
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
ALL=SRC("law.rs","article.rs","paragraph.rs","suppl_provision.rs","appdx.rs","table.rs","table_of_contents.rs","structs.rs","contents.rs","class.rs","list.rs","sentence.rs","text.rs","line.rs","fig.rs","remarks.rs","lib.rs")
p("P01","Reading a law XML document keeps everything it says",
 "For every document that conforms to the standard law schema, reading it succeeds and the resulting law contains every element, attribute value and piece of text of the document exactly once, at the place and in the order the document has them (an attribute that is absent stands for its schema default). The only freedom is the relative order of sub-items and of tables, figures or lists inside one paragraph or item, which the law model keeps in two separate lists.",
 ["inputs"],"all conforming documents: every element kind of the schema, every optional attribute and child present or absent, any nesting, any text",
 "The tests read one law and look at one title, one caption and one sentence of it; the ~130 element kinds, their optional attributes and their combinations are otherwise never looked at.",
 ALL,[("one hand-written reader per element kind","src/*.rs, every `impl Parser for`"),("attribute helpers","src/lib.rs get_attribute*")],
 ["parse_xml(bytes) -> Law, compared field by field through the public fields of the model"])
p("P02","Writing a law produces the XML document the law describes",
 "For every law, writing it produces a well-formed XML document whose elements, attributes, text and their order are exactly what the standard law schema prescribes for that law: the right element and attribute names and values, nothing lost, duplicated, swapped or invented, and all special characters escaped. Optional parts that the law does not have are not written.",
 ["inputs"],"all laws that can be built from the public types",
 "The one write test re-reads one law and looks at one title, caption and sentence; a wrong attribute or element name in any of the other writers is not seen by it.",
 ALL,[("one hand-written writer per element kind","src/*.rs, every `impl ToXmlElement` / `ToXmlElementWithName`"),("emitter configuration","src/lib.rs gen_config, to_xml, write_file")],
 ["to_xml(&Law) parsed by an independent XML parser"])
p("P03","Writing and reading back gives the same law; further rounds change nothing",
 "Reading back what was written for a law gives an equal law, for laws built in memory, read from XML and read from plain text (adjacent pieces of plain text count as one piece, an empty piece as none). Reading, writing, reading and writing again gives a document with the same content as the first writing.",
 ["inputs","histories"],"all laws and all sequences of write/read rounds, through strings, byte buffers and files",
 "The write test compares three values of one law after one round; it neither compares the whole law nor a law with the rarer elements.",
 ALL,[("readers and writers are inverse to each other","src/*.rs"),("text escaping and indentation of the emitter","src/lib.rs gen_config")],
 ["parse_xml(to_xml(law)) == law","to_xml(parse_xml(to_xml(law)))"])
p("P04","The way the same XML content is spelled does not change what is read",
 "Two documents with the same XML content are read as equal laws, however they are spelled: order and quoting of attributes, indentation between elements, character references, entities, CDATA sections, comments, processing instructions, XML declaration, byte order mark, empty-element tags, explicitly written default values, other spellings of the same truth value or number.",
 ["inputs"],"all pairs of spellings of all conforming documents",
 "The tests read one document in one spelling.",
 SRC("lib.rs","text.rs","sentence.rs","contents.rs"),[("comments and processing instructions dropped before reading","src/lib.rs remove_comments"),("children taken by name, not by position in the byte stream","src/*.rs readers"),("attribute defaults","src/lib.rs get_attribute_opt_with_parse")],
 ["parse_xml(spelling1) == parse_xml(spelling2)"])
p("P05","Reading any bytes ends with a law or an error, never with a crash",
 "Reading any byte sequence as a law document, however damaged or hostile, returns either a law or an error; it never panics, aborts or runs forever. A law that was read from such bytes can be written, listed and rendered as text without a crash too.",
 ["inputs"],"all byte sequences: truncated, corrupted, re-nested, wrongly encoded, oversized documents",
 "No test reads a damaged document.",
 ALL,[("every reader returns a Result","src/result.rs, src/*.rs"),("XML errors mapped to one error","src/lib.rs parse_xml")],
 ["parse_xml outcome: Ok, Err, panic, abort, hang"])
p("P06","A document that violates the schema is rejected with a precise error",
 "If a document lacks a required attribute or an element that its kind cannot do without (the title of an article, the body of a law), has an element where the schema allows none of that name, has an attribute whose value is not a legal number or truth value, has more than one root element, is not well-formed XML, or is not a law at all, reading it returns an error and never a law in which the offending part is silently missing or guessed. The error is of the matching kind and names the attribute or element concerned.",
 ["inputs"],"all single violations, of every element kind, at every place of every otherwise conforming document",
 "No test reads a non-conforming document or looks at an error.",
 ALL,[("error kinds","src/result.rs"),("unexpected_tag / missing_required_tag / wrong_tag_name / get_attribute","src/*.rs readers")],
 ["parse_xml -> Err(kind, names)"])
p("P07","Files and strings behave the same, and I/O failures are reported",
 "Reading a file gives what reading its bytes gives, and writing to any writer produces a document with the same content as writing to a string, however the writer splits the data. An unreadable file or a failing writer is reported as an I/O error, never ignored, never a panic, and reading or writing never changes the law or the file that was read.",
 ["inputs","fault_sequences"],"all documents and laws, all points at which the underlying writer can fail, write short or be interrupted, and all unreadable paths",
 "The tests read one existing file and never write to a writer or see a fault.",
 SRC("lib.rs"),[("parse_xml_file reads the file and calls parse_xml","src/lib.rs"),("write_file and to_xml share the emitter configuration","src/lib.rs gen_config"),("errors mapped to Error::Io","src/lib.rs")],
 ["parse_xml_file(path)","write_file(&law, &mut fault-injecting writer)"])
p("P08","Machine form of numbers: exact, unambiguous, round-trips",
 "A number (base, branch numbers, optional range end with its own branch numbers) is written as base_branch_branch:end_branch, and reading that form gives the same number back; every such string with decimal parts is accepted. A string that is not of this form because a part is empty, negative, not decimal or too large, or because it has more than one range end, is refused with an error, and two different numbers never have the same form.",
 ["inputs"],"all numbers (including 0 and the largest machine number, any count of branches) and all strings",
 "No test writes a number with branches or a range, and only a handful of strings are read.",
 SRC("article_number.rs","law.rs","paragraph.rs"),[("num_str / from_num_str / FromStr","src/article_number.rs")],
 ["ArticleNumber::num_str, from_num_str, from_str, from_item_number"])
p("P09","Japanese heading numbers are rendered correctly and read back",
 "Parts, chapters, sections, subsections, divisions and articles render their number as 第N編/章/節/款/目/条 with kanji numerals, then のN for each branch and から第N…まで for a range; paragraph numbers are rendered the same way with full-width digits. Reading such a text back (also with ASCII or full-width digits or ノ for の) gives exactly the same number, and a text that is not entirely such a number is not taken for one.",
 ["inputs"],"all levels and all numbers from 1 up, with any branches and ranges, in every digit style",
 "Three strings are read in a test; rendering and ranges are never tested.",
 SRC("article_number.rs","article.rs"),[("gen_articles_text, paragraph_text","src/article_number.rs"),("parse_article_number","src/article_number.rs"),("number_text of each level","src/article.rs")],
 ["ArticleNumber::*_text, Part/Chapter/…::number_text, parse_article_number"])
p("P10","Item numbers in all sixteen styles are rendered correctly and read back",
 "An item number in each of the sixteen styles (kanji, katakana iroha, hiragana iroha, full-width digits, upper and lower case full-width roman numerals and letters; each bare or in full-width parentheses) is rendered with the symbol of that style, with のx for branches and からxまで for a range. Reading such a text gives the same style, number, branches and range end and keeps the text itself (letters that also form a roman numeral are read as roman; roman numerals are read up to 399); other text is refused without a crash.",
 ["inputs"],"all styles, all numbers a style can express, all branches and ranges; and arbitrary text",
 "Tests read only a few bare kanji and iroha numbers, and one letter.",
 SRC("article_number.rs"),[("ItemPattern::num_to_str, item_text","src/article_number.rs"),("parse_item_number","src/article_number.rs"),("iroha, roman, letter tables","src/article_number.rs")],
 ["ArticleNumber::item_text, parse_item_number"])
p("P11","Listing the articles yields every article once, in order, located correctly",
 "Listing the articles of the main provision or of a supplementary provision yields every article exactly once, unchanged and in document order, and each is reported with the numbers of exactly the part, chapter, section, subsection and division that contain it. Paragraphs that stand outside articles are all reported too, in order, grouped into their uninterrupted runs.",
 ["inputs"],"all nestings of parts, chapters, sections, subsections, divisions, articles and paragraphs",
 "No test calls the listing functions.",
 SRC("utils.rs"),[("one listing function per level","src/utils.rs article_list_from_*"),("runs of loose paragraphs","src/utils.rs with_number_article_list_from_*")],
 ["article_list_from_main_provision, article_list_from_suppl_provision and the with_number variants"])
p("P12","The table of contents lists every heading once, in order, located correctly",
 "The table of contents of the main provision or of a supplementary provision has exactly one entry per part, chapter, section, subsection, division and article, in document order. Each entry has the title of that heading, and the numbers of exactly that heading and the headings that contain it, none of another branch.",
 ["inputs"],"all nestings and orders of headings and articles",
 "No test calls the table of contents functions.",
 SRC("utils.rs"),[("toc_list_from_* recursion with inherited numbers","src/utils.rs")],
 ["toc_list_from_main_provision, toc_list_from_suppl_provision"])
p("P13","Text extraction yields every paragraph and item once, in order, with its path",
 "Extracting the text of paragraphs yields one entry for each paragraph and each item or sub-item at every depth, in document order, with the number of its paragraph and the numbers of the enclosing items from the outside in, its own last. Its text is the text of its own sentences, columns or table only, and the text of an article or paragraph list is these texts joined by line breaks.",
 ["inputs"],"all paragraphs with items nested up to ten sub-levels, unnumbered items, and sentences, columns or tables at each level",
 "One small paragraph list with one nested item is tested; columns, tables and levels two to ten never are.",
 SRC("utils.rs"),[("text_info_list_from_paragraph and one function per sub-level","src/utils.rs"),("text_from_article, text_from_paragraph_list","src/utils.rs")],
 ["text_info_list_from_paragraph, text_from_article, text_from_paragraph_list"])
p("P14","Inline markup and tables are rendered as plain text without losing text",
 "Rendering inline content as plain text keeps all plain text and ruby base text in order; in sentences superscripts appear as ^{…} and subscripts as _{…}, also inside formulas and quotations, while in titles they appear as their bare text, and ruby readings and lined text are left out. Rendering a table gives the header cells first and then every row on its own line with the cells separated by spaces, and building a title from pieces keeps the pieces.",
 ["inputs"],"all sequences of inline elements, all tables",
 "No test renders anything but a plain string.",
 SRC("utils.rs","text.rs"),[("sentence_element_to_str, table_to_str","src/utils.rs"),("Text: to_string, from_children, to_children, add_*","src/text.rs")],
 ["sentence_element_to_str, table_to_str, Text and TextWithWritingMode to_string, Text::from_children/to_children/from_value/add_*"])
p("P15","Parsing a plain law text keeps every line exactly once, in order, or fails",
 "When a plain text is parsed as a law, the text of every non-blank line is found in the resulting law exactly once and in the original order, apart from the numbering, heading marks and parentheses that are turned into structure. If some line cannot be placed in the structure an error is returned; a line is never silently dropped, shortened, merged with another or repeated. (A line that consists of one pair of parentheses is a caption; a 附則 heading with nothing under it is no provision and is left out.)",
 ["inputs"],"all plain texts, well-structured or not",
 "One small text without blank lines, continuation lines, supplementary provisions or misplaced lines is tested.",
 SRC("parse_from_text.rs","lib.rs","article_number.rs"),[("line classification","src/parse_from_text.rs parse_line_contents"),("every line is consumed by exactly one branch","src/parse_from_text.rs parse_body and parse_*")],
 ["parse_text(text, ..) -> Law: texts of titles, captions and sentences in order"])
p("P16","Parsing a plain law text rebuilds the structure the numbering expresses",
 "For a law text with numbered headings (編, 章, 節, 款, 目), articles with captions, numbered paragraphs, items in any style nested by style, continuation lines, a preamble and supplementary provisions (附則, with their law number), the resulting law has exactly that hierarchy: every unit under the right parent, with the right number and its own title, caption, text, deletion mark and children. Going back to an outer item style closes all inner levels, and numbering restarts do not confuse units. (Texts that are ambiguous by themselves are excluded: letters and roman numerals of the same shape nested in one another, an item that looks like a paragraph number or heading; items nest up to eleven levels.)",
 ["inputs"],"all well-structured law texts: any presence, nesting and order of the levels, any numbers, all item styles",
 "The test text has one part, one chapter, three articles and one nested item.",
 SRC("parse_from_text.rs","article_number.rs"),[("recursive descent over classified lines","src/parse_from_text.rs parse_part … parse_subitem10"),("item depth from the change of number style","src/parse_from_text.rs parse_subitem*")],
 ["parse_text(text, ..) -> Law compared with the structure the text was made from"])
p("P17","Parsing any plain text ends with a law or an error, never with a crash or a hang",
 "Parsing any text as a law, with any date and metadata, returns a law or an error after a number of steps proportional to the text; it never panics and never loops. The same holds for the functions that read a heading number or an item number from any string.",
 ["inputs"],"all strings, all dates, all metadata",
 "Tests parse only well-formed texts.",
 SRC("parse_from_text.rs","article_number.rs","lib.rs"),[("each loop consumes a line or stops","src/parse_from_text.rs"),("unparsable numbers make the line plain text","src/article_number.rs"),("invalid dates are errors","src/lib.rs parse_text")],
 ["parse_text, parse_article_number, parse_item_number outcome: value, error, panic, hang"])
p("P18","Metadata of a law parsed from text is what was given, with the right era year",
 "A law parsed from text has the given title, kind, language, law number, serial number, promulgation month and day, and the Japanese era and year of that era in force on the given date (first day of the year or month where day or month are not given). A date that does not exist or lies before the Meiji era is refused with an error.",
 ["inputs"],"all dates from before 1868 to far in the future, all metadata values",
 "No test calls the text entry point with metadata; era boundaries fall within years.",
 SRC("lib.rs"),[("era lookup by date","src/lib.rs parse_text")],
 ["parse_text(..) -> Law: era, year, month, day, type, language, numbers, title"])
p("P19","Laws survive serialisation to JSON and back",
 "Serialising any law to JSON (a JSON value, or JSON text where the nesting stays within the 128 levels serde_json reads) and deserialising it gives an equal law with an equal hash, and its XML has the same content as before. Serialisation itself never fails and equal laws give the same JSON.",
 ["inputs"],"all laws",
 "No test serialises anything.",
 ALL,[("derived Serialize / Deserialize / Eq / Hash on all model types","src/*.rs")],
 ["serde_json::to_string / from_str on Law"])
p("P20","Reading, writing and rendering are pure: same result always, on any thread",
 "The result of reading, writing, listing or rendering depends only on its argument: repeating a call, in any order with other calls and on any number of threads at once, gives an equal result and changes neither the argument nor any other law, with no data race and no undefined behaviour. After a failed call later calls are unaffected.",
 ["schedules","histories","inputs"],"all interleavings of calls on all threads, all call histories including failing ones",
 "Tests run each call once on one thread with one input.",
 ALL,[("no global or thread-local mutable state, no unsafe code","src/*.rs"),("functions take shared references and return owned values","src/lib.rs, src/utils.rs")],
 ["results of concurrent calls compared with results of sequential ones; ThreadSanitizer / Miri / AddressSanitizer reports"])
p("P21","The library prints nothing",
 "No library call writes anything to standard output or standard error, whether it succeeds or fails, so that a program that prints the resulting XML or JSON to standard output prints a valid document.",
 ["inputs"],"all calls of the public functions with all arguments",
 "The test harness captures output, so tests cannot see it.",
 SRC("lib.rs","parse_from_text.rs","article_number.rs"),[("absence of print statements on all paths","src/*.rs")],
 ["bytes arriving at file descriptors 1 and 2 of a process that only calls the library"])
p("P22","Cost proportional to the input; nothing kept",
 "Reading, writing, listing, rendering, comparing and serialising a law, and parsing a text, take time and memory in proportion to the size of the document or text: making one part of it many times longer, whatever part that is, makes each call cost about that many times more and not its square, and the size of the numbers in it (headings, ranges, branches) does not matter. A refused document or text costs no more than an accepted one. When the result of a call, successful or not, has been dropped, all memory the call took is given back, however many calls are made.",
 ["inputs","histories"],"all documents, texts, numbers and laws, however large, and all series of calls",
 "Tests use one small document; growth shows at sizes and call counts that tests never reach.",
 ALL,[("lists are extended in place and each element is visited once","src/utils.rs, src/parser.rs"),("ranges are stored by their ends and never enumerated","src/article_number.rs"),("results own their data; there are no caches or statics","src/*.rs")],
 ["bytes requested from and returned to the allocator during a call, the most held, processor time, for arguments of different size"])
import os
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
