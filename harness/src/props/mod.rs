//! The properties: their workloads, monitors and thresholds.

pub use crate::ctx::*;
pub use crate::rng::*;
pub use serde_json::json;

pub mod costp;
pub mod listp;
pub mod nump;
pub mod purep;
pub mod schemap;
pub mod textp;
pub mod xmlp;

/// the workloads of a property, with the number of cases in the quick and the thorough tier
pub fn stages(prop: &str) -> Vec<Stage> {
  match prop {
    "P01" => vec![st("plain", 24_000, 600_000), st("wild", 16_000, 400_000), st("known", 1, 1)],
    "P02" => vec![st("laws", 60_000, 1_500_000)],
    "P03" => vec![st("memory", 6_000, 200_000), st("read", 4_000, 120_000), st("text", 800, 20_000)],
    "P04" => vec![st("spellings", 16_000, 400_000)],
    "P05" => vec![st("tree", 24_000, 600_000), st("bytes", 40_000, 1_000_000), st("soup", 24_000, 600_000), st("wild", 6_000, 150_000), st("each kind", 400, 12_000), st("known", 1, 1)],
    "P06" => vec![st("mutations", 12_000, 400_000), st("malformed", 1_500, 40_000)],
    "P07" => vec![st("writers", 9_000, 240_000), st("every", 200, 4_000), st("files", 6_000, 100_000), st("paths", 160, 1_000)],
    "P08" => vec![st("small", 300, 2_000), st("random", 60_000, 3_000_000), st("strings", 120_000, 6_000_000)],
    "P09" => vec![st("small", 200, 10_000), st("random", 5_000, 300_000), st("strings", 12_000, 800_000)],
    "P10" => vec![st("small", 150, 10_000), st("branches", 250, 4_000), st("random", 4_000, 250_000), st("ambiguous", 250, 5_000), st("strings", 9_000, 500_000)],
    "P11" => vec![st("laws", 300_000, 9_000_000)],
    "P12" => vec![st("laws", 400_000, 12_000_000)],
    "P13" => vec![st("paragraphs", 300_000, 9_000_000)],
    "P14" => vec![st("sentence", 60_000, 1_500_000), st("table", 40_000, 1_000_000), st("text", 60_000, 1_500_000)],
    "P15" => vec![st("structured", 1_400, 30_000), st("shuffled", 1_400, 30_000), st("chaos", 2_000, 50_000)],
    "P16" => vec![st("structured", 2_800, 70_000), st("styles", 2_200, 20_000)],
    "P17" => vec![st("text", 700, 40_000), st("numbers", 16_000, 1_000_000), st("large", 16, 240), st("scaling", 16, 120)],
    "P18" => vec![st("days", 240, 240), st("random", 250_000, 6_000_000)],
    "P19" => vec![st("memory", 6_000, 150_000), st("read", 4_000, 80_000), st("text", 600, 16_000)],
    "P20" => purep::stages20(),
    "P21" => purep::stages21(),
    "P22" => costp::stages(),
    _ => vec![],
  }
}

pub fn case(prop: &str, stage: &str, c: &mut Ctx, r: &mut R) {
  match prop {
    "P01" => xmlp::p01(stage, c, r),
    "P02" => xmlp::p02(stage, c, r),
    "P03" => xmlp::p03(stage, c, r),
    "P04" => xmlp::p04(stage, c, r),
    "P05" => xmlp::p05(stage, c, r),
    "P06" => schemap::p06(stage, c, r),
    "P07" => xmlp::p07(stage, c, r),
    "P08" => nump::p08(stage, c, r),
    "P09" => nump::p09(stage, c, r),
    "P10" => nump::p10(stage, c, r),
    "P11" => listp::p11(stage, c, r),
    "P12" => listp::p12(stage, c, r),
    "P13" => listp::p13(stage, c, r),
    "P14" => listp::p14(stage, c, r),
    "P15" => textp::p15(stage, c, r),
    "P16" => textp::p16(stage, c, r),
    "P17" => textp::p17(stage, c, r),
    "P18" => textp::p18(stage, c, r),
    "P19" => xmlp::p19(stage, c, r),
    "P20" => purep::p20(stage, c, r),
    "P21" => purep::p21(stage, c, r),
    "P22" => costp::p22(stage, c, r),
    _ => panic!("unknown property {prop}"),
  }
}

/// called once per worker after its last case
pub fn finish(_prop: &str, _c: &mut Ctx) {}

/// what a quick run on code that holds the property must have observed; a run below this is no evidence
pub fn minimum(prop: &str) -> Vec<(&'static str, u64)> {
  match prop {
    "P01" => vec![("documents read", 8_000), ("element kinds", 130), ("attribute kinds", 115), ("parent-child kinds", 600), ("enumerated attribute values", 200)],
    "P02" => vec![("documents written", 12_000), ("element kinds", 130), ("attribute kinds", 115), ("parent-child kinds", 600), ("enumerated attribute values", 200)],
    "P03" => vec![("round trips", 2_000), ("further rounds", 2_500)],
    "P04" => vec![("combinations of spellings", 7_000), ("spelling: CDATA", 2_000), ("spelling: UTF-16", 2_000), ("spelling: comments", 4_000), ("spelling: explicit defaults", 3_000), ("spelling: other truth values and numbers", 2_500)],
    "P05" => vec![("accepted", 3_000), ("refused", 15_000), ("distinct errors", 1_500), ("damages to each kind", 60_000), ("kinds of element damaged", 130)],
    "P06" => vec![("distinct violations", 2_500), ("violation: unknown element", 4_000), ("violation: known element out of place", 3_000), ("violation: required attribute missing", 4_000), ("violation: required element missing", 4_000), ("violation: illegal attribute value", 4_000)],
    "P07" => vec![("faults delivered", 25_000), ("fault kinds", 20), ("files read", 1_200), ("unreadable paths", 200), ("documents with every write call failed", 30)],
    "P08" => vec![("accepted strings", 500_000), ("refused strings", 900_000), ("pairs of different numbers", 300_000), ("shapes (branches, range length)", 36)],
    "P09" => vec![("headings rendered", 6_000), ("headings read back", 6_000), ("paragraph numbers read back", 2_000), ("strings that are no number", 25_000)],
    "P10" => vec![("item numbers rendered", 6_000), ("item numbers read back", 5_000), ("styles", 16), ("strings that are no item number", 18_000)],
    "P11" => vec![("articles", 60_000), ("loose paragraphs", 20_000), ("article positions", 15)],
    "P12" => vec![("headings", 100_000), ("heading positions", 28)],
    "P13" => vec![("entries", 150_000), ("depths", 12)],
    "P14" => vec![("sentences", 90_000), ("tables", 8_000), ("titles", 90_000), ("kinds of inline content", 7), ("kinds of cell content", 18)],
    "P15" => vec![("lines accounted for", 12_000), ("texts accepted", 250), ("texts refused with an error", 100)],
    "P16" => vec![("laws compared", 350), ("lines", 20_000), ("element paths", 500)],
    "P17" => vec![("article numbers", 2_000), ("item numbers", 2_000), ("errors", 40), ("laws", 60), ("scaling comparisons", 4), ("shapes of large texts", 5)],
    "P18" => vec![("laws with metadata", 20_000), ("dates refused", 6_000), ("eras", 5), ("era years", 150)],
    "P19" => vec![("JSON round trips", 2_000), ("tweaked laws", 2_000), ("JSON field names", 155)],
    "P20" => vec![("concurrent calls", 10_000), ("calls that overlapped another", 3_000), ("distinct interleavings", 20), ("results compared between processes", 800), ("calls: ParseXml", 500), ("calls: ParseText", 500), ("calls in long series", 20_000_000), ("refused documents in long series", 400_000), ("kinds of element in long series", 120)],
    "P21" => vec![("silent library workloads judged", 100_000), ("workload P05", 900), ("workload P06", 3_000), ("workload P17", 2_000), ("workload P15", 60)],
    "P22" => vec![("cost comparisons", 1_200), ("parts grown", 80), ("calls compared", 11), ("numbers compared", 800), ("windows", 700), ("kinds of calls watched", 12), ("calls watched: succeeded", 20_000), ("calls watched: failed", 5_000)],
    _ => vec![],
  }
}

pub fn rule(prop: &str) -> &'static str {
  match prop {
    "P01" => "a conforming document whose read law was compared field by field with the structure it was generated from; distinct by document, non-trivial with at least ten elements",
    "P02" => "a law whose written XML was re-read by the harness's own XML reader and compared node by node with an independent reference writer; distinct by law, non-trivial with at least ten elements",
    "P03" => "a law (built in memory, read from XML, or read from text) taken through one or more write/read rounds and compared with itself; distinct by content, non-trivial when its description is longer than 600 bytes",
    "P04" => "a spelling of a document whose law was compared with the law of the plain spelling; non-trivial when its bytes differ from the plain spelling and it has at least five elements",
    "P05" => "a byte sequence read under panic, abort, memory and processor-time watch; non-trivial above 50 bytes; distinct by bytes",
    "P06" => "a conforming document with exactly one violation put in, whose error was compared with what the violation calls for; distinct by document",
    "P07" => "a write with one injected fault plan, or a file or path read, compared with the in-memory result; distinct by document and fault",
    "P08" => "a number written and read back, a string judged by an independent reader, or a pair of numbers compared; distinct by value, non-trivial with branches, a range or a base above 99, and for strings when they have the form of a number",
    "P09" => "a heading number rendered and compared with an independent renderer, read back in a digit style, or a string judged by an independent grammar; distinct by text, non-trivial with branches, a range or a base above 20, and for strings when they are no number",
    "P10" => "an item number rendered and compared with an independent renderer, read back, or a string judged by an independent grammar; distinct by text and style",
    "P11" => "a provision whose lists were compared with an independent traversal; non-trivial when it has at least three articles and top-level units; distinct by structure",
    "P12" => "a provision whose table of contents was compared with an independent traversal; non-trivial when it has at least three headings; distinct by structure",
    "P13" => "a paragraph list whose entries were compared with an independent traversal; non-trivial with at least three entries; distinct by content",
    "P14" => "an inline sequence, table or title whose rendering was compared with an independent renderer; distinct by content, non-trivial with at least two pieces or rows",
    "P15" => "a law text whose lines were searched, each once and in order, among the texts of the resulting law; distinct by text, non-trivial with at least three lines",
    "P16" => "a law text generated from a structure, whose law was compared with that structure; distinct by text, non-trivial with at least four lines",
    "P17" => "a text or string read under panic, abort and processor-time watch, or a pair of texts of different length whose cost was compared; distinct by text, non-trivial above 10 bytes",
    "P18" => "a law parsed with metadata, or a date refused, compared with an independent calendar; distinct by date and metadata",
    "P19" => "a law taken to JSON and back and compared, or a pair of different laws whose JSON was compared; distinct by content, non-trivial above 800 bytes of JSON",
    "P20" => "a call whose result was compared with that of the same call before, meanwhile on another thread, or in another process; non-trivial when another call came between or overlapped it",
    "P21" => "a workload of library calls during which the sizes of the files behind file descriptors 1 and 2 were compared; non-trivial when it made at least one judged call",
    "P22" => "a document or text of which one part was repeated, whose costs at two sizes were compared; a number whose cost was compared with that of small ones; or a series of calls over which the memory held was watched; non-trivial from 100 kB on, with branches or ranges, or always",
    _ => "",
  }
}

pub fn level(prop: &str) -> &'static str {
  match prop {
    "P07" => "fault_enumeration",
    _ => "exploration",
  }
}

pub fn assumptions(prop: &str) -> Vec<&'static str> {
  let mut v = vec!["the workload generators and reference implementations of the harness state the standard law schema and Japanese numbering correctly", "only the executions driven by the recorded seed were observed"];
  match prop {
    "P01" | "P02" | "P03" | "P04" | "P06" | "P19" => v.push("texts without carriage returns or control characters, not consisting of white space only; attribute values without line breaks or tabs"),
    "P05" | "P17" => v.push("a case that uses more than 60 s (120 s for P17) of processor time or 6 GB of memory counts as a hang or an exhaustion"),
    "P20" => v.push("interleavings are those the scheduler produced under oversubscription and injected yields; they are not enumerated"),
    "P21" => v.push("output through other channels than file descriptors 1 and 2 is not looked at"),
    "P22" => v.push("memory is what the calling thread asks of the allocator; time is processor time, judged above 0.3 s and at more than four times the proportional amount only"),
    _ => (),
  }
  v
}

/// how much more than the usual processor time one case may take
pub fn cpu_factor(prop: &str) -> f64 {
  match prop {
    "P17" => 2.0,
    _ => 1.0,
  }
}

pub fn probe(a: &[String]) -> i32 {
  match a.first().map(|s| s.as_str()) {
    Some("deep") => {
      xmlp::probe_deep(a[1].parse().unwrap_or(0));
      0
    }
    Some("p06") => {
      schemap::experiment(a[1].parse().unwrap());
      0
    }
    Some("p20") => purep::probe(&a[1..]),
    Some("p20s") => purep::probe_sanitized(&a[1..]),
    Some("race") => purep::probe_race(true),
    Some("norace") => purep::probe_race(false),
    _ => 2,
  }
}
