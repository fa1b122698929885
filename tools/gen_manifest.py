#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
T={
"P01":("monitor: document -> law, online comparison with the generating structure","Every generated conforming document (all 134 element kinds, 121 attribute kinds, 696 parent-child pairs) is read by the real code and compared node by node with what it was made from. Trusts the harness's schema model. One known finding."),
"P02":("monitor: law -> document, comparison with an independent reference writer","Every written document is re-read by an XML reader of the harness's own and compared node by node with an independent reference writer over all public model types."),
"P03":("monitor: write/read histories, fixed point and equality checks","Histories of one to four write/read rounds through strings, buffers and files on laws from three sources; equality is the library's Eq plus a structural comparison."),
"P04":("monitor: metamorphic comparison of spellings","Each document is read in the plain spelling and in four others drawn from 17 lexical features alone and combined; laws must be equal."),
"P05":("monitor: panic, abort, hang and memory watch over hostile bytes","Worker processes with panic capture, processor-time watchdog and address-space limit read damaged, hostile, oversized and nested bytes, and use what comes out; overflow checks and debug assertions on. One known finding (stack overflow on extreme nesting)."),
"P06":("monitor: single-violation injection, error classification oracle","Exactly one schema violation is put into a conforming document that was first seen to be accepted; the error must be of the right kind and name the right attribute or element. Mandatory elements are those the model cannot do without."),
"P07":("monitor: fault-injecting writers and files, comparison with the in-memory result","Every write call of each document in 'every' is failed in turn; other plans draw short writes, interruptions and errors; files, pipes, directories and unreadable paths are read."),
"P08":("monitor: round trip and injectivity checks against an independent reader","All small shapes exhaustively, larger ones and strings drawn at random; refusals are checked against an independent grammar."),
"P09":("monitor: comparison with an independent renderer, read-back in every digit style","Small numbers exhaustively in all levels, larger ones at random; strings that an over-approximating grammar excludes must not be taken for a number."),
"P10":("monitor: comparison with an independent renderer, read-back in sixteen styles","Small numbers exhaustively in all styles, branches and ranges at random; roman numerals are read up to 399."),
"P11":("monitor: comparison with an independent traversal","Every list is compared with a traversal written independently over the public model."),
"P12":("monitor: comparison with an independent traversal","Every table of contents is compared with a traversal written independently over the public model."),
"P13":("monitor: comparison with an independent traversal and renderer","Every entry list is compared with a traversal written independently, all eleven item levels."),
"P14":("monitor: comparison with an independent renderer","Every rendering is compared with an independent renderer over all inline elements and cell contents."),
"P15":("monitor: conservation and order check over the lines of the text","Offline conservation oracle: the lines of the text against the texts of the law, for structured, shuffled and chaotic texts."),
"P16":("monitor: comparison of the law with the structure its text was made from","Texts are made from structures with every level and item style; the law must equal the structure. Excludes texts that are ambiguous by themselves (see DESIGN.md)."),
"P17":("monitor: panic, abort, hang and cost-growth watch over hostile texts","Worker processes with panic capture and processor-time watchdog; cost of texts of doubled length is compared for super-linear growth."),
"P18":("monitor: comparison with an independent calendar","All days around the era boundaries exhaustively, others at random; all metadata fields compared."),
"P19":("monitor: JSON round trip with Eq, Hash and structural comparison; distinguishing tweaks","Round trips through value trees and texts; single-field changes must change the JSON. Texts deeper than serde_json's 128 levels are checked as value trees only."),
"P20":("monitor: differential history, thread and process checks over recorded call logs; ThreadSanitizer, and Miri in the thorough tier","Results are compared with those of the same calls before, on up to eight overlapping threads and in fresh processes with other orders and environments; interleavings are observed, not enumerated."),
"P21":("monitor: bytes at file descriptors 1 and 2 around library calls","The workloads of the other monitors run with both descriptors bound to files whose sizes are compared around every case."),
"P22":("monitor: counting allocator and processor clock around calls at two sizes, memory held over windows of calls","One part of a document or text at a time (any element, text or attribute) is repeated to 30 times the size and the bytes allocated, the peak and the time of every call compared with proportion; memory held is followed over windows of calls with ever new arguments. Detects growth beyond three times proportion (time: four times) at these sizes."),
}
L={"P07":"fault_enumeration"}
m={"version":1,"setup_cmd":"bash check.sh setup","hooks":{"guard":"none","enable":"no hooks: the checks use the public interface of the crate only","source_commits":[]},
"checks":[{"property":p,"quick_cmd":f"bash check.sh {p} quick","thorough_cmd":f"bash check.sh {p} thorough","technique":t,"level":L.get(p,"exploration"),"level_note":n} for p,(t,n) in T.items()],
"not_applicable":[]}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1,ensure_ascii=False)
