#!/usr/bin/env python3
"""Writes /verif/known_findings.txt from /repo's fix commits and the list of known findings below."""
import subprocess,os,re
MAP=[ # (pattern of the commit subject, property)
("more than one root|elements after the body|within plain text|after the sentence of an amendment|right elements in errors|name the attribute|name the element and the attribute|unexpected or malformed elements within a title|mixture of Sentence|preamble or table row|malformed Remarks|Law without Num","P06"),
("every spelling","P04"),("pieces of text separated|XML comments","P04"),
("Article without any child|too large or malformed|do not panic","P05"),
("kansuji numbers|whole text of an article number|beginning of a word|paragraph range|branch numbers written","P09"),
("item|iroha|roman|letter","P10"),
("more than one range end|end of a number range","P08"),
("listed articles","P11"),("table of contents list|table of contents entry as such","P12"),
("sixth level subitem","P13"),("formulas, quotations","P14"),
("invalid date","P17"),("year of the era","P18"),("printing|debugging output|print","P21"),
("divisions directly|right level|supplementary provisions in a text|preamble from one|number and a text|letters within a list","P16"),
("blank lines|cannot be placed","P15"),
("empty text without pieces","P03"),
("Sup and Sub|Line without Style|line style","P01"),
]
SPECIAL={"write the required Num attribute of items":"P02","do not print debugging output when parsing an item number":"P21","read item letters that look like roman":"P16","do not split a line":"P16","return to the right level":"P16","end of a range of item":"P10","do not carry numbers over":"P12","store the article number of a table of contents":"P12","TOCPreambleLabel":"P02","include the text of a table in a sixth":"P13","not panic on numbers that are too large":"P17","write item letters":"P10","do not panic on an Article":"P05","Law without Num":"P06","write the end of a number range":"P08","report an invalid date":"P17"}
out=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s","484ed67.."],capture_output=True,text=True).stdout
L=["# Genuine defects. 'known' entries are reported as KNOWN-FINDING and do not fail a check; 'fixed' entries suppress nothing.",
"known: property=P01 sig=known:amend-provision-second-sentence an AmendProvisionSentence with more than one Sentence (the schema allows any number) keeps only the first; the public field AmendProvision::sentence is an Option, so a repair changes the public model",
"known: property=P05 sig=known:deep-nesting a document nested tens of thousands of elements deep (one chain of elements, no other input) overflows the stack of the recursive XML reader (xmltree) and aborts the process"]
for l in out.splitlines():
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    s=s[5:]
    p=None
    for k,v in SPECIAL.items():
        if k in s: p=v
    if not p:
        for k,v in MAP:
            if re.search(k,s): p=v; break
    L.append(f"fixed: property={p or 'P02'} {h} before: did not {s}" if False else f"fixed: property={p or 'P02'} {h} {s}")
open("/verif/known_findings.txt","w").write("\n".join(L)+"\n")
