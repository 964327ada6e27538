#!/usr/bin/env python3
"""Rewrites the 'fixed' part of known_findings.jsonl from /repo's fix: commits (a maintenance tool, not run by checks)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # distinguishing words of the commit subject -> property
 "BitVector": "C22", "empty term vector": "C04", "closing a lock object": "C08", "locks of other processes": "C08",
 "release another holder": "C08", "refused the write lock": "C08", "recreated since": "C05", "opened on an empty index": "C05",
 "norms cached under": "C18", "acquire their write locks": "C08", "skip entry is for document 0": "C03", "from a value separator": "C02",
 "term vectors of a document in an index without": "C04", "adding readers to an index": "C17", "memory pool created": "C01",
 "compressed values longer": "C02", "untokenised value of exactly": "C03", "max_field_length": "C03", "merger's term buffer": "C03",
 "exhausted conjunction": "C11", "filtered queries survive": "C11", "need as many occurrences": "C12", "span enumerators": "C12", "leaves the query itself": "C12",
 "scanning a bit vector": "C22", "constant score scorers keep": "C11", "similarity of the original": "C11", "never return deleted": "C11",
 "used before undeleting": "C16", "unscored search": "C14", "explanations of": "C14", "coordination": "C14", "independently of the documents": "C14", "explaining an empty": "C14", "missing field raises": "C15", "text that is not a number": "C15", "get their sort keys": "C15",
 "a file name of their own": "C10", "begins like the segments": "C10", "share an extension": "C10", "incomplete segments file": "C07", "cut short before the fields": "C06", "keep the store locked": "C09",
 "an index exists when": "C21", "touching a file that": "C09", "keeps a copy of the name": "C21", "in a memory store replaces": "C21", "reading past the end": "C21", "fix: a new output replaces the file of that name": "C06", "a new output replaces": "C06", "leaves the last one": "C09", "deleted now is": "C10", "removes the commit it read": "C06",
 "keeps the commit it opened": "C06", "fall back to segments_0": "C06",
 "deleted-slot marker": "C23", "integer hash": "C23", "from an empty array": "C23", "removing an array element": "C23",
 "cannot be built leaves": "C19", "long query words": "C19", "put in lower case for tokenized": "C19", "alternative words are": "C19", "placeholder and an alternative": "C19", "default slop": "C19", "parser without tokenized": "C19", "cleaning a query": "C19", "boost of a group": "C19", "with a long prefix": "C19",
 "queries that are the same in all": "C17", "phrase without positions": "C24", "longer than an excerpt": "C24", "compacting no matches": "C24", "excerpts don't overlap": "C24", "ellipsis alone": "C24", "marks numbers only": "C24", "take in numbers only": "C13",
 "Index#to_s shows": "C25", "drops its searcher along": "C25", "Index#update works": "C25",
 "trailing slash is cut": "C20", "multi-byte scanner": "C20", "longer in lower case": "C20", "hyphen filter given": "C20", "hyphenated URL": "C20", "legacy tokenizers": "C20", "multi-mapper": "C20"}
old = [json.loads(l) for l in open(V + "/known_findings.jsonl") if l.strip()]
out = [o for o in old if o["kind"] != "fixed"]
extra = {}
f = V + "/tools/findings_map.json"
if os.path.exists(f): PROP.update(json.load(open(f)))
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "aec0b9f..HEAD"], text=True).split("\n"):
    if " fix: " not in l: continue
    h, s = l.split(" ", 1); s = s[5:]
    p = [v for k, v in PROP.items() if k in s]
    if not p: print("no property for", l); continue
    out.append({"property": p[0], "kind": "fixed", "commit": h, "what": "fixed: property=%s %s %s" % (p[0], h, s)})
open(V + "/known_findings.jsonl", "w").write("".join(json.dumps(o) + "\n" for o in out))
