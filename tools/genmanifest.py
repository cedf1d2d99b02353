#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks that exist and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("ASan+UBSan (memory filled with patterns) and, for uninitialised values, Valgrind Memcheck over generated, mutated, truncated and hostile files; watchdog for hangs",
         "every parser, printer and re-serialiser is run on each input; only the sampled inputs are decided"),
 "C02": ("differential monitor: decoded tag facts against an independent model of the ID3v2 formats",
         "generated well-formed tags over all versions, layouts, frame kinds and encodings"),
 "C03": ("round-trip monitor: sizes and bytes written, re-read by scribbu and by an independent parser",
         "parsed, built and edited tags, both unsynchronisation choices, repeated writes"),
 "C04": ("monitor on written bytes: no false sync, exact inverse, needs-unsynchronisation agrees with the plain bytes",
         "all short strings over the critical alphabet for frames; generated tags dense in sync bytes"),
 "C05": ("differential monitor against Python codecs for every encoding pair and policy",
         "generated text of every script and length around buffer boundaries"),
 "C06": ("model-based stateful testing against an ordered-list model, under ASan+UBSan",
         "random edit histories; every lookup compared after every step"),
 "C07": ("stateful monitor: copies compared for equality and independence, under ASan+UBSan",
         "copies of generated tags and frames, then random mutation of either side"),
 "C08": ("file-level differential monitor: every rewritten file compared byte for byte with a model",
         "generated files and tagsets, all strategies"),
 "C09": ("directory-snapshot monitor over rewrite histories", "random histories of rewrites with backups, varied path spellings"),
 "C10": ("fault injection: every file-system call of a rewrite is failed, cut short or turned into a kill, one at a time; outcome monitored",
         "exhaustive over the calls each generated rewrite makes"),
 "C11": ("differential monitor against a byte-exact ID3v1 model", "generated tags, files and edit sequences"),
 "C12": ("differential monitor: size and MD5 recomputed independently; split pieces compared", "generated and hostile files"),
 "C13": ("differential monitor against an independent MPEG frame walker", "all version/bit rate/sampling rate/mode combinations and generated streams"),
 "C14": ("differential monitor against an independent template evaluator", "generated templates x generated files"),
 "C15": ("directory-snapshot monitor over rename runs", "generated file sets with colliding names"),
 "C16": ("differential monitor against a model of popm", "generated files and option combinations"),
 "C17": ("differential monitor against a model of text", "generated files and option combinations"),
 "C18": ("differential monitor against a model of genre and a reference edit distance", "generated files, names near and far from genres"),
 "C19": ("differential monitor against a model of tag clouds", "generated clouds, files and option combinations"),
 "C20": ("before/after snapshot monitor of the whole scratch tree", "all query commands and dry runs, valid and failing"),
 "C21": ("reports parsed by a standard CSV parser and compared with a model", "generated files with hostile text"),
 "C22": ("output parsed by a standard JSON parser and compared with a model", "generated tags"),
 "C23": ("round-trip monitor through the real Guile binding", "generated files and edits"),
 "C24": ("ThreadSanitizer plus per-thread result comparison", "mixed workloads on distinct objects, several thread counts"),
 "C25": ("differential monitor against a model of m3u", "generated files, modes and paths"),
 "C26": ("stream-state monitor over random probe/read sequences", "generated streams, exception masks and positions"),
 "C27": ("visits recorded in the real Guile binding compared with the tree", "generated trees and files"),
 "C28": ("output compared line by line with a model of the dump", "generated files, tags of all versions and option combinations"),
 "C29": ("decoded headers compared with an independent decoder, under ASan+UBSan", "every combination of the second and third header byte; generated VBR headers and streams"),
 "C30": ("names printed, read back and compared with independent tables, under ASan+UBSan", "every encoding, language, two-letter code, text frame and policy; generated other strings"),
 "C31": ("arguments and statuses recorded by scripts and stand-ins compared with the command line, under ASan+UBSan", "generated command lines of the real program in processes of its own"),
 "C32": ("encodings recorded by a stand-in encoder and the files left compared with the list, under ASan+UBSan", "generated lists and options given to the real script and program"),
 "C33": ("texts displayed and slots held compared with a model of each object's values, step by step", "generated objects, changes and files through the real module in Guile"),
 "C34": ("AddressSanitizer's count of live bytes and the table of open descriptors, read after each of several repetitions of the same work", "generated files (valid, damaged, missing), editing histories, failing requests, whole sub-commands and Scheme procedures, each repeated in one process"),
}
LEVEL = {"C10": "fault_enumeration"}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if not os.path.exists(os.path.join(V, f)):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    checks.append({"property": i, "quick_cmd": "python3 " + f, "thorough_cmd": "VERIF_TIER=thorough python3 " + f,
                   "evidence_file": "evidence/%s.json" % i, "technique": T[i][0],
                   "level": LEVEL.get(i, "exploration"), "level_note": T[i][1]})
m = {"version": 1, "setup_cmd": "python3 lib/builder.py", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. No hooks are needed in /repo; every change there is a fix: commit, listed in known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
