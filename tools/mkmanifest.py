#!/usr/bin/env python3
"""Source of MANIFEST.json (python3 tools/mkmanifest.py > MANIFEST.json)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import checks

TRUST = " Trusts TLC, the Go toolchain and the projection of trees in harness/."
LEX = ("The lexer is specified in TLA+ as an automaton that reads one code point per step (spec/Lexer.tla). TLC enumerates every text over the alphabets of "
       "spec/LexFrames.tla up to their lengths that does not fail before its end, checks the automaton against direct statements of the rules (invariants), "
       "and every text, extended by all that the specification says must fail, goes to the real lexer. ")
UNI = "Every Unicode code point is put in the places of spec/UniEnum.tla. "
PDA = ("The parser is specified in TLA+ as a deterministic pushdown automaton over tokens (spec/Parser.tla). TLC enumerates every "
       "token sequence some program starts with, over the alphabets of spec/Frames.tla up to their lengths; each of them and every "
       "sequence that leaves the specification is given to the real parser, whose answer and tree must be the specified ones. "
       "Long random programs (TLC simulation of spec/ParserSim.tla), their beginnings, and the tokens that cannot stand in them go the same way. ")
FRONT = "spec/Front.tla joins both, character by character. "
NOTES = {
    "C01": LEX + UNI + FRONT, "C02": LEX + UNI + FRONT, "C03": LEX + UNI, "C04": LEX + UNI, "C05": LEX + UNI + FRONT + PDA,
    "C06": LEX + "Histories of reads and unreads (spec/Scanner.tla) are replayed on the real scanner; the locations of syntax errors are compared for all enumerated token sequences. " + PDA,
    "C07": "TLC enumerates histories of peek, scan and rescan on a queue of tokens (spec/TokQueue.tla), checks that it is a queue, and each is replayed on the real one. ",
    "C15": "spec/Bytes.tla enumerates byte sequences, whole and broken UTF-8, in all modes; spec/Pump.tla gives the answer for repetitions of small size and the law for any; the code is run up to 100,000 (thorough: a million) repetitions under limits of time, memory, stack and reads; spec/Judge.tla decides mutated programs. ",
    "C16": "spec/Fault.tla: a reader that fails after any character or ends; TLC enumerates texts and failures and gives the answer and its place; failing readers with sixteen kinds of errors are given to the parser, also failing when a character is read again and behind bufio. ",
    "C17": "spec/Isolation.tla: TLC enumerates schedules of two and three parsers with up to four switches at the granularity of reader calls, and histories of three parses; each is replayed with gated readers and compared with what a fresh process answers. Random programs are read from twelve kinds of readers, and in parallel under the race detector. ",
    "C18": "spec/Estree.tla states the forms of ESTree nodes; every distinct form of node that the code produced for the enumerated and random programs is judged by TLC. " + PDA,
    "C19": "spec/Cli.tla: the command as a machine that goes through its files; TLC enumerates lists of files of all kinds and the real command is run on each. ",
    "C20": "spec/Utf16.tla states both encodings; TLC checks the laws and enumerates strings; the code must give the same for these, for every code point, and for long repetitions. ",
    "C21": "spec/Web.tla: the page calls the function with arguments of all kinds; TLC enumerates the histories of calls and the real build is run on each in node. ",
    "C22": "spec/Errors.tla: what an error in layers says. TLC enumerates the layers, places and reasons, and the same errors are made with the project's types; the errors that enumerated and changed texts and failing readers gave are recorded and judged by TLC (spec/ErrorsCheck.tla). ",
}
checks_out = []
for pid in sorted(checks.CHECKS):
    c = checks.CHECKS[pid]
    checks_out.append(dict(property=pid, quick_cmd="bin/check %s quick" % pid, thorough_cmd="bin/check %s thorough" % pid,
                           technique=c.get("technique", "TLA+ specification checked with TLC, bound to the code by exhaustive bounded conformance"),
                           level=c.get("level", "model_checking"),
                           level_note=NOTES.get(pid, PDA) + TRUST))
props = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"))]
na = [dict(property=p, reason="check not built yet") for p in props if p not in checks.CHECKS]
print(json.dumps(dict(version=1, setup_cmd="bin/setup",
                      hooks=dict(guard="none", enable="no hooks: the checks use the exported interface only", source_commits=[]),
                      checks=checks_out, not_applicable=na,
                      notes="TLA+ with TLC; see DESIGN.md."), indent=1))
