"""What each check runs."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from engine import ToolError, gobuild, BUILD, REPO, VERIF

ENUM_CFG = """SPECIFICATION Spec
INVARIANT Emit
VIEW View"""


def tla_seq(xs):
    return "<<" + ", ".join(json.dumps(x) for x in xs) + ">>"


def printed(out):
    """What the specification printed."""
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"'):
                yield json.loads(json.loads(line))


def total(run, r, keys, what=""):
    """Add up what a stage of the harness did; none of it is no answer."""
    c = r["counts"]
    n = sum(c.get(k, 0) for k in keys)
    if n == 0 and not run.violations:
        raise ToolError("a stage looked at nothing (%s)" % what)
    run.cases += n
    for k, v in c.items():
        run.coverage[k] = run.coverage.get(k, 0) + v
    for s in r.get("samples") or []:
        run.sample(s)


def enum(run, frames, loc=False, name="enum", module="ParserEnum"):
    """Every text over the alphabets of the frames of spec/Frames.tla, or
    spec/Front.tla."""
    out = run.tlc(name, module, {"Names": tla_seq(frames), "Deep": "TRUE" if run.deep else "FALSE"}, ENUM_CFG)
    r = run.harness(name, "enum", ["-in", out] + (["-loc"] if loc else []))
    os.unlink(out)
    run.coverage.setdefault("frames", []).extend(r.get("frames") or [])
    run.coverage["exhaustive"] = True
    total(run, r, ("accepted", "rejected"), name)


def front(run, frames, name="front"):
    enum(run, frames, name=name, module="FrontEnum")


def edits(run, corpora, loc=False, name="edits"):
    """Every small change to the programs of spec/Corpus.tla."""
    out = run.tlc(name, "Edits", {"Names": tla_seq(corpora), "Deep": "TRUE" if run.deep else "FALSE"}, ENUM_CFG)
    r = run.harness(name, "edits", ["-in", out] + (["-loc"] if loc else []))
    os.unlink(out)
    run.coverage.setdefault("changed_programs_of_corpora", []).extend(r.get("frames") or [])
    total(run, r, ("accepted", "rejected"), name)


def charedits(run, parts, changes, name="charedits"):
    """Every change of a text of spec/FrontEdits.tla by a character, or of two."""
    out = run.tlc(name, "FrontEdits", {"Names": tla_seq(parts), "Changes": json.dumps(changes)}, ENUM_CFG)
    r = run.harness(name, "charedits", ["-in", out])
    os.unlink(out)
    run.coverage.setdefault("texts_changed_by_%s" % {"one": "one_character", "wide": "one_character_of_more", "pairs": "two_characters", "more": "two_characters_of_more"}[changes], []).extend(r.get("frames") or [])
    total(run, r, ("accepted", "rejected"), name)


def pieces(run, parts):
    """Two changes, thoroughly also with larger vocabularies."""
    charedits(run, parts, "pairs" if not run.deep else "more")


def lex(run, frames, invariants=(), name="lex"):
    """Every text over the alphabets of the frames of spec/LexFrames.tla."""
    out = run.tlc(name, "LexEnum", {"Names": tla_seq(frames), "Deep": "TRUE" if run.deep else "FALSE"},
                  "SPECIFICATION Spec\nINVARIANTS Emit %s\nVIEW View" % " ".join(invariants))
    r = run.harness(name, "lex", ["-in", out])
    os.unlink(out)
    run.coverage.setdefault("lexer_frames", []).extend(frames)
    run.coverage.setdefault("invariants_of_the_specification", [])
    run.coverage["invariants_of_the_specification"] = sorted(set(run.coverage["invariants_of_the_specification"]) | set(invariants))
    run.coverage["exhaustive"] = True
    total(run, r, ("accepted", "rejected"), name)


LENGTHS = [1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]


def long(run, frames, name="long"):
    """Tokens, gaps and lines of spec/LexLong.tla of many lengths."""
    out = run.tlc(name, "LexLong", {"Names": tla_seq(frames), "Lengths": "<<%s>>" % ", ".join(map(str, LENGTHS))}, "SPECIFICATION Spec\nINVARIANT Emit\nVIEW View")
    r = run.harness(name, "lex", ["-in", out, "-far", "70000" if not run.deep else "1100000"])
    os.unlink(out)
    run.coverage.setdefault("long_tokens", []).extend(frames)
    run.coverage["lengths"] = LENGTHS
    total(run, r, ("accepted", "rejected"), name)


def lexsim(run, frames, num=None, name="lexsim"):
    """Long random texts over the alphabets of the frames."""
    out = run.tlc(name, "LexSim", {"Names": tla_seq(frames), "Deep": "TRUE" if run.deep else "FALSE"},
                  "SPECIFICATION SimSpec\nINVARIANTS SimEmit", simulate=("num=%d" % (num or (200 * len(frames) if not run.deep else 3000 * len(frames))), 500))
    r = run.harness(name, "lex", ["-in", out])
    os.unlink(out)
    run.coverage.setdefault("lexer_frames", []).extend(frames)
    total(run, r, ("accepted", "rejected"), name)


def uni(run, places, name="uni"):
    """Every code point in the places of spec/UniEnum.tla."""
    out = run.tlc(name, "UniEnum", {"Places": "{" + ", ".join('"%s"' % p for p in places) + "}"},
                  "SPECIFICATION Spec\nINVARIANTS Emit Alike Total")
    r = run.harness(name, "uni", ["-in", out])
    os.unlink(out)
    run.coverage.setdefault("places_of_every_code_point", []).extend(places)
    total(run, r, ("code points placed",), name)


CLOSING = ["a", ")", "]", "}", ":", "{", ";", "while", "catch", "=>", "from", "'m'", "in", "of", "=", "as", ",", "1", "(", ".", "new"]
IDS = ["a", "b", "c", "x", "y"]
OPERAND = IDS + ["a", "b", "1", "'s'", "this", "null", "true", "0x1F", "1.5", "\"b\\\"\""]
BRACKETS = ["(", ")", "[", "]", "{", "}"]
EXPRESSION = OPERAND * 2 + BRACKETS * 3 + [",", ".", "?", ":", "=", "=>", "new", "function", "class", "/b/g"]
STATEMENT = (OPERAND + BRACKETS * 2 + [";"] * 6 + [",", ":", "=", "=>"] +
             ["if", "else", "for", "in", "of", "while", "do", "break", "continue", "return", "throw", "try", "catch", "finally",
              "switch", "case", "default", "var", "let", "const", "function", "class", "extends", "static", "get", "set", "async", "*", "..."])


def theme(al, words=True, punct=True, mode="script", pre=(), nl=8, extra="<<>>"):
    a = tla_seq(al)
    if words:
        a += " \\o AllWords"
    if punct:
        a += " \\o AllPunct"
    return dict(al=a, mode=mode, pre=pre, nl=nl)


EXPR_WALKS = [theme(EXPRESSION * 2, words=False), theme(EXPRESSION * 2, words=False, mode="expression"),
              theme(EXPRESSION * 2, mode="module", nl=0), theme(EXPRESSION, mode="expression", nl=20)]
STMT_WALKS = [theme(STATEMENT, words=False, punct=False, nl=20), theme(STATEMENT, words=False), theme(STATEMENT * 2, mode="module"),
              theme(STATEMENT, words=False, punct=False, pre=("function", "a", "(", ")", "{"), nl=0)]
ANY_WALKS = [theme(STATEMENT + EXPRESSION), theme(STATEMENT, mode="module"), theme(EXPRESSION, mode="expression"),
             theme(STATEMENT, words=False, nl=3)]
ASI_WALKS = [theme(STATEMENT + ["++", "--", "/b/g"] * 3, words=False, punct=False, nl=2), theme(STATEMENT + EXPRESSION + ["++", "--"], words=False, nl=3),
             theme(STATEMENT * 2, mode="module", nl=2), theme(EXPRESSION + ["++", "--", "/", "async"] * 2, words=False, nl=2, pre=("class", "a", "{", "a", "(", ")", "{"))]
WORD_WALKS = [theme(STATEMENT + ["'use strict'"] * 3), theme(STATEMENT, mode="module"), theme(STATEMENT, pre=("a", "(", "function", "*", "(", ")", "{")),
              theme(STATEMENT, pre=("a", "=", "async", "(", "a", ")", "=>", "{")), theme(BRACKETS + ["class", "extends", "{", "}", "(", ")", "static", "function", "=>"], punct=False),
              theme(STATEMENT, pre=("'use strict'", ";"))]
ARROW_WALKS = [theme(["(", ")", "=>"] * 6 + BRACKETS * 2 + OPERAND + [",", "=", "...", "async", ":", "{", "}"] * 2, words=False, punct=False, nl=20),
               theme(["(", ")", "=>"] * 8 + EXPRESSION + ["async", "..."] * 3, words=False),
               theme(["(", ")", "=>", "async"] * 8 + EXPRESSION, mode="expression"), theme(["(", ")", "=>", "async"] * 6 + STATEMENT, words=False, nl=5)]
IMPORT_WALKS = [theme(["import", "from", "'m'", "as", "*", "{", "}", ",", ";"] * 4 + STATEMENT, mode="module", words=False, punct=False, nl=5),
                theme(["import", "from", "'m'", "as", "*", "{", "}", ",", ";"] * 3, mode="module", punct=False, nl=20)]
SLASH_WALKS = [theme(["/b/g"] * 12 + EXPRESSION + ["++", "--"], words=False), theme(["/b/g"] * 12 + STATEMENT, words=False, nl=4),
               theme(["/b/g"] * 20 + STATEMENT, mode="module"), theme(["/b/g"] * 12 + EXPRESSION, mode="expression")]


def sim(run, themes, name, num, maxlen=None):
    def one(i):
        t = themes[i]
        return run.tlc("%s%d" % (name, i), "ParserSim",
                       {"Mode": '"%s"' % t["mode"], "Pre": tla_seq(t["pre"]), "Alphabet": t["al"], "Closing": tla_seq(CLOSING),
                        "MaxLen": str(maxlen) if maxlen else "60" if not run.deep else "160", "MaxDepth": "40" if not run.deep else "70", "Candidates": "10", "NlOdds": str(t["nl"])},
                       "SPECIFICATION Spec\nINVARIANTS Emit", simulate=("num=%d" % num, 300 if not run.deep else 900), workers=1, heap="3g", seed=run.seed + 100 * i)
    with ThreadPoolExecutor(6) as ex:
        return list(ex.map(one, range(len(themes))))


def walks(run, themes, loc=False, gaps=1, onlygaps=False, name="walk", num=None):
    """Long random programs (spec/ParserSim.tla), one TLC for each theme."""
    num = num or (300 if not run.deep else 6000)

    outs = sim(run, themes, name, num)
    r = run.harness(name, "walk", ["-in", ",".join(outs), "-gaps", str(gaps), "-seed", str(run.seed)] + (["-loc"] if loc else []) + (["-onlygaps"] if onlygaps else []))
    for o in outs:
        os.unlink(o)
    run.coverage["longest_random_program"] = r.get("longest")
    total(run, r, ("programs", "beginnings", "impossible", "gapped"), name)


EXPR = ["binary", "prec", "assignops", "unary", "postfix", "condexpr", "calls", "literals", "object", "objmethod",
        "litkey", "litops",
        "array", "fnexpr", "exprany", "arrowop", "heritage", "classctor"]
SLASH = ["slashes", "slashstmt", "slashfn", "arrowend", "arrowtail"]
ARROW = ["arrow", "arrow2", "arrowbody", "arrowend", "arrowop", "arrowtail", "arrowtern", "asyncarr", "asyncarr2",
         "asyncbody", "parendest", "defaults", "asyncstmt"]
STMT = ["vars", "patterns", "patterns2", "ifelse", "ifbody", "loops", "dobody", "forhead", "forvar", "forexpr", "forin",
        "jumps", "returns", "trycatch", "switch", "labels", "throws", "fndecl", "params", "directive", "dirfn", "letstmt",
        "asyncstmt", "classes", "litclass", "classctor", "classstmt"]
ANY = ["stmtany", "fnany", "modany", "exprany", "exprstmt", "impscript"]
ASI = ["asi", "asi2", "asikw", "asido", "asifor", "asifn", "asiwords", "asiafter", "returns", "throws", "jumps",
       "directive", "letstmt", "asyncstmt", "dobody", "classstmt", "modstmts", "loops"]
WORDS = ["wvar", "wvars", "wvarm", "wexpr", "wexprs", "wexprm", "wexprg", "wexpra", "wexprin", "wexprin2", "wexprout",
         "wstricto", "wclass", "wclassin", "wclassout", "wclassexp", "wfn", "wfng", "wfna", "wfns", "wparam", "wparamr",
         "wparamg", "wparama", "wlabel", "wlabels", "wbreak", "wcont", "wcatch", "wmember", "wmembers", "wprop", "wshort",
         "wshorts", "wshortg", "wmethod", "wgetter", "wpattern", "wpatkey", "wpatval", "wpatarr", "wpatarrs", "warrow",
         "warrowp", "warrowps", "warrowa", "warrowap", "warrowr", "warrowo", "wassign", "wassigns", "wlet", "wconst",
         "wclsmeth", "wclsstat", "wimport", "wimpns", "wimpspec", "wimpas", "wimpas2", "directive", "dirfn", "labels",
         "stmtany", "fnany", "modany"]
IMPORT = ["imports", "imports2", "modstmts", "impscript", "wimport", "wimpns", "wimpspec", "wimpas", "wimpas2", "modany"]


SELF = ("Ordered", "Positions", "NewLines", "Gaps", "Longest", "Words", "Numbers", "Strings")


def c01(run):
    lex(run, ["ascii", "asciire", "low", "punct", "punct2", "punct3", "words", "wordpre", "ident", "comment"],
        ("Ordered", "Gaps", "Longest", "Words") if not run.deep else SELF)
    uni(run, ["alone", "after", "inside", "between", "priv", "privafter", "num", "punct", "block", "line"])
    front(run, ["fglue", "fglue2"])
    pieces(run, ["names", "puncts"])
    long(run, ["name", "onlyname", "keyname", "uniname", "private", "tokens", "punct", "pieces", "string", "regex", "digits"])
    lexsim(run, ["simword", "simpunct", "simany"])


def c02(run):
    lex(run, ["gaps", "gaps2", "comment", "block"], ("Ordered", "NewLines", "Gaps") if not run.deep else SELF)
    uni(run, ["between", "block", "star", "line"])
    front(run, ["fgaps", "fgaps2", "fline"])
    walks(run, STMT_WALKS[:2] + EXPR_WALKS[:1] + ASI_WALKS[:2] + IMPORT_WALKS[:1], gaps=30, onlygaps=True)
    pieces(run, ["gaps"])
    long(run, ["block", "stars", "blockln", "line", "lineend", "blanks", "wide", "lines", "crlfs", "crs", "seps", "pieces", "comments"])
    lexsim(run, ["simgap", "simany"])


def c03(run):
    lex(run, ["num", "numexp", "numhex", "numHEX", "numoct", "numOCT", "numbin", "numBIN", "numleg", "numtail", "numbig"],
        ("Ordered", "Numbers") if not run.deep else SELF)
    uni(run, ["num"])
    front(run, ["fglue", "fglue2"])
    pieces(run, ["numbers"])
    long(run, ["digits", "grouped", "fraction", "exponent", "hex", "octal", "binary", "legacy", "onlynum"])
    lexsim(run, ["simdec", "simfrac", "simhex", "simoct", "simbin"])


def c04(run):
    lex(run, ["str", "strin"], SELF)
    uni(run, ["str", "strtwo", "stresc"])
    pieces(run, ["strings"])
    long(run, ["string", "escapes", "quoted", "linecont", "contcrlf", "strlines", "unended", "onlystr"])
    lexsim(run, ["simstr"])


def c05(run):
    far(run, EXPR_FAR, ["a/b/g", "/b/g", "(a)/b/g", "[]/b/g", "a++/b/g", "/[/]/.a/b", "{}/b/g", "a/=b/g"], "farexpr")
    far(run, STMT_FAR, ["/b/g", "a\n/b/g", "{}/b/g", "if(a)/b/g", "a=>{}\n/b/g", "a:/b/g", "x={}/b/g", "+{}/b/g", "return/b/g"], "farstmt")
    lex(run, ["regex", "reclass", "reflags", "asciire"], ("Ordered", "Gaps"))
    uni(run, ["regex", "reclass", "reesc", "flags", "flagsin"])
    front(run, ["fslash", "fslash2", "fafter", "fstmt", "fexpr", "fbody", "fline", "fregex", "fend"])
    enum(run, SLASH)
    walks(run, SLASH_WALKS)
    judged(run, SLASH_WALKS)
    pieces(run, ["regexes", "exregexes"])
    long(run, ["regex", "class", "reesc", "flags"])
    lexsim(run, ["simre", "simany"])


TEXTS = """
Texts0 == <<Codes("a b;c "), <<LF>> \\o Codes("a") \\o <<LF, LF>> \\o Codes("b"), Codes("a/b/c"),
  Codes("x = /=a[/]\\\\/b/g") \\o <<CR, LF>> \\o Codes(".c"), <<>>, Codes("/* ") \\o <<8232>> \\o Codes("*/ a 1 's' #p"),
  Codes("a 'b"), Codes("if(a){}"), <<CR, LF>> \\o Codes("a // x") \\o <<LF>>, Codes("/a"), Codes("b 1a"),
  <<LF>> \\o Codes("/") \\o Codes("a/") \\o <<LF>> \\o Codes("b/g"), Codes("a=>b") \\o <<LF>>, Codes("a /*")>>
"""

# Long texts of pieces, each piece of a text chosen by its place.
LONG_TEXTS = r"""
Pieces == Strs(<<"a ", "b;", "/", "1 ", "'s'", "/* x */", "=", "(", ")", ".c ", "// x\n", "++", "in ", "/b/g ", "#p ", "...", "{", "}", "0x1F,", "\n", "aVeryLongNameOfSomethingThatGoesOnAndOn ">>)
  \o <<<<CR, LF>>, <<8232>>, <<233>>, <<32, 119987, 32>>, Codes("/*") \o <<LF>> \o Codes("*/")>>
LongTexts == TLCEval([i \in 1..40 |-> Cat([j \in 1..(20 + 3 * i) |-> Pieces[1 + ((i * i * 31 + j * j * (16 + i) + i * j * 7 + (j \div 7)) % Len(Pieces))]])])
"""


def c06(run):
    far(run, EXPR_FAR + [("script", "f(", "a,\n", "%s", ",b", ")"), ("script", "", "a\r\n", "x=%s", "\u2028b", ""), ("script", "/*", "\u00e9", "*/a(%s)", "", "")], BAD_EXPR, "farexpr", where=True)
    far(run, STMT_FAR + [("script", "", "a;\r", "%s", "", ""), ("script", "", "//\U0001d4d0\u2029", "{%s", "}", "")], BAD_STMT, "farstmt", where=True)
    lex(run, ["pos", "gaps", "str", "comment", "numtail", "regex"], ("Ordered", "Positions"))
    out = run.tlc("scanner", "Scanner", {"Alphabet": "{97, 10, 13, 8232, 119987}", "MaxText": "4" if not run.deep else "5", "MaxOps": "9" if not run.deep else "11"},
                  "SPECIFICATION Spec\nINVARIANTS Emit Restores\nVIEW View")
    r = run.harness("scanner", "scanner", ["-in", out])
    os.unlink(out)
    total(run, r, ("histories",), "scanner")
    out = run.tlc("scannersim", "ScannerSim", {"Alphabet": "{10, 13, 32, 8232, 8233, 119987, 233, 133}", "MaxText": "700", "MaxOps": "1200"},
                  "SPECIFICATION SimSpec\nINVARIANTS Emit", simulate=("num=%d" % (10 if not run.deep else 300), 1300))
    r = run.harness("scannersim", "scanner", ["-in", out])
    os.unlink(out)
    total(run, r, ("histories",), "scannersim")
    enum(run, ANY + ["forhead", "asi", "imports", "classes", "trycatch", "params", "arrow", "object", "patterns", "dirfn"], loc=True)
    walks(run, ANY_WALKS + STMT_WALKS[1:2] + IMPORT_WALKS[1:], loc=True)
    edits(run, ["params", "declared", "imports", "wordmods", "lines"], loc=True)
    long(run, ["tokens", "punct", "rows", "lines", "crlfs", "crs", "seps", "blockln", "linecont", "contcrlf", "strlines", "uniname", "wide", "unended", "string"])
    lexsim(run, ["simany", "simgap", "simstr", "simre"])


def c07(run):
    out = run.tlc("queue", "TokQueue", {"Texts": "Texts0", "MaxPeek": "3" if not run.deep else "5", "MaxOps": "6" if not run.deep else "7"},
                  "SPECIFICATION Spec\nINVARIANTS Emit Prefix\nVIEW View", defs=TEXTS)
    r = run.harness("queue", "queue", ["-in", out])
    os.unlink(out)
    total(run, r, ("histories",), "queue")
    # Histories of hundreds of operations.
    def one(i):
        return run.tlc("long%d" % i, "QueueSim", {"Texts": "LongTexts", "MaxPeek": "60", "MaxOps": "200" if not run.deep else "400"},
                       "SPECIFICATION SimSpec\nINVARIANTS Emit Prefix", simulate=("num=%d" % (60 if not run.deep else 2000), 500), workers=1, heap="2g", defs=LONG_TEXTS, seed=run.seed + 100 * i)
    with ThreadPoolExecutor(6) as ex:
        for i, out in enumerate(ex.map(one, range(6))):
            total(run, run.harness("long%d" % i, "queue", ["-in", out]), ("histories", "operations"), "long")
            os.unlink(out)


def c08(run):
    far(run, EXPR_FAR, ["a*b+c", "-a**b", "a??b||c", "a<b===c", "new a.b(c).d", "a?b:c", "a=b=c", "a**b**c", "typeof a--", "a in b", "{a,[b]:c,get d(){},1:e}", "[,a,,]", "function(){}", "class{}", "a,b", "1..a", "-1", "a+=b", "f(...a)", "a&b|c^d", "null"])
    enum(run, EXPR)
    walks(run, EXPR_WALKS)
    judged(run, EXPR_WALKS)
    named(run, lambda p: p[0] != "module")
    edits(run, ["exprs"])
    charedits(run, ["xexprs"], "one" if not run.deep else "wide")


def c09(run):
    far(run, STMT_FAR, ["if(a)b;else c", "for(var a in b);", "for(;;){}", "do;while(a)", "switch(a){default:}", "try{}catch{}", "a:b", "var a,{b}=c", "let a=b", "const a=b", "class A{}", "function f(){}", "{}", ";", "throw a", "return a", "break", "continue", "a", "'b'", "while(a)b", "let[a]=b", "for(a of b)c"])
    enum(run, STMT)
    walks(run, STMT_WALKS)
    judged(run, STMT_WALKS)
    named(run)
    edits(run, ["stmts"])
    charedits(run, ["xstmts"], "one" if not run.deep else "wide")


def c10(run):
    far(run, EXPR_FAR, BAD_EXPR, "farexpr")
    far(run, STMT_FAR, BAD_STMT, "farstmt")
    enum(run, ANY + EXPR + STMT)
    walks(run, ANY_WALKS)
    judged(run, ANY_WALKS)
    edits(run, ["declared", "modlines", "impscript"])
    charedits(run, ["gaps", "names", "strings", "numbers", "regexes", "exregexes", "puncts"], "one")


def c11(run):
    far(run, STMT_FAR, ["a\nb", "a b", "a\n++b", "a\n++\nb", "return\na", "return a\nb", "throw\na", "throw a\nb", "do;while(a)b", "do a\nwhile(b)c", "do a while(b)", "a\n(b)", "break\na", "continue\na", "var a\nb", "var a b", "let\na", "async\nfunction f(){}", "async\na", "for(a\nb;c)d", "if(a)\nelse b", "if(a)b\nelse c", "{a b}", "{a\nb}", "a=>{}\n(b)", "a\n=>b", "'a'\n'b'", "'a'\n+b", "a/*\n*/b", "a/**/b", "x={}\n[b]", "get\na"])
    enum(run, ASI)
    walks(run, ASI_WALKS)
    judged(run, ASI_WALKS)
    edits(run, ["lines", "modlines"])
    charedits(run, ["xlines"], "one" if not run.deep else "wide")


def c12(run):
    words = ["let", "static", "yield", "await", "async", "implements", "interface", "enum", "of", "get", "this", "with"]
    far(run, STMT_FAR, ["%s=1" % w for w in words] + ["var %s" % w for w in words[:9]] + ["%s:a" % w for w in words[:8]] + ["'use strict';let=1", "'use strict'\nfunction f(){static}", "'use\\x20strict';let=1", "('use strict');let=1", "'use strict',1;let=1"], "farstmt")
    far(run, EXPR_FAR, words + ["a.%s" % w for w in ("if", "let", "enum")] + ["{%s}" % w for w in ("let", "static", "yield", "if")] + ["%s=>a" % w for w in ("let", "await", "async")] + ["function %s(){}" % w for w in ("static", "yield", "enum", "let")], "farexpr")
    enum(run, WORDS)
    walks(run, WORD_WALKS)
    judged(run, WORD_WALKS[:4])
    edits(run, ["wordtexts", "wordmods"])
    charedits(run, ["xwords"], "one" if not run.deep else "wide")


def c13(run):
    far(run, EXPR_FAR, ["a=>b", "(a,b)=>c", "()=>a", "({a=1})=>b", "([a,...b])=>c", "(a,...b)=>c", "(...a,b)=>c", "(a,)=>b", "async(a)=>b", "async a=>b", "(a=b,{c:[d]})=>{}", "({a})=>{}", "(a.b)=>c", "((a))=>b", "({a=1})", "(a,...b)", "(a,)", "()", "a=>{}", "(a)\n=>b", "([a.b])=>c", "({a:1})=>b", "(a=>b)=>c", "async({a=1})", "async(...a)"])
    enum(run, ARROW)
    walks(run, ARROW_WALKS)
    judged(run, ARROW_WALKS)
    named(run, lambda p: any("=>" in s for s in p))
    edits(run, ["params", "declared"])


def c14(run):
    far(run, [p for p in STMT_FAR + [("module", "", "a;", "%s", "", ""), ("module", "", "import a from'm';", "%s", "import b from'n';", ""), ("module", "", "import'm'\n", "%s", "", ""), ("module", "a\n", "b\n", "%s", "\nc", "")]], ["import'm'", "import a from'm'", "import{}from'm'", "import{a as b,}from'm'", "import*as a from'm'", "import a,{b}from'm'", "import a,*as b from'm'", "import a,b from'm'", "import{a}", "import a from b", "import{if}from'm'", "import{if as b}from'm'", "import*from'm'", "import\na\nfrom\n'm'\nb", "import a from'm'b", "import{default}from'm'"])
    enum(run, IMPORT)
    walks(run, IMPORT_WALKS)
    judged(run, IMPORT_WALKS)
    named(run, lambda p: p[0] == "module")
    front(run, ["fmod"])
    edits(run, ["imports", "modlines", "impscript", "wordmods"])
    charedits(run, ["ximports", "impscript"], "one" if not run.deep else "wide")


def c16(run):
    out = run.tlc("fault", "Fault", {"Names": tla_seq(["fline", "fgaps", "fgaps2", "fglue", "fglue2", "fmod", "fregex", "fend", "fexpr", "fstmt", "fslash", "fslash2", "fafter", "fbody"]), "Deep": "TRUE" if run.deep else "FALSE"},
                  "SPECIFICATION Spec\nINVARIANTS Emit OnlyFailures Decided Answered Begins\nVIEW View")
    r = run.harness("fault", "fault", ["-in", out])
    os.unlink(out)
    run.coverage["exhaustive"] = True
    total(run, r, ("failures", "ends", "failures of buffered readers", "failures of a second reading", "characters not taken back", "failures that may go unnoticed"), "fault")
    outs = sim(run, ANY_WALKS + IMPORT_WALKS[:1] + SLASH_WALKS[:1], "sim", 150 if not run.deep else 2500)
    r = run.harness("faultwalk", "faultwalk", ["-in", ",".join(outs), "-seed", str(run.seed)])
    for o in outs:
        os.unlink(o)
    total(run, r, ("failures", "ends", "characters not taken back"), "faultwalk")
    out = repeated(run, "pumps", PUMPS[:PUMPS.index(PUMPS_BAD)], 4)
    r = run.harness("faultpump", "faultpump", ["-in", out, "-seed", str(run.seed)])
    os.unlink(out)
    total(run, r, ("failures", "long texts", "failures of buffered readers"), "faultpump")


def repeated(run, name, pumps, n, module="Pump", invs="Emit Steady Grows"):
    codes = lambda s: "<<%s>>" % ", ".join(str(ord(c)) for c in s)
    lit = ", ".join('[mode |-> "%s", pre |-> %s, x |-> %s, mid |-> %s, y |-> %s, post |-> %s]' % ((p[0],) + tuple(codes(s) for s in p[1:])) for p in pumps)
    return run.tlc(name, module, {"Pumps": "PumpList", "MaxN": str(n)}, "SPECIFICATION Spec\nINVARIANTS %s\nVIEW View" % invs, defs="PumpList == <<%s>>" % lit)


PUMPS_BAD = ("script", "", "(", "", "", "")
PUMPS = [
    # mode, before, repeated, between, repeated, behind: brackets and what else nests
    ("script", "", "(", "a", ")", ""), ("expression", "", "[", "", "]", ""), ("script", "", "{", "", "}", ""), ("script", "a=[", "[1,", "", "]", "]"), ("expression", "", "{a:", "1", "}", ""),
    ("script", "", "(function(){", "", "})", ""), ("script", "", "()=>", "a", "", ""), ("script", "", "a?b:", "a", "", ""), ("script", "", "a?", "b", ":c", ""), ("script", "", "!", "a", "", ""),
    ("script", "", "typeof ", "a", "", ""), ("script", "a", "+a", "", "", ""), ("script", "a", "**a", "", "", ""), ("script", "a", "=a", "", "", ""), ("script", "a", ".a", "", "", ""),
    ("script", "a", "[a]", "", "", ""), ("script", "a", "()", "", "", ""), ("script", "", "a[", "a", "]", ""), ("script", "", "f(", "", ")", ""), ("script", "", "new ", "a", "", ""),
    ("script", "", "new a(", "", ")", ""), ("script", "", "(class{a(){", "", "}})", ""), ("script", "", "(class extends ", "a", "{})", ""), ("script", "", "class A{a(){", "", "}}", ""),
    ("script", "", "if(a)", ";", "", ""), ("script", "", "if(a);else ", ";", "", ""), ("script", "", "for(;;)", ";", "", ""), ("script", "", "for(a in b)", ";", "", ""), ("script", "", "while(a)", ";", "", ""),
    ("script", "", "do ", ";", "while(a)", ""), ("script", "", "a:", ";", "", ""), ("script", "", "switch(a){case a:", "", "}", ""), ("script", "", "try{", "", "}finally{}", ""), ("script", "", "try{}catch(a){", "", "}", ""),
    ("script", "var ", "{a:", "b", "}", "=a"), ("script", "var ", "[", "b", "]", "=a"), ("script", "var ", "[a=", "b", "]", "=c"), ("script", "", "({a(){", "", "}})", ""), ("script", "", "(a=>{", "", "})", ""),
    ("script", "", "(a=", "b", ")=>c", ""), ("script", "", "(a,b=", "c", ")", ""), ("script", "(", "[a,", "b", "]", ")=>c"), ("script", "(", "{a:", "b", "}", ")=>c"), ("script", "", "({a=", "b", "}) => c", ""), ("script", "", "async (", "", ")=>a", ""),
    ("script", "", "async(", "a", ")", ""), ("script", "", "(async(a=", "b", ")=>c)", ""), ("script", "", "((a)=>", "b", ")", ""), ("script", "", "function f(){", "", "}", ""), ("script", "function f(", "a=function(", "", "){}", "){}"),
    ("script", "", "async (a,", "b", ")", ""), ("script", "function* g(){", "function* g(){", "", "}", "}"), ("script", "", "for(var a=", "0", ";", ";);"), ("script", "", "(function(a=", "b", "){})", ""), ("script", "a", "\n++\na", "", "", ""),
    ("script", "", "a=b=>", "c", "", ""), ("script", "", "(a,", "b", ")", ""), ("script", "", "-(", "a", ")", ""), ("script", "f", "(a", "", ")", ""), ("script", "", "f(...", "a", ")", ""), ("script", "a", "&&a", "", "", ""), ("script", "a", "||b&&c", "", "", ""),
    ("script", "a", "<b+c*d", "", "", ""), ("expression", "", "[...", "a", "]", ""), ("script", "", "(()=>{if(a){for(;;){try{switch(a){case 1:{", "", "}}}catch(e){}}}})", ""),
    # what is only long
    ("script", "", "a;", "", "", ""), ("script", "", "a\n", "", "", ""), ("module", "", "import a from 'm';", "", "", ""), ("module", "import{a", ",a as b", "", "", "}from 'm'"), ("script", "[", "a,", "", "", "]"), ("script", "[", ",", "", "", "]"),
    ("script", "f(", "a,", "b", "", ")"), ("script", "({", "a,", "", "", "})"), ("script", "({", "a:b,", "", "", "})"), ("script", "({", "a(){},", "", "", "})"), ("script", "class A{", "a(){}", "", "", "}"), ("script", "class A{", ";", "", "", "}"),
    ("script", "var a", ",a=b", "", "", ""), ("script", "switch(a){", "case a:b;", "", "", "}"), ("script", "function f(", "a,", "b", "", "){}"), ("script", "(", "a,", "b", "", ")=>c"), ("script", "a", ",a", "", "", ""), ("script", "", "{}", "", "", ""),
    ("script", "", ";", "", "", ""), ("script", "", "function f(){}", "", "", ""), ("script", "", "if(a){}else{}", "", "", ""), ("script", "", "'use strict';", "", "", ""), ("script", "var{", "a,", "", "", "}=b"), ("script", "var[", "a,", "", "", "]=b"),
    ("script", "x={", "'a':1,2:b,", "", "", "}"), ("script", "", "a=>b;", "", "", ""), ("script", "", "a\n/b/g;", "", "", ""), ("script", "", "a?b:c;", "", "", ""), ("script", "", "for(var a in b){}", "", "", ""), ("script", "", "async()=>a;", "", "", ""),
    # single tokens and gaps
    ("script", "a", " .", "", "", ""), ("script", "a", "\u00e9\U0001d4d0", "", "", ""), ("script", "1", "0", "", "", ""), ("script", "0x", "f", "", "", ""), ("script", "0b", "1", "", "", ""), ("script", "0o", "7", "", "", ""), ("script", "1e", "9", "", "", ""), ("script", ".", "5", "", "", ""),
    ("script", "1", "_1", "", "", ""), ("script", "'", "a", "", "", "'"), ("script", "'", "\\\n", "", "", "'"), ("script", "'", "\\'", "", "", "'"), ("script", "'", "\u2028\ufffd", "", "", "'"), ("script", "x=/", "a", "", "", "/g"), ("script", "x=/", "[/]\\/", "", "", "/"), ("script", "x=/a/", "g", "", "", ""),
    ("script", "/*", "*", "", "", "*/a"), ("script", "/*", "\n", "", "", "*/a"), ("script", "", "/**/", "a", "", ""), ("script", "", "//\n", "a", "", ""), ("script", "//", "a", "", "", ""), ("script", "a", " ", "b", "", ""), ("script", "a", "\n", "b", "", ""), ("script", "a", "\r\n\u2028", "b", "", ""),
    ("script", "#", "a", "", "", ""), ("script", "a", "\ufeff", "", "", ""),
    # what is no program
    ("script", "", "(", "", "", ""), ("script", "", "[", "", "", ""), ("script", "", "{", "", "", ""), ("script", "", ")", "", "", ""), ("script", "", "a ", "", "", ""), ("script", "'", "a", "", "", ""), ("script", "/*", "a", "", "", ""), ("script", "x=/", "a", "", "", ""), ("script", "x=/", "[", "", "", ""),
    ("script", "", "(a", "", ",", ""), ("script", "", "(a=>", "", "", ""), ("script", "", "function(", "", "", ""), ("script", "", "function f(a=", "", "", ""), ("script", "", "class ", "", "", ""), ("script", "", "class A extends ", "", "", ""), ("script", "", "switch(a){case ", "", "", ""), ("script", "", "if(", "", "", ""),
    ("script", "", "do ", "", "", ""), ("script", "", "try{", "", "", ""), ("script", "", "({a:", "", "", ""), ("script", "var ", "[", "", "", ""), ("script", "var ", "{a:", "", "", ""), ("script", "a", " .", "", "", ""), ("script", "", "a?b:", "", "", ""), ("module", "", "import ", "", "", ""), ("script", "", "async (", "", "", ""),
    ("script", "", "\0", "", "", ""), ("script", "", "\ufffd", "", "", ""), ("expression", "", ",", "", "", ""), ("expression", "a", ";", "", "", ""), ("script", "a", " .", "", "", ""), ("script", "", "new ", "", "", ""), ("script", "", "!", "", "", ""), ("script", "a", "++", "", "", ""), ("script", "", "++", "a", "", ""),
    ("script", "1", "a", "", "", ""), ("script", "0", "x", "", "", ""), ("script", "", "(a)=>{", "", "", ""), ("script", "", "=", "", "", ""), ("script", "", ":", "", "", ""), ("script", "function f(){", "return ", "", "", ""), ("script", "", "for(", "", "", ""), ("script", "", "for(var a of ", "", "", ""), ("script", "(", "a,", "", "", ""),
    # what is not supported
    ("script", "", "`${", "a", "}`", ""), ("script", "`", "a", "", "", "`"), ("script", "a", "`b`", "", "", ""), ("script", "a", "?.b", "", "", ""), ("script", "function*g(){", "yield ", "a", "", "}"), ("script", "async function f(){", "await ", "a", "", "}"), ("script", "", "import(", "a", ")", ""),
    ("script", "class A{", "a=1;", "", "", "}"), ("script", "class A{", "static{}", "", "", "}"), ("module", "", "export ", "a", "", ""), ("script", "", "with(a)", "b", "", ""), ("script", "", "debugger;", "", "", ""), ("script", "[", "...a,", "", "", "]"), ("script", "({", "...a,", "", "", "})"), ("script", "", "[a]=", "b", "", ""),
    ("script", "({", "[a]:b,", "", "", "})"), ("script", "({", "get a(){return ", "b", "},", "})"), ("script", "1", "0", "", "", "n"), ("script", "", "\\u0061", "", "", ""), ("script", "<!--", "a", "", "", ""), ("script", "", "#!", "", "", ""),
]
BYTES = [[0x61], [0x20], [0x0a], [0x2f], [0x27], [0x5c], [0x60], [0x7b], [0x28], [0x29], [0x23], [0x30], [0x2e], [0x2a], [0x3d], [0x3b], [0x00], [0x80], [0xc3], [0xa9], [0xe2, 0x80], [0xa8], [0xf0, 0x9d], [0x93, 0x90], [0xff], [0xed, 0xa0, 0x80]]
HIGH = [[0x80], [0xa9], [0xc3], [0xc0], [0xe2], [0xe2, 0x80], [0xa8], [0xf0], [0xf0, 0x9d, 0x93], [0x90], [0xf4], [0xff], [0xfe], [0xed, 0xa0], [0xef, 0xbf, 0xbd], [0xef, 0xbb, 0xbf]]
BYTE_FRAMES = [
    # name, mode, before, pieces, behind, length, in thorough runs
    ("bytes", "script", "", BYTES, "", 4, 5), ("bytesmod", "module", "", BYTES, "", 3, 4), ("bytesexpr", "expression", "", BYTES, "", 3, 4),
    ("bytestext", "script", "a='", HIGH + [[0x27], [0x5c], [0x61], [0x0a]], "", 3, 4), ("bytesblock", "script", "a/*", HIGH + [[0x2a], [0x2f], [0x0a]], "", 3, 5), ("bytesline", "script", "a//", HIGH + [[0x0a], [0x61]], "b", 3, 4),
    ("bytesre", "script", "a=/", HIGH + [[0x2f], [0x5b], [0x5d], [0x5c], [0x67]], "", 3, 4), ("bytesid", "module", "a", HIGH + [[0x20], [0x3b], [0x61]], "", 3, 5), ("bytespriv", "script", "#a", HIGH + [[0x3b]], "", 2, 3),
]


def judged(run, themes, name="judge", n=None):
    """Mutated programs, and what the specification says about them."""
    n = n or (8000 if not run.deep else 150000)
    outs = sim(run, themes, name + "sim", 150 if not run.deep else 3000, maxlen=14)
    texts = os.path.join(run.dir, name + ".ndjson")
    run.harness(name + "mutate", "mutate", ["-in", ",".join(outs), "-out", texts, "-num", str(n), "-seed", str(run.seed)])
    for o in outs:
        os.unlink(o)
    out = run.tlc(name, "Judge", {"File": json.dumps(texts), "Chunk": "50"}, "SPECIFICATION Spec\nINVARIANTS Emit")
    r = run.harness(name, "judge", ["-in", out, "-texts", texts])
    os.unlink(out)
    total(run, r, ("judged as accepted", "judged as rejected", "judged as unspecified"), name)


NAMED = [
    # lists, in which each name is another one
    ("script", "x=(", "a=b,", "c", "", ")=>d"), ("script", "(", "{a,b:c},", "d", "", ")=>e"), ("script", "(", "[a,b],", "c", "", ")=>d"), ("script", "function f(", "{a,b:c=d},", "e", "", "){}"), ("script", "function f(", "[a,,b=c],", "...e", "", "){}"),
    ("script", "async(", "a,b=c,", "d", "", ")=>e"), ("script", "async(", "a,b(c),", "d", "", ")"), ("script", "(", "a,b=c,", "...d", "", ")=>e"), ("script", "(", "{a:[b,c]=d},", "e", "", ")=>{f}"), ("script", "(", "a,(b,c),", "d", "", ")"), ("script", "f(", "a,(b,c)=>d,", "e", "", ")"),
    ("script", "class A{", "a(b){c}", "", "", "}"), ("script", "class A extends B{", "static a(b,c){}get d(){e}set f(g){}", "", "", "}"), ("script", "class A{", "async*a(){}[b](){c}", "", "", "}"), ("script", "(class{", "a(b){(class{c(d){}})}", "", "", "})"),
    ("script", "x={", "a,b:c,d(e){f},get g(){h},", "", "", "}"), ("script", "x={", "[a]:b,c:(d,e),", "", "", "}"), ("script", "x=[", "a,,b,", "", "", "]"), ("script", "x={a:", "{b:c,d:", "e", "}", "}"), ("script", "f(", "[a,{b:c}],", "d", "", ")"),
    ("script", "l:while(a){", "if(b)break c;else continue d;", "", "", "}"), ("script", "", "try{a}catch(b){c}finally{d}", "", "", ""), ("script", "", "try{a}catch({b,c:[d]}){e}", "", "", ""), ("script", "", "for(a;b;c)d;", "", "", ""), ("script", "", "for(var a=b,c;d;e){f}", "", "", ""),
    ("script", "", "for(a in b)for(c of d)e;", "", "", ""), ("script", "", "do a;while(b)", "", "", ""), ("script", "", "if(a)b;else if(c)d;else{e}", "", "", ""), ("script", "switch(a){", "case b:case c:d;e;", "", "", "default:f}"), ("script", "switch(a){default:b;", "case c:{d}", "", "", "}"),
    ("script", "", "a:b:c;", "", "", ""), ("script", "function f(){", "return a;", "", "", "}"), ("script", "", "throw a\n", "", "", ""), ("script", "", "function a(b,c){d}", "", "", ""), ("script", "", "class a extends b{c(d){e}}", "", "", ""), ("script", "", "var a=b,{c,d:e}=f,[g]=h;", "", "", ""),
    ("script", "", "let a=b;const c=d;", "", "", ""), ("script", "let ", "a,b=c,", "d", "", ""), ("script", "const{", "a,b:c,d=e,f:{g},", "", "", "...h}=i"), ("script", "var[", "a,[b],{c}=d,,", "", "", "...e]=f"),
    ("script", "x=", "a?b:", "c", "", ""), ("script", "x=", "a?b=>c:d=>", "e", "", ""), ("script", "x=a", "*b+c", "", "", ""), ("script", "x=a", "**b", "", "", ""), ("script", "x=a", "+=b", "", "", ""), ("script", "x=a", "||b&&c", "", "", ""), ("script", "x=a", "??b", "", "", ""), ("script", "x=a", "<b<<c-d*e", "", "", ""),
    ("script", "x=a", "(b,c)[d].e", "", "", ""), ("script", "x=", "new a(b,c)[d].e(", "f", ")", ""), ("script", "x=new a", ".b[c]", "", "", "(d)"), ("script", "x=", "a=>b=>(c,d)=>", "e", "", ""), ("script", "x=a", " in b instanceof c", "", "", ""), ("script", "", "a,b,", "c", "", ""),
    ("script", "x=", "(a,b)=>{c;d;", "e", "}", ""), ("script", "x=", "function(a,b){return ", "c", "}", ""), ("script", "", "{a;{b}", "c", "}", ""), ("script", "x=", "typeof-a*!b+", "c", "", ""), ("expression", "a", ",b=c", "", "", ""), ("expression", "", "(a,b)=>{c},", "d", "", ""), ("expression", "[", "{a,b(c){d}},", "", "", "]"),
    ("module", "", "import a,{b as c,d}from'm';", "", "", ""), ("module", "", "import*as a from'm';import'n';", "", "", ""), ("module", "import{", "a,b as c,", "", "", "}from'm'"), ("module", "import a,{", "b as c,d,", "e", "", "}from'm'"), ("module", "", "import a,*as b from'm'\n;c(d)\n", "", "", ""),
]


# Far contexts: what stands where an expression or a statement does, behind or
# within any number of others.
EXPR_FAR = [
    ("script", "f(", "a,", "%s", ",b", ")"), ("script", "x=[", "a,", "%s", "", "]"), ("script", "x=[", "", "%s", ",b", "]"), ("script", "x=", "a+b*", "%s", "", ""), ("script", "(", "a,", "%s", "", ")"), ("script", "x=", "a?b:", "%s", "", ""), ("script", "x=", "a?", "%s", ":b", ""),
    ("script", "", "(", "%s", ")", ""), ("script", "x={", "a:b,", "c:%s,", "d,", "}"), ("script", "", "(a=>{", "x=%s", "})", ""), ("script", "x=", "a=>", "%s", "", ""), ("script", "class A{", "a(){}", "b(){x=%s}", "", "}"), ("script", "class A{", "a(){}", "[%s](){}", "get a(){}", "}"),
    ("script", "switch(a){", "case a:b;", "case %s:", "case b:", "}"), ("script", "", "a\n", "%s", "\nb", ""), ("module", "", "import a from'm';", "x=%s", "", ""), ("expression", "", "a,", "%s", "", ""), ("expression", "", "[", "%s", "]", ""), ("script", "x=", "!", "%s", "", ""), ("script", "var a=", "b,c=", "%s", "", ""),
    ("script", "(a", ",b=c", "=%s", ",d", ")=>e"), ("script", "x=", "async(a,", "%s", ")", ""), ("script", "x=", "f(", "%s", ")[a].b", ""), ("script", "'use strict';", "a;", "x=%s", "", ""), ("script", "x=", "new a(", "%s", ")", ""),
]
STMT_FAR = [
    ("script", "", "a;", "%s", "", ""), ("script", "", "a\n", "%s", "\nb", ""), ("script", "", "{", "%s", "}", ""), ("script", "", "(function(){", "%s", "})", ""), ("script", "", "if(a){}else ", "%s", "", ""), ("script", "'use strict';", "a;", "%s", "", ""), ("script", "function f(){", "a;", "%s", "", "}"),
    ("script", "", "for(;;)", "%s", "", ""), ("script", "switch(a){", "case a:", "%s", "", "}"), ("script", "switch(a){", "case a:b;", "default:%s", "case c:d;", "}"), ("script", "", "try{", "%s", "}finally{a}", ""), ("script", "", "a:", "%s", "", ""), ("script", "class A{", "a(){", "%s", "}}", ""), ("module", "", "import a from'm';", "%s", "", ""),
    ("script", "", "function a(){}", "%s", "", ""), ("script", "", "do ", "%s", ";while(a)", ""), ("script", "", "(a=>{", "%s", "})", ""), ("script", "", "'a';", "%s", "", ""), ("script", "x={a(){", "b;", "%s", "", "}}"), ("script", "", "/**/\n", "%s", "", ""), ("script", "function f(){", "'use strict';", "%s", "", "}"),
]


BAD_EXPR = ["a b", "a,,b", "1=2", "a++ ++", "{a=1}", "...a", "a=>", "a?b", "a.1", "-a=b", "(a", "a)", "'s", "a;b", "=a", "new", "a=>{}()", "()", "a.", "f(,)", "[a", "{a:}", "(...a)", "@", "if", "1a"]
BAD_STMT = ["a b", "if a;b", "for(;)a", "else a", "catch{}", "try{}", "var", "let a b", "case a:", "}", ")", "function(){}", "class{}", "import a", "switch(a){a}", "break 1", "throw;", "const", "do a", "a:", "default:", "for(a,b of c);", "1:a"]


def far(run, places, fillers, name="far", where=False):
    out = repeated(run, name, [tuple(s.replace("%s", f) for s in p) for p in places for f in fillers], 5)
    r = run.harness(name, "repeat", ["-in", out] + (["-places"] if where else []))
    os.unlink(out)
    total(run, r, ("repetitions", "places of errors" if where else "trees of repetitions"), name)


def named(run, keep=lambda p: True, name="named"):
    """Long lists and deep nestings of different names, in order."""
    out = repeated(run, name, [p for p in NAMED + PUMPS[:PUMPS.index(PUMPS_BAD)] if keep(p)], 3, "Named", "EmitNames")
    r = run.harness(name, "named", ["-in", out])
    os.unlink(out)
    total(run, r, ("texts of different names",), name)


def c15(run):
    codes = lambda s: "<<%s>>" % ", ".join(str(ord(c)) for c in s)
    seq = lambda b: "<<%s>>" % ", ".join(map(str, b))
    frm = ", ".join('[name |-> "%s", mode |-> "%s", pre |-> %s, al |-> <<%s>>, suf |-> %s, n |-> %d]' %
                    (n, m, codes(pre), ", ".join(map(seq, al)), codes(suf), t if run.deep else q) for n, m, pre, al, suf, q, t in BYTE_FRAMES)
    enum_out = run.tlc("bytes", "Bytes", {"Frm": "ByteFrames"}, "SPECIFICATION Spec\nINVARIANTS Emit Decoded Total\nVIEW View", defs="ByteFrames == <<%s>>" % frm)
    r = run.harness("bytes", "enum", ["-in", enum_out])
    os.unlink(enum_out)
    run.coverage["frames"] = r.get("frames")
    total(run, r, ("accepted", "rejected", "unspecified"), "bytes")
    out = repeated(run, "pumps", PUMPS, 6 if not run.deep else 9)
    r = run.harness("pumps", "pump", ["-in", out, "-most", "100000" if not run.deep else "1000000"])
    os.unlink(out)
    total(run, r, ("repetitions", "costs measured"), "pumps")
    judged(run, ANY_WALKS + WORD_WALKS[:1] + IMPORT_WALKS[:1] + SLASH_WALKS[:2] + ARROW_WALKS[:1], n=8000 if not run.deep else 300000)


ISO_TEXTS = [
    ("script", "x=a+1"), ("script", "'use strict';b"), ("script", "let=yield"), ("script", "a/b/g;/c/"), ("script", "(a,b)=>{a}"),
    ("script", "/*x*/f('s')//"), ("script", "a b"), ("script", "function*f("), ("script", "x='a"), ("script", "0x1F.e"),
    ("module", "import a from'm'"), ("expression", "[1,,{b:2}]"), ("expression", "(a,1)=>b"), ("script", "for(a in b);"),
    ("script", "class A{f(){}}"), ("script", "x=`t`"), ("script", "l:while(1)break l"), ("module", "if(a){'use strict'"), ("script", "a\n++b\r\n.c~"),
    ("expression", "async()=>{return}"), ("script", "\u00e9=\u2028#p"), ("expression", "((((a))))"), ("script", "/[/]"), ("script", "switch(a){case 1:b}"),
]


def iso(run, name, texts, groups, runs, maxruns):
    lit = ", ".join("[mode |-> %s, s |-> <<%s>>]" % (json.dumps(m), ", ".join(str(ord(c)) for c in t)) for m, t in texts)
    out = run.tlc(name, "Isolation", {"Texts": "IsoTexts", "Groups": groups, "Runs": runs, "MaxRuns": str(maxruns)},
                  "SPECIFICATION Spec\nINVARIANTS Emit Isolated Same\nVIEW View", defs="IsoTexts == <<%s>>" % lit)
    r = run.harness(name, "iso", ["-in", out])
    os.unlink(out)
    total(run, r, ("schedules",), name)


def c17(run):
    n = len(ISO_TEXTS)
    race = gobuild(os.path.join(BUILD, "harness-race"), flags=["-race"])
    # One after the other: every two texts, and a third.
    iso(run, "histories", ISO_TEXTS, "{<<a, b, c>> : a \\in 1..%d, b \\in 1..%d, c \\in %s}" % (n, n, "1..%d" % n if run.deep else "{1, 3, 10, 19}"), "{0}", 3)
    # In turns: two, with up to three switches anywhere; three, with more.
    iso(run, "turns", ISO_TEXTS, "{<<a, b>> : a \\in 1..%d, b \\in {%s}}" % (n, "2, 4, 8, 9, 15, 19" if not run.deep else "2, 3, 4, 5, 7, 8, 9, 10, 13, 15, 19, 21"),
        "1..%d" % (12 if not run.deep else 20), 3)
    iso(run, "three", ISO_TEXTS, "{<<a, b, c>> : a \\in {1, 2, 9}, b \\in {4, 8, 19}, c \\in {3, 5, 21}}", "{1, 2, 4, 7}", 4 if not run.deep else 5)
    outs = sim(run, ANY_WALKS + WORD_WALKS[:2] + IMPORT_WALKS[:1], "sim", 120 if not run.deep else 2000)
    args = ["-in", ",".join(outs), "-seed", str(run.seed)]
    total(run, run.harness("readers", "isowalk", args), ("programs", "beginnings"), "readers")
    total(run, run.harness("together", "together", args, exe=race), ("parses", "conversions"), "together")
    out = repeated(run, "pumps", PUMPS, 4)
    args = ["-in", out, "-seed", str(run.seed)]
    total(run, run.harness("long", "isopump", args), ("long texts", "short texts after and beside them"), "long")
    total(run, run.harness("longrace", "isopump", args, exe=race), ("long texts", "short texts after and beside them"), "longrace")
    os.unlink(out)
    for o in outs:
        os.unlink(o)


def c18(run):
    frames = EXPR + STMT + ARROW + IMPORT
    out = run.tlc("enum", "ParserEnum", {"Names": tla_seq(sorted(set(frames))), "Deep": "TRUE" if run.deep else "FALSE"}, ENUM_CFG)
    outs = sim(run, EXPR_WALKS[:1] + STMT_WALKS[:3] + ARROW_WALKS[:1] + IMPORT_WALKS[:1], "sim", 200 if not run.deep else 4000)
    forms = os.path.join(run.dir, "forms.ndjson")
    r = run.harness("forms", "forms", ["-in", out, "-walks", ",".join(outs), "-out", forms])
    total(run, r, ("documents",), "forms")
    r = run.harness("enum", "enum", ["-in", out])
    total(run, r, ("accepted",), "enum")
    r = run.harness("walk", "walk", ["-in", ",".join(outs)])
    total(run, r, ("programs",), "walk")
    os.unlink(out)
    long = repeated(run, "long", PUMPS[:PUMPS.index(PUMPS_BAD)] + NAMED, 5)
    r = run.harness("long", "repeat", ["-in", long])
    os.unlink(long)
    total(run, r, ("repetitions", "trees of repetitions"), "long")
    judged = run.tlc("judge", "EstreeCheck", {"File": json.dumps(forms)}, "SPECIFICATION Spec\nINVARIANTS Emit", workers=1)
    with open(forms) as f:
        shown = [json.loads(l) for l in f]
    for v in printed(judged):
        if "types" in v:
            run.coverage["node_types"] = v
        else:
            f = shown[v["form"] - 1]
            run.violation("%s:%s" % (f["mode"], f["text"]), "%s %r has a node %s: %s" % (f["mode"], f["text"], f["t"], v["why"]), f)


CLI_FILES = [
    ("a.js", "text", "a;"), ("with space.js", "text", "x = 'a<b>&c\u2028\u00e9\U0001f600';\n// ---\n---a"), ("empty.js", "text", ""), ("-d.js", "text", "f(1e3, /x/g)"),
    ("--", "text", "if (a) b\nelse c"), ("100%25\n\"q\".js", "text", "({'---': 1})"), ("sub/\u00fc?#.js", "text", "class A { m() {} }"),
    ("bad.js", "text", "a b"), ("bad at the end.js", "text", "function f() {"), ("import.js", "text", "import a from 'a'"),
    ("missing.js", "missing", ""), ("", "missing", ""), ("a.js/x", "missing", ""), ("folder", "dir", ""), ("long.js", "text", "a.b(c);\n" * 150),
]
# With this many blanks behind that character; only in the long lists.
CLI_LONG = [("%d.js" % n, "a; last", 3, n) for n in (4093, 65533, 65534, 131072, 1048576, 5000000, 40000000)] + [("long and bad.js", "a; 'x", 3, 3000000)]


def c19(run):
    exe = gobuild(os.path.join(BUILD, "estree"), "./cmd/estree", cwd=REPO)
    codes = lambda s: "<<%s>>" % ", ".join(str(ord(c)) for c in s)
    files = ", ".join("[name |-> %s, kind |-> \"%s\", s |-> %s, at |-> %d, pad |-> %d]" % (codes(n), k, codes(t), at, pad)
                      for n, k, t, at, pad in [f + (0, 0) for f in CLI_FILES] + [(n, "text", t, at, pad) for n, t, at, pad in CLI_LONG])
    first = len(CLI_FILES)
    lists = "{<<%d>>, <<%d>>, <<%d, 1, %d>>, %s, " % (first + 1, first + 7, first + 6, first + 8, ", ".join("<<%d, 2, %d, %d>>" % (first + i, first + i, first + 1 + i % 6) for i in range(1, 7))) + "[i \\in 1..60 |-> 1 + (i % 7)], [i \\in 1..60 |-> IF i = 58 THEN 8 ELSE 1 + (i % 7)], [i \\in 1..40 |-> IF i = 40 THEN 11 ELSE 15]}"
    out = run.tlc("cli", "Cli", {"Files": "CliFiles", "Short": str(first), "MaxList": "3" if not run.deep else "4", "Lists": lists},
                  "SPECIFICATION Spec\nINVARIANTS Emit Separated Documents NoTail Status", defs="CliFiles == <<%s>>" % files)
    d = os.path.join(run.dir, "files")
    os.makedirs(d)
    r = run.harness("cli", "cli", ["-in", out, "-bin", exe, "-dir", d])
    os.unlink(out)
    run.coverage["exhaustive"] = True
    run.coverage["bounds"] = "all lists of up to %d of %d files, some with files of up to 40 MB, and three long ones" % (3 if not run.deep else 4, len(CLI_FILES))
    total(run, r, ("runs",), "cli")


def c20(run):
    bs = [0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255]
    ps = [0, 65, 127, 128, 2047, 2048, 55295, 57344, 65533, 65535, 65536, 66559, 66560, 119987, 1114111]
    out = run.tlc("utf16", "Utf16Enum",
                  {"ByteSet": "{%s}" % ", ".join(map(str, bs)), "MaxBytes": "4" if not run.deep else "5",
                   "PointSet": "{%s}" % ", ".join(map(str, ps)), "MaxPoints": "4" if not run.deep else "5",
                   "Repeats": "{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 100003}"},
                  "SPECIFICATION Spec\nINVARIANTS Emit RoundTrip Consecutive Homomorphic")
    r = run.harness("utf16", "utf16", ["-in", out])
    os.unlink(out)
    run.coverage["exhaustive"] = True
    run.coverage["bounds"] = "every code point; all byte strings over 25 bytes and all strings over 15 code points up to length 4 (thorough: 5); long repetitions"
    total(run, r, ("code points", "strings", "long strings"), "utf16")


WEB_TEXTS = [
    "a+1", "a b", "", "x = 'a<b>&c\u2028\u00e9\U0001f600'", "'\ud800'", "\udc00\ud800a", "\ufeff a\u00a0", "a\0", "import a from 'm'", "function f() {", "({a: [1,,'\"'], b() {}})",
    "x = /</g\n/* \u2029 */ b", "'use strict'; with", "(((((a)))))", "`t`", "for (;;) break",
]
WEB_OTHERS = ["none", "number", "nan", "undefined", "null", "boolean", "object", "array", "function", "symbol", "bigint", "throwing", "proxy", "boxed"]
# Nested deeper than the engine's stack allows, but not than the library does.
WEB_DEEP = [dict(pre="{", mid="", suf="}", n=9000), dict(pre="[", mid="", suf="]", n=9000), dict(pre="a+", mid="a", suf="", n=9000),
            dict(pre="[", mid="", suf="]", n=100), dict(pre="{", mid="", suf="}", n=100), dict(pre="a+", mid="a", suf="", n=500), dict(pre="a;", mid="", suf="", n=50000)]


def units(s):
    b = s.encode("utf-16-le", "surrogatepass")
    return "<<%s>>" % ", ".join(str(b[i] | b[i + 1] << 8) for i in range(0, len(b), 2))


def c21(run):
    wasm = gobuild(os.path.join(BUILD, "web.wasm"), "./web/parser", cwd=REPO, GOOS="js", GOARCH="wasm")
    root = subprocess.run(["go", "env", "GOROOT"], stdout=subprocess.PIPE, text=True, check=True, env=dict(os.environ, GOTOOLCHAIN="local")).stdout.strip()
    args = ", ".join(["[kind |-> \"text\", u |-> %s]" % units(t) for t in WEB_TEXTS] + ["[kind |-> \"%s\", u |-> <<>>]" % k for k in WEB_OTHERS])
    n = len(WEB_TEXTS) + len(WEB_OTHERS)
    out = run.tlc("web", "Web", {"Args": "WebArgs", "MaxCalls": "2" if not run.deep else "3",
                                 "Long": "{[k \\in 1..300 |-> 1 + ((k * m) %% %d)] : m \\in {1, 7, 11, 13}}" % n},
                  "SPECIFICATION Spec\nINVARIANTS Emit OneEach History", defs="WebArgs == <<%s>>" % args)
    outs = sim(run, ANY_WALKS[:1] + ANY_WALKS[3:] + WORD_WALKS[:1], "sim", 300 if not run.deep else 4000)
    r = run.harness("web", "web", ["-in", out, "-driver", os.path.join(VERIF, "harness", "web.js"), "-exec", os.path.join(root, "lib", "wasm", "wasm_exec.js"),
                                   "-wasm", wasm, "-walks", ",".join(outs), "-deep", json.dumps(WEB_DEEP)])
    for f in [out] + outs:
        os.unlink(f)
    run.coverage["exhaustive"] = True
    run.coverage["bounds"] = "all histories of up to %d calls with %d texts and things that are no texts; long ones; random programs" % (2 if not run.deep else 3, n)
    total(run, r, ("calls",), "web")


ERRORS = ["exprany", "modany", "exprstmt", "stmtany", "imports", "imports2", "impscript", "classes", "classctor", "heritage", "patterns", "patterns2", "params", "arrow", "asyncarr", "parendest", "forhead", "forvar", "forexpr",
          "objmethod", "object", "array", "fnexpr", "condexpr", "calls", "litkey", "switch", "trycatch", "labels", "jumps", "letstmt", "vars", "directive", "wvars", "wexprg", "wexpra", "wstricto", "wmethod", "wshorts", "wpatval", "wparamg", "wlabels"]


def c22(run):
    """What errors say."""
    uris = ["file:///t.js", "https://ex.org:8080/a%20b/%25d.js?q=1#f", "rel/a.js"]
    out = run.tlc("errors", "ErrorsEnum", {"Uris": "{%s}" % ", ".join(json.dumps(u) for u in uris), "Numbers": "{1, 10, 4096, 1048577}",
                                           "Reasons": "{%s}" % ", ".join(json.dumps(r) for r in ("why", "a: b: syntax error: c", "100%d %s %!", "\"q\"")), "MaxLayers": "3" if not run.deep else "4"},
                  "SPECIFICATION Spec\nINVARIANTS Emit Layered")
    r = run.harness("errors", "errors", ["-in", out])
    os.unlink(out)
    total(run, r, ("errors",), "errors")
    # The errors of texts, with an address and without.
    outs = [(run.tlc("enum", "ParserEnum", {"Names": tla_seq(ERRORS), "Deep": "TRUE" if run.deep else "FALSE"}, ENUM_CFG), "enum", ["-loc"]),
            (run.tlc("chars", "FrontEdits", {"Names": tla_seq(["puncts", "gaps", "strings", "regexes", "xwords"]), "Changes": json.dumps("one" if not run.deep else "wide")}, ENUM_CFG), "charedits", []),
            (run.tlc("lex", "LexEnum", {"Names": tla_seq(["ascii", "asciire", "num", "numhex", "numoct", "numbin", "numleg", "numtail", "str", "strin", "block", "regex", "reclass", "reflags", "wordpre"]),
                                        "Deep": "TRUE" if run.deep else "FALSE"}, "SPECIFICATION Spec\nINVARIANTS Emit\nVIEW View"), "lex", []),
            (run.tlc("fault", "Fault", {"Names": tla_seq(["fline", "fgaps", "fglue", "fmod", "fregex", "fend", "fexpr"]), "Deep": "TRUE" if run.deep else "FALSE"},
                     "SPECIFICATION Spec\nINVARIANTS Emit OnlyFailures Decided Answered Begins\nVIEW View"), "fault", [])]
    for k, uri in enumerate(["https://ex.org/a%20b/%25d.js?q=1", "", "r%C3%A9l/a.js"]):
        shown = []
        for out, cmd, args in outs:
            if k > 0 and cmd in ("enum", "lex"):
                continue
            name = "%s%d" % (cmd, k)
            file = os.path.join(run.dir, name + ".ndjson")
            os.environ.update(VERIF_URL=uri, VERIF_ERRORS=file)
            try:
                r = run.harness(name, cmd, ["-in", out] + args)
            finally:
                for v in ("VERIF_URL", "VERIF_ERRORS"):
                    del os.environ[v]
            total(run, r, ("rejected", "failures"), name)
            if os.path.exists(file):
                with open(file) as f:
                    shown += [json.loads(l) for l in f]
        file = os.path.join(run.dir, "shown%d.ndjson" % k)
        with open(file, "w") as f:
            f.writelines(json.dumps(s) + "\n" for s in shown)
        for v in printed(run.tlc("judge%d" % k, "ErrorsCheck", {"File": json.dumps(file)}, "SPECIFICATION Spec\nINVARIANTS Emit", workers=1)):
            if "errors" in v:
                run.cases += v["errors"]
                run.coverage["errors_of_texts"] = run.coverage.get("errors_of_texts", 0) + v["errors"]
            else:
                e = shown[v["error"] - 1]
                run.violation("%s:%s" % (e["mode"], e["source"]), "%s %r gives the error %r, which %s" % (e["mode"], e["source"], e["text"], v["why"]), e)
    for out, _, _ in outs:
        os.unlink(out)


CHECKS = {k.upper(): dict(run=f) for k, f in sorted(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}
