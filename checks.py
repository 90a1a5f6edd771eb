"""Stages of each property's check, interpreted by run.py."""

COMMON_ASSUMPTIONS = [
    "The specification abstains (result 'any') where listed in DESIGN.md; abstained records count for nothing.",
    "Model bounds: values, names and depths are drawn from small pools; see the stage constants.",
]

NOTES = ("Run a single check with: python3 run.py C05. Everything is rebuilt from /repo's working tree; "
         "verdicts come only from the behaviour of the real code compared with the TLA+ model.")

NOT_APPLICABLE = {}

def body(kind, count):
    return {"kind": "trace", "record": "body_" + kind, "n": {"quick": 6000, "thorough": 60000}, "module": "BodyTrace",
            "consts": {"CountErrors": count}}


def mcbody(kind, items, ops, tier=None, min_cases=10000):
    return {"kind": "mc", "module": "MCBody", "inv": ["EmitCase", "TwoStep", "Once"], "replay": "body", "min_cases": min_cases,
            "consts": {"Kind": '"%s"' % kind, "MaxItems": items, "MaxOps": ops}, "tier": tier}


def mcgram(mode, pool, n, tn=None, tier=None, min_cases=1000):
    return {"kind": "mc", "module": "MCGrammar", "inv": ["EmitCase", "Dead", "Layout"], "replay": "grammar", "min_cases": min_cases,
            "consts": {"Mode": '"%s"' % mode, "Pool": '"%s"' % pool, "MaxLen": n}, "thorough": {"MaxLen": tn or n}, "tier": tier}


def gram(mode):
    return {"kind": "trace", "record": "grammar_" + mode, "n": {"quick": 8000, "thorough": 60000}, "module": "GrammarTrace", "inv": ["Validate"]}


def mcscan(mode, pool, n, tn):
    return {"kind": "mc", "module": "MCScan", "inv": ["EmitCase", "Tiles"], "replay": "scan", "min_cases": 1000,
            "consts": {"Mode": '"%s"' % mode, "Pool": '"%s"' % pool, "MaxLen": n}, "thorough": {"MaxLen": tn}}


def mcfront(mode, pool, n, tn=None, min_cases=1000):
    return {"kind": "mc", "module": "MCFront", "inv": ["EmitCase"], "replay": "front", "min_cases": min_cases,
            "consts": {"Mode": '"%s"' % mode, "Pool": '"%s"' % pool, "MaxLen": n}, "thorough": {"MaxLen": tn or n + 1}}


def mcrob(mode, pool, n):
    st = mcfront(mode, pool, n)
    st["replay"] = "robust"
    return st


def front(kind, n):
    return {"kind": "trace", "record": "front_" + kind, "n": {"quick": n, "thorough": 8 * n}, "module": "FrontTrace", "inv": ["Validate"]}


def mcjson(pool, n, tn=None, min_cases=500):
    return {"kind": "mc", "module": "MCJson", "inv": ["EmitCase", "Whole"], "replay": "json", "min_cases": min_cases,
            "consts": {"Pool": '"%s"' % pool, "MaxLen": n}, "thorough": {"MaxLen": tn or n + 1}}


def mcdectool(part):
    return {"kind": "mc", "module": "MCDecTool", "inv": ["EmitCase", "Printed"], "replay": "dectool", "min_cases": 500, "consts": {"Part": '"%s"' % part}}


def mcstatic(pool, n):
    return {"kind": "mc", "module": "MCStatic", "inv": ["EmitCase", "Same"], "replay": "static", "min_cases": 500,
            "consts": {"Pool": '"%s"' % pool, "MaxLen": n}, "thorough": {"MaxLen": n + 1}}


def mcformat(pool, n):
    return {"kind": "mc", "module": "MCFormat", "inv": ["EmitCase", "NoTrailing"], "replay": "format", "min_cases": 1000,
            "consts": {"Pool": '"%s"' % pool, "MaxLen": n}, "thorough": {"MaxLen": n + 1}}


def mcvalue(pool, n):
    return {"kind": "mc", "module": "MCValue", "inv": ["EmitCase", "ReadsBack"], "replay": "value", "min_cases": 500,
            "consts": {"Pool": '"%s"' % pool, "MaxLen": n}, "thorough": {"MaxLen": n + 1}}


def mcdec(group, n, replay="dec"):
    return {"kind": "mc", "module": "MCDec", "inv": ["EmitCase", "TypeLaw", "PartialLaw"], "replay": replay, "min_cases": 3000,
            "consts": {"Group": '"%s"' % group, "MaxItems": n}, "thorough": {"MaxItems": n + 1}}


def mcrange(what, n, tn):
    return {"kind": "mc", "module": "MCRange", "inv": ["EmitCase", "Symmetric", "Tiled"], "replay": "range", "min_cases": 100,
            "consts": {"What": '"%s"' % what, "N": n}, "thorough": {"N": tn}}


def mcdiag(what, n, tn):
    return {"kind": "mc", "module": "MCDiag", "inv": ["EmitCase", "Kept", "Whole"], "replay": "diag", "min_cases": 500,
            "consts": {"What": '"%s"' % what, "N": n}, "thorough": {"N": tn}}


def mctype(pool, n, tn):
    return {"kind": "mc", "module": "MCTypeExpr", "inv": ["EmitCase", "Back", "Exact"], "replay": "typeexpr", "min_cases": 500,
            "consts": {"Pool": '"%s"' % pool, "MaxLen": n}, "thorough": {"MaxLen": tn}}


def mcinc(items, ops):
    return {"kind": "mc", "module": "MCInclude", "inv": ["EmitCase", "MarkOnce", "Warned", "Gone"], "replay": "include", "min_cases": 1000,
            "consts": {"MaxItems": items, "MaxOps": ops}}


def mcfunc(group):
    return {"kind": "mc", "module": "MCUserFunc", "inv": ["EmitCase", "Bound"], "replay": "userfunc", "min_cases": 250,
            "consts": {"Group": '"%s"' % group}}


def mcwrite(pool, n, tier=None):
    return {"kind": "mc", "module": "MCWrite", "inv": ["EmitCase", "Same", "OneEach", "Lines"], "replay": "write", "min_cases": 1000, "tier": tier,
            "consts": {"Pool": '"%s"' % pool, "MaxOps": n}}


def mcload(pool, n):
    return {"kind": "mc", "module": "MCLoad", "inv": ["EmitCase"], "replay": "load", "min_cases": 500,
            "consts": {"Pool": '"%s"' % pool, "MaxLen": n}, "thorough": {"MaxLen": n + 1}}


FRONT_NOTE = "every text up to the bound in significant fragments, with its tree and its value; longer and nested texts are random, a sixth of them damaged"
GRAM_NOTE = "every token sequence over the alphabets up to the length bound (pruned only where no continuation can be valid); longer sequences are random derivations and mutations of them"
READ_NOTE = "exhaustive over the bounded bodies, schemas and two reads (three in the thorough tier); longer histories over larger bodies are seeded random, validated step by step"

def mcdyn(group, replay):
    return {"kind": "mc", "module": "MCDyn", "inv": ["EmitCase", "Written"] if group == "dec" else ["EmitCase"], "replay": replay, "min_cases": 5000, "consts": {"Group": '"%s"' % group}}


CHECKS = {
    "C01": {"technique": "TLC enumerates native bodies and read histories, checks exactly-once and two-step laws, replays each on the real body; recorded random histories validated step by step by TLC",
            "note": READ_NOTE,
            "stages": [mcbody("native", 3, 2), mcbody("native", 2, 3, "thorough"), body("native", "TRUE")]},
    "C02": {"technique": "TLC enumerates JSON bodies and read histories from the documented JSON mapping, replays each on the real JSON body; recorded random histories validated by TLC",
            "note": READ_NOTE,
            "stages": [mcbody("json", 2, 2), body("json", "FALSE")]},
    "C03": {"technique": "TLC enumerates merges of native and JSON bodies and read histories, replays each on the real merged body; recorded random histories validated by TLC",
            "note": READ_NOTE,
            "stages": [mcbody("merge", 3, 2), mcbody("merge", 2, 3, "thorough"), body("merge", "TRUE")]},
    "C04": {"technique": "TLC enumerates token sequences over the structural grammar with the body each denotes, replayed on the real parser; random configurations recorded from the parser validated by TLC",
            "note": GRAM_NOTE,
            "stages": [mcgram("body", "body", 7, 8), mcgram("body", "layout", 6, 7), mcgram("body", "attr", 7, 8), gram("body")]},
    "C05": {"technique": "TLC enumerates every expression up to the bound with its value; replayed on the evaluator; random expressions recorded from the evaluator are validated by TLC",
        "note": "exhaustive for the bounded grammar (two constructs around every leaf); larger expressions are seeded random samples validated against the model",
        "stages": [
        {"kind": "mc", "module": "MCExpr", "inv": ["EmitCase"], "replay": "expr", "min_cases": 50000,
         "consts": {"Depth": 2, "Siblings": '"small"', "Unknowns": "FALSE", "Full": "FALSE"},
         "thorough": {"Siblings": '"large"'}},
        {"kind": "trace", "record": "expr", "n": {"quick": 6000, "thorough": 40000}, "module": "ExprTrace",
         "inv": ["Validate"]},
    ]},
    "C06": {"technique": "TLC enumerates expressions over unknown inputs, checks soundness of unknowns as an invariant, replays every case; random evaluations with unknowns validated by TLC",
        "note": "soundness is an invariant over all bounded expressions without null; conformance by replay and trace validation",
        "stages": [
        {"kind": "mc", "module": "MCExpr", "inv": ["EmitCase", "Sound"], "replay": "expr", "min_cases": 50000,
         "consts": {"Depth": 2, "Siblings": '"small"', "Unknowns": "TRUE", "Full": "FALSE"},
         "thorough": {"Full": "TRUE"}},
        {"kind": "trace", "record": "exprunk", "n": {"quick": 6000, "thorough": 40000}, "module": "ExprTrace",
         "inv": ["Validate"]},
    ]},
    "C07": {"technique": "TLC enumerates token sequences over the expression grammar with the tree each denotes, replayed on the real parser; random token sequences recorded from the parser validated by TLC",
            "note": GRAM_NOTE,
            "stages": [mcgram("expr", "ops", 5, 6), mcgram("expr", "allops", 5, 6), mcgram("expr", "trav", 5, 6), mcgram("expr", "coll", 5, 6),
                       mcgram("expr", "for", 6, 7), mcgram("expr", "forx", 13, 15), mcgram("expr", "lit", 5, 6), gram("expr")]},
    "C08": {"technique": "TLC enumerates expressions with their free references (and checks that they suffice for evaluation), replayed on the real code; random expressions recorded with reported variables validated by TLC",
            "note": "exhaustive for two constructs around every leaf; deeper expressions are random; each is also evaluated with only the reported names in scope",
            "stages": [{"kind": "mc", "module": "MCRefs", "inv": ["EmitRefs", "Suffices"], "replay": "refs", "min_cases": 50000,
                        "consts": {"Depth": 2, "Siblings": '"small"', "Unknowns": "FALSE", "Full": "FALSE"}, "thorough": {"Siblings": '"large"'}},
                       {"kind": "trace", "record": "refs", "n": {"quick": 6000, "thorough": 40000}, "module": "RefsTrace", "inv": ["Validate"]}]},
    "C09": {"technique": "TLC enumerates texts with the tokens and positions the scanner machine gives them (tiling checked as invariant), replayed on the real scanner; random nested texts recorded from the scanner validated by TLC",
            "note": "every text up to the length bound over nine alphabets; longer texts with nested quotes, heredocs and interpolations are random and mutated",
            "stages": [mcscan("main", "tmpl", 5, 6), mcscan("bare", "tmpl", 5, 6), mcscan("main", "ctl", 5, 6), mcscan("bare", "ctl", 4, 5), mcscan("main", "doc", 4, 5), mcscan("main", "doc2", 4, 5),
                       mcscan("main", "ops", 4, 5), mcscan("main", "num", 4, 6), mcscan("main", "lines", 4, 5), mcscan("main", "bytes", 4, 5), mcscan("bare", "bytes", 4, 5), mcscan("ident", "ident", 4, 5),
                       {"kind": "trace", "record": "scan", "n": {"quick": 10000, "thorough": 80000}, "module": "ScanTrace", "inv": ["Validate"]}]},
    "C10": {"technique": "TLC enumerates texts over mixed alphabets, decides acceptance and the tree for each, replayed on every parsing entry point (ranges and absence of panics included); random and damaged texts recorded from the parsers validated by TLC",
            "note": "every text up to the bound over two alphabets of significant characters in three modes; longer texts are random derivations, half of them damaged",
            "stages": [mcrob("body", "mix", 4), mcrob("expr", "mix", 4), mcrob("bare", "mix", 4), mcrob("body", "any", 4), mcrob("expr", "any", 4), mcrob("bare", "any", 3), front("any", 6000)]},
    "C11": {"technique": "TLC composes the scanner, grammar and evaluation models into the meaning of every bounded template text, replayed on the real parser and evaluator; random templates recorded from the real code validated by TLC",
            "note": FRONT_NOTE,
            "stages": [mcfront("expr", "lit", 4), mcfront("expr", "esc", 4), mcfront("expr", "strip", 4), mcfront("expr", "nest", 5),
                       mcfront("bare", "lit", 4), mcfront("bare", "strip", 5), mcfront("bare", "ctl", 4), mcfront("bare", "ctlerr", 4), front("tmpl", 8000)]},
    "C12": {"technique": "TLC composes the scanner, grammar and evaluation models into the meaning of every bounded heredoc, replayed on the real parser and evaluator; random heredocs recorded from the real code validated by TLC",
            "note": FRONT_NOTE,
            "stages": [mcfront("expr", "doc", 4), mcfront("expr", "docx", 4), mcfront("expr", "docstrip", 5), front("doc", 8000)]},
    "C13": {"technique": "TLC enumerates character sequences with acceptance and value by the JSON grammar, replayed on the real parser; random and damaged documents recorded from the parser validated by TLC",
            "note": "every text up to the bound over seven alphabets (structure, commas, root, numbers, words, strings, escapes); longer documents are random, a third of them damaged",
            "stages": [mcjson("struct", 5), mcjson("comma", 5), mcjson("root", 3), mcjson("num", 4), mcjson("word", 3), mcjson("str", 3), mcjson("esc", 4),
                       {"kind": "trace", "record": "json", "n": {"quick": 10000, "thorough": 80000}, "module": "JsonTrace", "inv": ["Validate"]}]},
    "C14": {"technique": "TLC enumerates JSON values over a pool of strings with their literal value, template value, variables and static analyses, replayed on real JSON expressions; random values recorded from the real code validated by TLC",
            "note": "exhaustive for arrays and objects of up to two members over the pools; nested values with random templates are seeded samples",
            "stages": [{"kind": "mc", "module": "MCJsonExpr", "inv": ["EmitCase", "Suffices"], "replay": "jsonexpr", "min_cases": 1500,
                        "consts": {"Size": 2}},
                       {"kind": "trace", "record": "jsonexpr", "n": {"quick": 6000, "thorough": 40000}, "module": "StaticTrace", "inv": ["Validate"]}]},
    "C15": {"technique": "TLC enumerates edit histories over a pool of files, predicting tokens and everything readable after each edit (one argument per name and item per line are invariants), replayed on the real writer with random spacing; random longer histories recorded from the writer validated step by step by TLC",
            "note": "every history of two edits (three over a smaller alphabet) on every file of the pool; longer histories over random nested files; the saved text is parsed after every edit",
            "stages": [mcwrite("wide", 2), mcwrite("narrow", 3, "thorough"),
                       {"kind": "trace", "record": "write", "n": {"quick": 3000, "thorough": 50000}, "module": "WriteTrace", "inv": ["Validate"]}]},
    "C16": {"technique": "TLC enumerates configuration texts with the arguments, references and blocks each lists, replayed on the loading and saving of the real writer; random configurations recorded from the writer validated by TLC",
            "note": "every text up to the bound over two alphabets; on every case the tokens written back are compared with the source and the saved text with its formatting; longer texts are random, a sixth of them damaged",
            "stages": [mcload("lines", 4), mcload("expr", 4),
                       {"kind": "trace", "record": "load", "n": {"quick": 8000, "thorough": 60000}, "module": "LoadTrace", "inv": ["Validate"]}]},
    "C17": {"technique": "TLC computes the canonical layout of every bounded token sequence, replayed on the real formatter with random original spacing; random configurations recorded from the formatter validated by TLC; token and meaning preservation and stability checked on every case",
            "note": "every token sequence up to the bound over four alphabets; longer configurations are random, a fifth of them damaged",
            "stages": [mcformat("lines", 5), mcformat("cells", 5), mcformat("ops", 4), mcformat("tmpl", 4),
                       {"kind": "trace", "record": "format", "n": {"quick": 6000, "thorough": 50000}, "module": "FormatTrace", "inv": ["Validate"]}]},
    "C18": {"technique": "TLC enumerates strings, values and reference paths, checks that its own writer and reader are inverse, and replays each on the real writer, parser and evaluator; random values over the whole of Unicode recorded from the real code validated by TLC",
            "note": "every string up to the bound over two alphabets, structured values of two levels, paths of three steps; four ways of writing each",
            "stages": [mcvalue("esc", 4), mcvalue("uni", 3), mcvalue("struct", 0), mcvalue("path", 2),
                       {"kind": "trace", "record": "value", "n": {"quick": 20000, "thorough": 150000}, "module": "ValueTrace", "inv": ["Validate"]}]},
    "C19": {"technique": "TLC computes the decoded value, errors, implied type, schema, leftovers and variables for every specification and body of the pools and checks that the value conforms to the implied type; each is replayed on the real decoder; random specifications with fitting native, JSON and merged bodies recorded from the real decoder validated by TLC",
            "note": "about 60 flat and 190 block specifications against every body of a pool; deeper nestings are random",
            "stages": [mcdec("flat", 2), mcdec("block", 2),
                       {"kind": "trace", "record": "dec", "n": {"quick": 12000, "thorough": 100000}, "module": "DecTrace", "inv": [], "consts": {"What": '"val"'}}]},
    "C20": {"technique": "TLC computes the names needed by decoding and by expansion for every specification and body of the pools, replayed on the real variable walks; random specifications and bodies with nested dynamic blocks recorded from the real code validated by TLC; every case is decoded again with only the reported names in scope",
            "note": "pools of C19 and C22; nestings beyond two levels are random",
            "stages": [mcdec("flat", 2, "decvars"), mcdec("block", 2, "decvars"),
                       mcdyn("dec", "dynvars"),
                       {"kind": "trace", "record": "decvars", "n": {"quick": 8000, "thorough": 60000}, "module": "DecTrace", "inv": [], "consts": {"What": '"vars"'}},
                       {"kind": "trace", "record": "dynvars", "n": {"quick": 4000, "thorough": 60000}, "module": "DynTrace", "inv": [], "consts": {"What": '"vars"'}}]},
    "C21": {"technique": "TLC decodes every body of a pool into every structure type of a pool and writes every structure value of a pool (reading the written body back, and losing nothing to the remaining body, are invariants), replayed on the real code with structure types made by reflection; random structure types, bodies and values recorded from the real code validated by TLC",
            "note": "argument types of two levels, blocks of every kind with labels and nested blocks, remaining bodies of every kind; native, JSON and merged bodies; deeper structures are random; values after an error are left open",
            "stages": [{"kind": "mc", "module": "MCStruct", "inv": ["EmitCase", "Complete"], "replay": "struct", "min_cases": 5000, "consts": {"Group": '"args"'}},
                       {"kind": "mc", "module": "MCStruct", "inv": ["EmitCase", "Complete"], "replay": "struct", "min_cases": 5000, "consts": {"Group": '"blocks"'}},
                       {"kind": "mc", "module": "MCStruct", "inv": ["EmitCase", "RoundTrip"], "replay": "structenc", "min_cases": 1000, "consts": {"Group": '"encode"'}},
                       {"kind": "trace", "record": "struct", "n": {"quick": 4000, "thorough": 100000}, "module": "StructTrace", "inv": []},
                       {"kind": "trace", "record": "structenc", "n": {"quick": 6000, "thorough": 60000}, "module": "StructTrace", "inv": []}]},
    "C22": {"technique": "TLC substitutes iterators and reads the written-out body for every body of a pool with dynamic blocks, under specifications and histories of schema reads, replayed on the real expansion; random bodies with nested dynamic blocks recorded from the real code validated by TLC",
            "note": "every body of the pools (collections, iterators, label expressions, shadowing, two levels, native and JSON) with eleven specifications, and every history of three reads over seven schemas; deeper nestings are random",
            "stages": [mcdyn("dec", "dyn"), mcdyn("read", "dynread"),
                       {"kind": "trace", "record": "dyn", "n": {"quick": 4000, "thorough": 60000}, "module": "DynTrace", "inv": [], "consts": {"What": '"val"'}},
                       {"kind": "trace", "record": "dynread", "n": {"quick": 4000, "thorough": 60000}, "module": "DynReadTrace", "inv": []}]},
    "C23": {"technique": "TLC checks that every small set of source ranges survives the packed encoding, and the sets, and arbitrary packed positions with numbers out of bounds, are replayed on the real encoder and decoder; histories of reads of random configurations in their original, packed and stored forms, and their positions, recorded from the real code validated by TLC; damaged stored data must give an error or a usable body",
            "note": "every pair of ranges over seven positions of three files, triples over a smaller pool; every three chunks of position data with every pair of numbers",
            "stages": [{"kind": "mc", "module": "MCPack", "inv": ["EmitCase", "RoundTrip"], "replay": "pack", "min_cases": 3000, "consts": {"MaxRanges": 3, "Mode": '"sets"'}},
                       {"kind": "mc", "module": "MCPack", "inv": ["EmitCase"], "replay": "pack", "min_cases": 10000, "consts": {"MaxRanges": 0, "Mode": '"reads"'}},
                       {"kind": "trace", "record": "pack", "n": {"quick": 6000, "thorough": 60000}, "module": "BothTrace", "inv": []},
                       {"kind": "trace", "record": "packplace", "n": {"quick": 3000, "thorough": 30000}, "module": "PackTrace", "inv": []},
                       {"kind": "trace", "record": "packbad", "n": {"quick": 30000, "thorough": 300000}}]},
    "C24": {"technique": "TLC explores every history of parse, add and file-change steps and checks that names keep their file and report once; each history is replayed on a real parser over a scratch directory; random longer histories recorded from real parsers validated by TLC step by step",
            "note": "every history of three calls over two names and five kinds of file; longer histories are random; files change on disk between calls",
            "stages": [{"kind": "mc", "module": "MCParser", "inv": ["EmitCase", "Once", "Quiet"], "replay": "parser", "min_cases": 5000,
                        "consts": {"N": 3}, "thorough": {"N": 4}},
                       {"kind": "trace", "record": "parser", "n": {"quick": 4000, "thorough": 40000}, "module": "ParserTrace", "inv": []}]},
    "C25": {"technique": "TLC enumerates every pair of ranges, every slice and every text with every way of splitting it, checks the set laws and the tiling law on the model and replays each on the real code; random texts and splits recorded from the real scanner validated by TLC piece by piece",
            "note": "every pair of ranges up to eight bytes and two files, every text up to the bound over seven characters; longer texts are random",
            "stages": [mcrange("pairs", 7, 11), mcrange("slices", 6, 12), mcrange("scan", 4, 5),
                       {"kind": "trace", "record": "range", "n": {"quick": 8000, "thorough": 60000}, "module": "RangeTrace", "inv": []}]},
    "C26": {"technique": "TLC enumerates texts as reference paths and as expressions with every static analysis and the resolved value (agreement of both readings is an invariant), replayed on the real code; random texts recorded from the real code validated by TLC",
            "note": "every text up to the bound over three alphabets; splitting, joining and relative reading are compared on the real traversals of every case; longer texts are random",
            "stages": [mcstatic("steps", 4), mcstatic("keys", 4), mcstatic("forms", 4),
                       {"kind": "trace", "record": "static", "n": {"quick": 8000, "thorough": 60000}, "module": "StaticTrace", "inv": ["Validate"]}]},
    "C27": {"technique": "TLC checks every interleaving of the steps of concurrent splat evaluations, and every interleaving is replayed step by step on the real evaluator through hooks at its steps on shared state; random expressions evaluated by four threads at once under the race detector, the result of each validated by TLC against the evaluation model; shared bodies and specifications decoded by four threads at once",
            "note": "two evaluations of two items, nested and not, and three evaluations of one item: all interleavings; contexts apart, with a common parent, and inheriting the value; outside of splats interleavings are those that happen to occur",
            "stages": [{"kind": "mc", "module": "MCSplat", "inv": ["EmitCase", "Alone", "Clean"], "replay": "splat", "race": True, "min_cases": 500, "consts": {"Threads": "{1, 2}", "Keyed": "TRUE", "Inner": "FALSE", "Shape": '"R22"'}},
                       {"kind": "mc", "module": "MCSplat", "inv": ["EmitCase", "Alone", "Clean"], "replay": "splat", "race": True, "min_cases": 5000, "consts": {"Threads": "{1, 2}", "Keyed": "TRUE", "Inner": "TRUE", "Shape": '"R2"'}},
                       {"kind": "mc", "module": "MCSplat", "inv": ["EmitCase", "Alone", "Clean"], "replay": "splat", "race": True, "min_cases": 3000, "consts": {"Threads": "{1, 2, 3}", "Keyed": "TRUE", "Inner": "FALSE", "Shape": '"R1"'}},
                       {"kind": "trace", "record": "conc", "n": {"quick": 6000, "thorough": 60000}, "race": True, "module": "ExprTrace", "inv": ["Validate"]},
                       {"kind": "trace", "record": "concdec", "n": {"quick": 1500, "thorough": 15000}, "race": True}]},
    "C28": {"technique": "TLC reads every text of fragments as a type in both syntaxes and prints every type of two levels (reading the print back is an invariant), replayed on the real code; random texts and types recorded from the real code validated by TLC",
            "note": "every text up to the bound over two sets of fragments, every type of two levels over a pool of names; deeper types are random; repeated attribute names, attribute names in parentheses and argument expansion are left open",
            "stages": [mctype("forms", 3, 4), mctype("nest", 4, 6), mctype("types", 0, 0),
                       {"kind": "trace", "record": "typeexpr", "n": {"quick": 8000, "thorough": 60000}, "module": "TypeExprTrace", "inv": ["Validate"]}]},
    "C29": {"technique": "TLC evaluates every call of every function of a pool in three kinds of context, and every pair of valid and invalid definitions, replayed on the real decoder and functions in both syntaxes; random definitions with random result expressions and calls recorded from the real code validated by TLC",
            "note": "every parameter list, variadic parameter and result of the pools with every list of up to three arguments; functions calling earlier functions and larger results are random; null and unknown arguments and repeated names are left open",
            "stages": [mcfunc("calls"), mcfunc("defs"),
                       {"kind": "trace", "record": "userfunc", "n": {"quick": 6000, "thorough": 60000}, "module": "UserFuncTrace", "inv": []}]},
    "C30": {"technique": "TLC enumerates transformations, resolvers, bodies with inclusions and histories of reads, checks that every body is transformed once, its warnings are seen and no inclusion is left, and the histories are replayed on the real transformers with maps, functions and real files; random include graphs and histories recorded from the real code validated by TLC",
            "note": "every pair of items of the pool under every transformation and resolver; three reads in a row for single items; real files only in a scratch directory; inclusions at the top of an included body and what remains after a failed read are left open",
            "stages": [mcinc(2, 1), mcinc(1, 2), dict(mcinc(1, 3), tier="thorough"),
                       {"kind": "trace", "record": "include", "n": {"quick": 6000, "thorough": 60000}, "module": "IncludeTrace", "inv": []}]},
    "C32": {"technique": "TLC computes the text printed for every source text with every subject and context range in it, and the readings of every history of additions to a collection, replayed on the real code; random diagnostics over longer sources, widths and scopes recorded from the real code validated by TLC",
            "note": "every text up to the bound over five characters with every range; longer sources, word wrapping, unknown files and variable listings are random; the mark of an empty subject before a character of several bytes is left open",
            "stages": [mcdiag("print", 4, 5), mcdiag("list", 3, 4),
                       {"kind": "trace", "record": "diag", "n": {"quick": 8000, "thorough": 60000}, "module": "DiagTrace", "inv": []}]},
    "C31": {"technique": "TLC lays out every small configuration, checks that constructs nest, and the ranges of all constructs and the result of every lookup at every position are compared with the real parser; random configurations with comments, line breaks and multi-byte characters recorded from the real parser validated by TLC",
            "note": "every expression form over every operand form, in four arrangements of items with and without blanks; native syntax; text between control sequences of a template has no range of its own in the model",
            "stages": [{"kind": "mc", "module": "MCPlace", "inv": ["EmitCase", "Nested", "Found"], "replay": "place", "min_cases": 5000, "consts": {"Deep": "TRUE"}},
                       {"kind": "trace", "record": "place", "n": {"quick": 4000, "thorough": 40000}, "module": "PlaceTrace", "inv": []}]},
    "C33": {"technique": "TLC explores every run of the formatting command over up to three files of every kind with every option combination, checks that nothing but the asked for is written at any step, and every run is replayed on the real command; random runs over generated texts recorded from the real command validated by TLC",
            "note": "the formatted text itself is that of the formatter package, decided by other checks; a file that needs no change but cannot be written is left open; the command runs as an unprivileged user in a scratch directory",
            "tools": ["hclfmt"],
            "stages": [{"kind": "mc", "module": "MCFmtTool", "inv": ["EmitCase", "Safe", "Again"], "replay": "fmttool", "min_cases": 1000, "consts": {"Three": "FALSE"}, "thorough": {"Three": "TRUE"}},
                       {"kind": "trace", "record": "fmttool", "n": {"quick": 1500, "thorough": 15000}, "module": "FmtToolTrace", "inv": []}]},
    "C34": {"technique": "TLC reads every small specification file, right or wrong, derives the specification, and computes the document or failure for every small input and scope, replayed on the real command; random specification files (also damaged ones), variables in every form, inputs in both syntaxes and several files, recorded from the real command validated by TLC",
            "note": "constant or missing results of transform blocks and a property given twice are left open, as is what the decoding model leaves open; user functions are declared but not called; the command runs as an unprivileged user in a scratch directory",
            "tools": ["hcldec"],
            "stages": [mcdectool("leaf"), mcdectool("wrap"), mcdectool("group"),
                       {"kind": "trace", "record": "dectool", "n": {"quick": 3000, "thorough": 30000}, "module": "DecToolTrace", "inv": [], "max_any": 0.5}]},
    "C35": {"technique": "TLC checks that the rules of the two syntaxes agree on every translation of every small configuration, and the configurations with histories of reads are replayed in the native syntax, in four JSON forms and in mixed merges; random configurations with random expressions, and random decodings, recorded in all forms from the real code validated by TLC",
            "note": "every sequence of two items of the pool with two reads; schemas and specifications that use a name as the configuration does; blocks of different types may come in another order",
            "stages": [{"kind": "mc", "module": "MCBoth", "inv": ["EmitCase", "Law"], "replay": "both", "min_cases": 5000, "consts": {"MaxItems": 2, "MaxOps": 1}},
                       {"kind": "mc", "module": "MCBoth", "inv": ["EmitCase", "Law"], "replay": "both", "min_cases": 5000, "consts": {"MaxItems": 1, "MaxOps": 2}},
                       {"kind": "trace", "record": "both", "n": {"quick": 4000, "thorough": 40000}, "module": "BothTrace", "inv": []},
                       {"kind": "trace", "record": "bothdec", "n": {"quick": 6000, "thorough": 60000}, "module": "BothDecTrace", "inv": [], "max_any": 0.5}]},
    "C36": {"technique": "TLC explores every walk of every small syntax tree and checks that walks nest, are complete and visit nothing twice; every tree is built and walked with the real code; walks of the trees of random texts, valid and damaged, recorded from the real code validated by TLC as runs of the walk machine",
            "note": "every kind of node over every small operand; the order in which the children of a node come is left open",
            "stages": [{"kind": "mc", "module": "MCWalk", "inv": ["EmitCase", "Path", "Once", "Whole"], "replay": "walk", "min_cases": 600, "consts": {"Deep": "FALSE"}, "thorough": {"Deep": "TRUE"}},
                       {"kind": "trace", "record": "walk", "n": {"quick": 4000, "thorough": 40000}, "module": "WalkTrace", "inv": []}]},
    "C37": {"technique": "TLC enumerates bodies with read histories and hand-made expressions with scopes, checks their laws, and each is replayed on the test doubles of the real package; random bodies, merges and expressions built from test doubles recorded and validated by TLC with the models that decide parsed bodies and expressions",
            "note": "whether a block with a wrong number of labels is delivered next to the error, and the value of a list of elements of different types, are left open",
            "stages": [dict(mcbody("native", 3, 2), replay="mockbody"), dict(mcbody("merge", 2, 2), replay="mockbody", min_cases=1000),
                       {"kind": "mc", "module": "MCMock", "inv": ["EmitCase", "Free", "Alike"], "replay": "mock", "min_cases": 1000},
                       {"kind": "trace", "record": "mockbody", "n": {"quick": 4000, "thorough": 40000}, "module": "BodyTrace", "consts": {"CountErrors": "TRUE"}},
                       {"kind": "trace", "record": "mock", "n": {"quick": 4000, "thorough": 40000}, "module": "MockTrace", "inv": []}]},
    "C38": {"technique": "TLC lays out every small JSON document in several layouts, checks that the parts nest and that references are where their names are written, and each text is read back with the real code comparing every range and the context at every byte; random documents in random layouts read with the real code and validated by TLC against the layout model",
            "note": "columns are compared in documents without tabs and carriage returns; places behind an escape within a string are left open",
            "stages": [{"kind": "mc", "module": "MCJPlace", "inv": ["EmitCase", "Nested", "Written"], "replay": "jplace", "min_cases": 3000, "consts": {"Deep": "FALSE"}, "thorough": {"Deep": "TRUE"}},
                       {"kind": "trace", "record": "jplace", "n": {"quick": 4000, "thorough": 40000}, "module": "JPlaceTrace", "inv": []}]},
    "C39": {"technique": "TLC computes the place of the value and the places of all problems for every specification and native body of the pools, and checks that decoding fails exactly where problems are; each is replayed on the real decoder; random specifications and bodies in several layouts recorded from the real decoder validated by TLC",
            "note": "pools of C19, native bodies; the place of a value made of several items, and of a default, is left open",
            "stages": [{"kind": "mc", "module": "MCDecPlace", "inv": ["EmitPlace", "Wrong"], "replay": "decplace", "min_cases": 1000, "consts": {"Group": '"flat"', "MaxItems": 2}},
                       {"kind": "mc", "module": "MCDecPlace", "inv": ["EmitPlace", "Wrong"], "replay": "decplace", "min_cases": 10000, "consts": {"Group": '"block"', "MaxItems": 2}, "thorough": {"MaxItems": 3}},
                       {"kind": "trace", "record": "decplace", "n": {"quick": 12000, "thorough": 100000}, "module": "DecPlaceTrace", "inv": []}]},
    "C40": {"technique": "TLC compares every pair of small decimal numerals as digit sequences (order and rewriting are laws) and each pair is evaluated with the real code by two of eight ways a written number becomes a value; random numerals of up to a hundred digits, rewritten or changed in one digit, recorded from the real code validated by TLC",
            "note": "numerals of up to about 80 digits with exponents below 30",
            "stages": [{"kind": "mc", "module": "MCNumeral", "inv": ["EmitCase", "Ordered", "Again"], "replay": "numeral", "min_cases": 10000, "consts": {"Wide": "FALSE"}, "thorough": {"Wide": "TRUE"}},
                       {"kind": "trace", "record": "numeral", "n": {"quick": 12000, "thorough": 100000}, "module": "NumeralTrace", "inv": []}]},
    "C41": {"technique": "TLC computes the decoded value, errors, implied type and schema for every specification and body of the pools, and each is replayed on the real decoder with the specification serialised and read back first; random nested specifications and bodies decoded the same way recorded and validated by TLC",
            "note": "pools of C19; specifications holding expressions, functions or undecided types cannot be serialised and are left out",
            "stages": [mcdec("flat", 2, "decgob"), mcdec("block", 2, "decgob"),
                       {"kind": "trace", "record": "decgob", "n": {"quick": 6000, "thorough": 60000}, "module": "DecTrace", "inv": [], "consts": {"What": '"val"'}}]},
    "C42": {"technique": "TLC computes what may be suggested for every unknown name of every small body, schema and scope and for every word near a keyword, checking nearness against a table of edit distances; each is replayed on the real code; random names, schemas and scopes recorded from the real code validated by TLC",
            "note": "which of several near names is suggested is left open, and so are bodies read in part before",
            "stages": [{"kind": "mc", "module": "MCSuggest", "inv": ["EmitCase", "Edits", "Said"], "replay": "suggest", "min_cases": 5000, "consts": {"What": '"body"', "Wide": "FALSE"}},
                       {"kind": "mc", "module": "MCSuggest", "inv": ["EmitCase", "Edits", "Said"], "replay": "suggest", "min_cases": 500, "consts": {"What": '"scope"', "Wide": "FALSE"}, "thorough": {"Wide": "TRUE"}},
                       {"kind": "mc", "module": "MCSuggest", "inv": ["EmitCase", "Edits", "Said"], "replay": "suggest", "min_cases": 1000, "consts": {"What": '"words"', "Wide": "FALSE"}},
                       {"kind": "trace", "record": "suggest", "n": {"quick": 12000, "thorough": 100000}, "module": "SuggestTrace", "inv": []}]},
    "C43": {"technique": "TLC decides for every test and answer of the pools, and for every small directory tree, which tests are run and passed, checking that expected answers pass and any further report fails; each is replayed on the real runner with an implementation that gives these answers; random suites and answers recorded from the real runner validated by TLC",
            "note": "test files with result, type, references and diagnostics; the same reference expected at two places is left open",
            "tools": ["hclspecsuite"],
            "stages": [{"kind": "mc", "module": "MCSuite", "inv": ["EmitCase", "Faithful", "Strict"], "replay": "suite", "min_cases": 500, "consts": {"What": '"one"'}},
                       {"kind": "mc", "module": "MCSuite", "inv": ["EmitCase", "Faithful", "Strict"], "replay": "suite", "min_cases": 100, "consts": {"What": '"tree"'}},
                       {"kind": "trace", "record": "suite", "n": {"quick": 1500, "thorough": 10000}, "module": "SuiteTrace", "inv": []}]},
}
