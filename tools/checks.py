"""What each property's check explores: TLC jobs over the specification modules."""

import zlib

ALL = {21, 22, 23}
NEW = {22, 23}
WANT_ERR = lambda l: '"want":{"err"' in l
WANT_DOC = lambda l: '"want":{"err"' not in l


def job(name, module, **kw):
    kw.update(name=name, module=module)
    return kw


def sims(n, name, module, **kw):
    """n simulation runs in separate JVMs, each with its own seed"""
    return [job("%s-%d" % (name, i), module, **dict(kw)) for i in range(n)]


def q(tier, quick, thorough):
    return thorough if tier == "thorough" else quick


LEX_INV = dict(inv=["Progress", "NothingFromOpenText", "SaidAgain"], prop=["PrefixStable"])
TV_INV = ["TypeInv", "FoldInv"]


def lex_jobs(t):
    def c(n, **kw):
        return dict(dict(MaxLines=n, SIM=False, Huge=False, Times=1), **kw)
    short = lambda l: "{{LONG}}" not in l
    return ([job("lex-all", "LexGen", consts=c(q(t, 3, 4)), workers=6, min=10000, **LEX_INV),
             job("lex-huge", "LexGen", consts=c(q(t, 2, 3), Huge=True), min=50, **LEX_INV),
             job("lex-again", "LexGen", consts=c(2, Times=q(t, 3000, 20000)), min=300, keep=short, **LEX_INV),
             job("lex-long", "LexGen", consts=c(1, Times=q(t, 100000, 1000000)), min=15, keep=short, **LEX_INV)]
            + sims(q(t, 2, 6), "lex-walk", "LexGen", consts=c(q(t, 25, 60), SIM=True), sim=q(t, 800, 6000),
                   depth=q(t, 26, 61), inv=["Progress", "NothingFromOpenText", "SaidAgain"]))


def tv_jobs(keep, cut):
    def f(t):
        js = []
        for v in sorted(ALL):
            js.append(job("tv-all-%d" % v, "TVGen", consts=dict(Vers={v}, MaxLen=14, SIM=False, ErrRate=0, Alike=False), inv=TV_INV,
                          prop=["NothingLost"], view="StaleView", workers=q(t, 3, 4), keep=keep, min=3000))
            if t == "thorough":
                js.append(job("tv-states-%d" % v, "TVGen", consts=dict(Vers={v}, MaxLen=14, SIM=False, ErrRate=0, Alike=False), inv=TV_INV,
                              prop=["NothingLost"], view="ControlView", workers=4, keep=keep, min=3000))
        js += sims(q(t, 3, 6), "tv-walk", "TVGen", consts=dict(Vers=ALL, MaxLen=q(t, 70, 120), SIM=True, ErrRate=8, Alike=False),
                   sim=q(t, 400, 4000), depth=q(t, 71, 121), inv=["TypeInv"], keep=keep, min=20)
        js += sims(q(t, 1, 3), "tv-alike", "TVGen", consts=dict(Vers=ALL, MaxLen=q(t, 70, 120), SIM=True, ErrRate=2, Alike=True),
                   sim=q(t, 200, 3000), depth=q(t, 71, 121), inv=["TypeInv"], keep=keep, min=20)
        if cut:
            js += [] if keep is WANT_ERR else sims(1, "tv-long", "TVGen", consts=dict(Vers=ALL, MaxLen=q(t, 500, 1500), SIM=True, ErrRate=0, Alike=False),
                       sim=q(t, 16, 60), depth=q(t, 501, 1501), inv=["TypeInv"], keep=keep, min=4)
            js.append(job("tv-samples", None, source="/repo/examples/sample-docs/tv/*.spdx", trace=traced("samples", 100, 2)))
            js += [job("tv-cut-%d" % d, "TVCut", consts=dict(Vers=ALL, Doc=d), inv=["Whole"], workers=2) for d in (1, 2)]
        return js
    return f


def traced(what, n, least):
    return dict(what=what, module="TVTrace", n=n, inv=["Sound"], prop=["LexGrows"], min=least)


DOC_INV = dict(tv=["TVIdempotent", "OrderIrrelevant"], json=["JsonIdempotent"], yaml=["JsonIdempotent"], pure=["OrderIrrelevant"],
               conv=["UpDown", "ConvertCommutes"], cross=["TVIdempotent", "JsonIdempotent"])


def doc_jobs(mode, vers=ALL):
    """documents of every shape for one way of treating them"""
    def f(t):
        def c(shape, **kw):
            d = dict(Vers=vers, Shape=shape, Mode=mode, MaxLen=0, MaxElems=q(t, 4, 5), SameEnt=True)
            d.update(kw)
            return d
        inv = dict(inv=DOC_INV[mode])
        js = [job(mode + "-field", "DocGen", consts=c("field"), workers=4, min=3000, **inv),
              job(mode + "-pair", "DocGen", consts=c("pair", SameEnt=q(t, True, False)), workers=4, min=3000, **inv),
              job(mode + "-list", "DocGen", consts=c("list"), workers=2, min=300, **inv),
              job(mode + "-alike", "DocGen", consts=c("alike"), workers=2, min=20, **inv),
              job(mode + "-struct", "DocGen", consts=c("struct"), workers=4, min=1500, **inv)]
        n = q(t, 25, 60)
        js += sims(q(t, 2, 6), mode + "-walk", "DocGen", consts=c("walk", MaxLen=n), sim=q(t, 400, 3000), depth=n + 1, min=300)
        if mode == "tv":
            for i, j in enumerate(js):
                j["trace"] = traced("written", q(t, 600 if "walk" not in j["name"] else 150, 10000), 20 if "alike" in j["name"] else 100)
        most = dict(tv=500, json=1000, yaml=500, conv=1000, cross=200, pure=500)[mode]
        js.append(job(mode + "-bulk", "DocGen", consts=c("bulk", MaxElems=q(t, most, 3 * most)), workers=3, min=2, timeout=1500))
        if mode == "yaml":
            js += shape_jobs(t)[:1]
        if t == "thorough":
            js += sims(1, mode + "-long", "DocGen", consts=c("walk", MaxLen=200), sim=200, depth=201, min=200)
        return js
    return f


def shape_jobs(t):
    inv = dict(inv=["TypeOK", "Faithful"], prop=["NeverMended"])
    return ([job("shape-all", "TreeShape", consts=dict(Vers=ALL, MaxSteps=1, SIM=False), workers=4, min=6000, **inv)]
            + sims(q(t, 2, 6), "shape-walk", "TreeShape", consts=dict(Vers=ALL, MaxSteps=q(t, 6, 12), SIM=True), sim=q(t, 150, 3000),
                   depth=q(t, 7, 13), inv=["TypeOK", "Faithful"], min=1000)
            + [job("shape-cut", "TreeCut", consts=dict(Vers=ALL), workers=2, min=150, inv=["OnlySpace"], prop=["NeverMended"])])


def rel_jobs(t):
    inv = dict(inv=["ExactlyOnce", "NothingInvented"])
    c = lambda **kw: dict(dict(Vers=NEW, Rich=False, SIM=False, Many=0), **kw)
    return ([job("rels-two", "Rels", consts=c(MaxEntries=2, MaxExpl=2), workers=3, min=10000, **inv),
             job("rels-lists", "Rels", consts=c(MaxEntries=q(t, 4, 5), MaxExpl=1), workers=4, min=50000, **inv)]
            + sims(q(t, 2, 6), "rels-walk", "Rels", consts=c(MaxEntries=q(t, 14, 40), MaxExpl=0, Rich=True, SIM=True),
                   sim=q(t, 1000, 20000), depth=q(t, 15, 41), min=1000, **inv)
            + [job("rels-bulk", "Rels", consts=c(MaxEntries=q(t, 300, 1000), MaxExpl=0, Rich=True, SIM=True, Many=q(t, 100, 400)), sim=q(t, 10, 20), depth=q(t, 301, 1001), min=8)])


def ident_jobs(t):
    return ([job("ident-all", "Ident", consts=dict(MaxPieces=q(t, 3, 4), SIM=False), workers=6, min=100000,
                 inv=["RoundTrip", "PrefixOnce", "NothingElse"])]
            + sims(q(t, 1, 4), "ident-walk", "Ident", consts=dict(MaxPieces=q(t, 8, 14), SIM=True), sim=q(t, 500, 2000),
                   depth=q(t, 9, 15), inv=["RoundTrip", "PrefixOnce"]))


def dispatch_jobs(t):
    return [job("dispatch-" + f, "Dispatch", consts=dict(Formats={f}), workers=3, min=500,
                inv=["StoredOnlyWhole", "RightVersion", "SameVersion"], prop=["Terminates"]) for f in ("tv", "json", "yaml", "rdf")]


def offer_jobs(t):
    good = {"v21", "v22", "v23", "v21 held", "v22 held", "v23 held"}
    none = {"a value", "a nil pointer", "nothing", "a pointer to a number", "a pointer to a pointer", "a pointer to a part", "a pointer to anything", "a map", "a text"}
    # texts on both sides of the length at which what is refused is cut short in the message, in bytes and in characters
    near = {0, 1, 5, 12, 14, 74, 101, 102, 150, 250, 299, 300, 303, 304, 5000}
    lengths = set(range(0, 320)) | {600, 1200, 5000, 70000} if t == "thorough" else near
    inv = ["RefusedWhole", "OnlyDocuments", "AsAsked"]
    return [job("offer-write", "Offer", consts=dict(MaxPointers=q(t, 3, 6), Lengths=lengths, Targets={"tagvalue"}), inv=inv, workers=3, min=5000),
            job("offer-convert", "Offer", consts=dict(MaxPointers=q(t, 2, 3), Lengths=q(t, {0, 1, 14, 150, 304}, near), Targets=good), inv=inv, workers=3, min=5000),
            job("offer-nowhere", "Offer", consts=dict(MaxPointers=2, Lengths={0, 14, 304}, Targets=none), inv=inv, workers=3, min=5000),
            job("offer-ends", "Offer", consts=dict(MaxPointers=2, Lengths={1}, Targets=good | none | {"tagvalue"}), inv=inv, prop=["Answered"], workers=2, min=1000)]


def analyzed_jobs(t):
    inv = dict(inv=["Survives", "Remembered", "Whole"], prop=["StaysStated"], workers=4, min=5000)
    js = [job("analyzed-chains", "Analyzed", consts=dict(MaxSteps=3, MaxPkgs=q(t, 2, 3)), **inv),
          job("analyzed-long", "Analyzed", consts=dict(MaxSteps=q(t, 4, 6), MaxPkgs=1), **inv)]
    return js


def tree_jobs(t):
    inv = ["WellFormed", "NeverTwice", "WalkComplete"]
    c = lambda **kw: dict(dict(Names={"a", "b"}, Contents={"", "x"}, Depth=3, MaxOps=4, SIM=False, Many=0), **kw)
    odd = {"a", "A", "b", "tree", "..x", ".h", "a b", "{{U}}", "a{{NL}}b", "-", "x.y", "{{CTL}}", "a\\\\b", " ", "%41", "~", "[a]", "..."}
    usual = {".git", ".gitignore", ".DS_Store", "node_modules", "vendor", ".svn", "CVS", "LICENSE", "go.mod", "a.spdx", "a.spdx.json", "Thumbs.db", "a~", "#a#", "__pycache__", ".hidden", "testdata", "lost+found"}
    return ([job("tree-all", "Tree", consts=c(), inv=inv, workers=6, min=3000),
             job("tree-ends", "Tree", consts=c(Depth=2, MaxOps=q(t, 3, 4)), inv=inv, prop=["WalkEnds"], workers=2, min=50)]
            + ([job("tree-deep", "Tree", consts=c(Contents={"x"}, MaxOps=5), inv=inv, workers=6, min=10000)] if t == "thorough" else [])
            + sims(q(t, 1, 6), "tree-walk", "Tree", consts=c(Names=odd, Contents={"", "x", "{{U}}", "bin", "big"}, Depth=4, MaxOps=30, SIM=True),
                   sim=q(t, 40, 500), depth=33, min=20, inv=["WellFormed"])
            + sims(q(t, 1, 4), "tree-usual", "Tree", consts=c(Names=usual, Contents={"", "x", "hard"}, Depth=3, MaxOps=40, SIM=True),
                   sim=q(t, 40, 400), depth=43, min=20, inv=["WellFormed"])
            + [job("tree-wide", "Tree", consts=c(Names={"n%d" % i for i in range(q(t, 150, 400))}, Contents={"", "x", "hard"}, Depth=2, MaxOps=q(t, 300, 800), SIM=True),
                   sim=q(t, 2, 5), depth=q(t, 303, 803), min=2, inv=["WellFormed"]),
               job("tree-many", "Tree", consts=c(Names={"d1"}, Contents={"x"}, Depth=1, MaxOps=0, Many=q(t, 2100, 21000)), min=1, keep=lambda l: '"tree"' in l),
               job("tree-own", "Tree", consts=c(Names={"f", "{{ROOT}}"}, Contents={"x"}, Depth=2, MaxOps=3), inv=inv, workers=2, min=200),
               job("tree-huge", "Tree", consts=c(Names={"a"}, Contents={"huge"}, Depth=1, MaxOps=1), min=5),
               job("tree-narrow", "Tree", consts=c(Names={"a", "b"}, Contents={"x"}, Depth=60, MaxOps=50, SIM=True), sim=q(t, 20, 200), depth=53, min=10, inv=["WellFormed"])])


def ignore_jobs(t):
    c = lambda **kw: dict(dict(Names={"a", "ab", "b"}, Depth=1, MaxPats=2, SIM=False), **kw)
    inv = ["EveryPatternCounts", "DeepCovers"]
    return ([job("ignore-pairs", "IgnoreGen", consts=c(), inv=inv, workers=6, min=4000),
             job("ignore-deep", "IgnoreGen", consts=c(Depth=q(t, 2, 3), MaxPats=1), inv=inv + ["WholeNames"], workers=2, min=60)]
            + [job("ignore-odd", "IgnoreGen", consts=c(Names={"a", "A", "[a]", "?"}, MaxPats=1), inv=inv, workers=2, min=50),
               job("ignore-odd-deep", "IgnoreGen", consts=c(Names={"a.b", "a+b", "axb"}, Depth=2, MaxPats=1), inv=inv, workers=2, min=60)]
            + sims(q(t, 1, 6), "ignore-many", "IgnoreGen", consts=c(Depth=2, MaxPats=8, SIM=True), sim=q(t, 60, 2000), depth=9, min=50, inv=inv))


def code_jobs(t):
    c = lambda **kw: dict(dict(Names={"./a", "./A", "a"}, Sums={"0A", "a0", "B"}, MaxFiles=2, SIM=False, Every=1), **kw)
    inv = ["OrderIrrelevant", "OthersIrrelevant", "ExcludedIrrelevant"]
    return ([job("code-all", "VerifCode", consts=c(), inv=inv, workers=6, min=8000)]
            + ([job("code-three", "VerifCode", consts=c(Sums={"0a", "b"}, MaxFiles=3), inv=inv, workers=6, min=20000)] if t == "thorough" else [])
            + sims(q(t, 1, 4), "code-walk", "VerifCode", consts=c(Names={"./a", "./b", "./B", "./c", "./d/a", "./d/../a", ".//a", "./a/", "/a", "a", "./{{U}}", "./a b", "./a,b", "./a ", "./e", "./*"},
                   Sums={"0a", "a0", "A0", "b", "B", "0a0", "ff", "F", ""}, MaxFiles=8, SIM=True), sim=q(t, 100, 2000), depth=9, min=50)
            + [job("code-bulk", "VerifCode", consts=c(Names={"./n%d" % i for i in range(q(t, 200, 500))}, Sums={"%04x" % (i * 7919 % 65536) for i in range(40)},
                   MaxFiles=q(t, 180, 450), SIM=True, Every=45), sim=q(t, 4, 20), depth=q(t, 181, 451), min=10)])


def search_jobs(t):
    inv = ["Whole", "UnionExact", "LineOrderIrrelevant"]
    c = lambda **kw: dict(dict(MaxLines=2, MaxFiles=1, SIM=False, Filler="{{LONG}}"), **kw)
    return ([job("search-all", "IdSearch", consts=c(), inv=inv, workers=6, min=7000),
             job("search-huge", "IdSearch", consts=c(Filler="{{HUGE}}" * q(t, 4, 9), MaxLines=1), keep=lambda l: "{{HUGE}}" in l, min=10)]
            + sims(q(t, 1, 6), "search-walk", "IdSearch", consts=c(MaxLines=5, MaxFiles=6, SIM=True), sim=q(t, 100, 2000), depth=30, min=50, inv=inv)
            + [job("search-bulk", "IdSearch", consts=c(MaxLines=q(t, 150, 600), MaxFiles=4, SIM=True), sim=q(t, 3, 10), depth=q(t, 300, 1200), min=3,
                   keep=lambda l: zlib.crc32(l.encode()) % q(t, 20, 50) == 0)])


def diff_jobs(t):
    c = lambda **kw: dict(dict(Names={"./a", "./b", "./{{U}}"}, Lics={"MIT", "ISC", "NOASSERTION"}, MaxFiles=2, SIM=False, Every=1), **kw)
    inv = ["Partition", "Swap", "Itself"]
    return ([job("diff-all", "LicDiff", consts=c(), inv=inv, workers=6, min=4000)]
            + ([job("diff-three", "LicDiff", consts=c(Lics={"MIT", "ISC"}, MaxFiles=3), inv=inv, workers=6, min=6000)] if t == "thorough" else [])
            + sims(q(t, 1, 4), "diff-walk", "LicDiff", consts=c(Names={"./a", "./b", "./c/a", "./{{U}}", "a", "./A", "/a"},
                   Lics={"MIT", "mit", "ISC", "NOASSERTION", "NONE", "MIT OR ISC"}, MaxFiles=6, SIM=True), sim=q(t, 200, 3000), depth=14, min=100, inv=inv)
            + [job("diff-bulk", "LicDiff", consts=c(Names={"./n%d" % i for i in range(q(t, 150, 300))}, MaxFiles=q(t, 120, 250), SIM=True, Every=40), sim=q(t, 4, 20), depth=q(t, 241, 501), min=10)])


def report_jobs(t):
    c = lambda **kw: dict(dict(Lics={"MIT", "ISC OR MIT", "NOASSERTION", "", "NONE"}, MaxFiles=5, SIM=False, Every=1), **kw)
    inv = ["Total", "Each"]
    return ([job("report-all", "Report", consts=c(MaxFiles=q(t, 5, 6)), inv=inv, workers=6, min=3000)]
            + sims(q(t, 1, 4), "report-walk", "Report", consts=c(Lics={"MIT", "ISC OR MIT", "NOASSERTION", "", "NONE", "mit", "LicenseRef-1", "Zlib", "noassertion", "0BSD", "MIT AND NOASSERTION", "LicenseRef-NOASSERTION", "(MIT)", "%d MIT", "1  MIT", "NOASSERTION-1", "none", "TOTAL", "TOTAL FOUND", "{{U}}"},
                   MaxFiles=40, SIM=True), sim=q(t, 200, 3000), depth=41, min=100, inv=inv)
            + [job("report-bulk", "Report", consts=c(Lics={"L-%d" % i for i in range(60)} | {"", "NOASSERTION"}, MaxFiles=q(t, 1200, 5000), SIM=True, Every=300), sim=q(t, 4, 20),
                   depth=q(t, 1201, 5001), min=10)])


def lib_jobs(t):
    inv = dict(inv=["OnlyPackages", "Ascending", "BothWays"])
    c = lambda **kw: dict(dict(PkgLists={1, 2, 3, 4, 5, 6}, MaxRels=1, SIM=False, Every=1), **kw)
    return ([job("lib-one", "Lib", consts=c(), workers=4, min=4000, prop=["InvalidStays"], **inv)]
            + ([job("lib-two", "Lib", consts=c(PkgLists={3, 4}, MaxRels=2), workers=6, min=100000, **inv)] if t == "thorough" else [])
            + sims(q(t, 2, 6), "lib-walk", "Lib", consts=c(MaxRels=8, SIM=True), sim=q(t, 300, 5000), depth=9, min=100, **inv)
            + [job("lib-bulk", "Lib", consts=c(PkgLists={6}, MaxRels=q(t, 300, 600), SIM=True, Every=50), sim=q(t, 4, 20), depth=q(t, 301, 601), min=10)])


def io_jobs(t):
    inv = ["Reported", "WholeOrError", "NoFalseAlarm"]
    def j(name, mode, n, sizes, vers=ALL, **kw):
        return job(name, "IOFault", consts=dict(N=n, Vers=vers, Mode=mode, Sizes=sizes), inv=inv, workers=4, min=100, **kw)
    return [j("io-pieces", "pieces", q(t, 4, 5), {"small"}), j("io-big", "pieces", q(t, 2, 3), {"big"}, prop=["Returns"]),
            j("io-places", "places", q(t, 100, 1200), {"small"}, NEW if t == "quick" else ALL),
            j("io-far", "places", q(t, 25, 150), {"big"})]


def shared_jobs(t):
    def j(name, g, mode, vers, orders="sorted", **kw):
        return job(name, "Shared", consts=dict(G=g, Vers=vers, Mode=mode, InPlace=False, Orders={orders}, SIM="sim" in kw),
                   inv=["AsAlone", "Unchanged"], workers=3, confirm=4, **kw)
    return ([j("shared-free", 2, "free", ALL, min=300), j("shared-gates", 2, "gates", q(t, {23}, ALL), min=1000),
             j("shared-unsorted", 2, "free", q(t, {23}, ALL), orders="shuffled", min=100)]
            + [j("shared-cold", 2, "cold", ALL, min=300)]
            + ([j("shared-three", 3, "free", {23}, min=1000)] if t == "thorough" else [])
            + [j("shared-crowd", 8, "free", ALL, sim=q(t, 60, 1000), depth=12, min=40),
               j("shared-orders", 6, "gates", ALL, sim=q(t, 60, 1500), depth=25, min=80)])


# The RDF loader numbers blank nodes from several goroutines at once (known finding gordf-parser-race), so each
# text is read on one processor, and a result that cannot be had again from the same text is not held against the reader.
RDF = dict(env={"GOMAXPROCS": "1"}, confirm=6, unrepeated=True)


def rdf_jobs(t):
    def j(name, shape, vers, cat=(1,), edges=0, repeats=0, **kw):
        return job(name, "RdfGraph", consts=dict(Vers=vers, Shape=shape, MaxEdges=edges, MaxRepeats=repeats, Catalogue=set(cat)),
                   inv=["Reached", "Complete", "OncePerOwner", "Emitted"], **dict(RDF, **kw))
    big = t == "thorough"
    js = [j("rdf-orders", "orders", {22}, (1, 2, 3, 5, 8), workers=3, min=5000), j("rdf-orders-23", "orders", {23}, (1, 2), workers=2, min=400),
          j("rdf-repeats", "orders", {23}, (2,), repeats=q(t, 1, 2), workers=2, min=500),
          j("rdf-edges", "edges", q(t, {22}, NEW), edges=3, workers=3, min=5000), j("rdf-edges-23", "edges", {23}, edges=2, min=300),
          j("rdf-fields-22", "fields", {22}, workers=2, min=1500), j("rdf-fields-23", "fields", {23}, workers=2, min=2000),
          j("rdf-faults", "faults", NEW, workers=2, min=600)]
    if big:
        js += [j("rdf-orders-%d" % i, "orders", {v}, (i,), workers=4, min=10000) for i, v in ((4, 23), (6, 22))]
        js += [j("rdf-repeats-%d" % i, "orders", {22}, (i,), repeats=1, workers=4, min=1000) for i in (1, 8)]
    js += [j("rdf-walk-%d" % i, "walk", {v}, edges=e, repeats=r, sim=q(t, 300, 4000), depth=1000, min=200)
           for i, (v, e, r) in enumerate(((22, 12, 2), (23, 12, 2), (23, 25, 4)) + (((22, 60, 6), (23, 60, 3)) if big else ()))]
    return js


LEAVES = ("resource MIT", "resource GPL-2.0", "listed Apache-2.0", "listed no id", "listed own", "listed no assertion", "license blank", "license plus", "simple", "extracted", "extracted blank")
PLACES = ("data", "package concluded", "package declared", "package from files", "file concluded", "file info", "snippet concluded", "snippet info")


def licence_jobs(t):
    def j(name, shape, steps, vers=NEW, leaves=LEAVES, places=("package concluded",), **kw):
        return job(name, "RdfLicense", consts=dict(Vers=vers, Shape=shape, MaxSteps=steps, Leaves=leaves if isinstance(leaves, str) else set(leaves), Places=set(places)),
                   inv=["Sensible", "Emitted"], **dict(RDF, **kw))
    return ([j("licence-places", "trees", 2, {23}, LEAVES + ("none", "noassertion"), PLACES, workers=3, min=2500),
             j("licence-places-22", "trees", 1, {22}, LEAVES + ("none", "noassertion"), PLACES, workers=3, min=200),
             j("licence-trees", "trees", 3, {22}, LEAVES + ("none", "noassertion"), workers=3, min=2000),
             j("licence-list", "trees", 1, NEW, "<- StandardLeaves", min=800),
             j("licence-nested", "trees", q(t, 4, 5), {23}, ("resource MIT", "license plus"), workers=3, min=500),
             j("licence-values", "values", 1, NEW, ("listed Apache-2.0", "license blank", "simple"), min=100),
             j("licence-exceptions", "values", 2, {23}, ("simple",), min=100),
             j("licence-faults", "faults", 3, {22}, ("resource MIT", "extracted"), min=1000, workers=2),
             j("licence-faults-23", "faults", q(t, 2, 3), {23}, LEAVES + ("none",), ("file info",), min=1000, workers=2)]
            + [j("licence-walk-%d" % i, "walk", n, {v}, LEAVES + (("none", "noassertion") if i % 2 == 0 else ()), places=PLACES, sim=q(t, 500, 8000), depth=100, min=1000)
               for i, (v, n) in enumerate(((22, 8), (23, 14)) + (((22, 18), (23, 6)) if t == "thorough" else ()))])


def workflow_jobs(t):
    names = {"pkg", "my pkg", "100% %s%d%!", "{{U}}: # x_y/z", "a.b-1", "SPDXRef-p"}
    inv = dict(inv=["Kept", "RightVersion", "CountsAdd", "SameAsItself", "SomeoneElse"], prop=["MadeOnce"])
    return ([job("workflow-all", "Workflow", consts=dict(PkgNames=names, MaxSteps=2, SIM=False), workers=4, min=5000, **inv)]
            + ([job("workflow-three", "Workflow", consts=dict(PkgNames={"my pkg"}, MaxSteps=3, SIM=False), workers=4, min=10000, **inv)] if t == "thorough" else [])
            + sims(q(t, 1, 4), "workflow-walk", "Workflow", consts=dict(PkgNames=names, MaxSteps=q(t, 12, 30), SIM=True), sim=q(t, 150, 3000), depth=q(t, 14, 32), min=500, **{k: v for k, v in inv.items() if k == "inv"}))


def vocab_jobs(t):
    inv = dict(inv=["Understood", "Unambiguous", "OneLineEach"])
    return ([job("vocab-each", "Vocab", consts=dict(MaxSaid=1, SIM=False), workers=4, min=450, **inv)]
            + ([job("vocab-pairs", "Vocab", consts=dict(MaxSaid=2, SIM=False), workers=8, min=70000, timeout=3000, **inv)] if t == "thorough" else [])
            + sims(q(t, 2, 4), "vocab-talk", "Vocab", consts=dict(MaxSaid=q(t, 30, 60), SIM=True), sim=q(t, 20, 400), depth=q(t, 31, 61), min=500, **inv))


DOC_RULE = ("each field of each element in each value class beside one of everything, every pair of fields, lists with repeated entries in various orders, every way of owning up to the "
            "bound of elements, and random documents")

CHECKS = {
    "C01": dict(jobs=lex_jobs, rule="every text over the line-shape vocabulary up to the bound, and random longer ones; all are distinct texts and each is lexed in up to three layouts",
                assume=["a <text> mark opens a value only directly after the colon, and nothing but blanks follows </text>",
                        "carriage returns occur only as line ends outside text values"]),
    "C02": dict(jobs=tv_jobs(WANT_DOC, True), rule="every (parser control state, tag, value class) transition whose outcome is a document, plus random documents; three layouts each",
                assume=["a tag that may occur once is given once per element (identifiers excepted)", "identifiers are unique"]),
    "C03": dict(jobs=tv_jobs(WANT_ERR, True), rule="every (parser control state, tag, malformed or misplaced value) transition whose outcome is an error, and every truncation of two documents; three layouts each",
                assume=["values of FilesAnalyzed other than true and false are not specified"]),
    "C04": dict(jobs=doc_jobs("tv"), rule=DOC_RULE, assume=[
        "one-line values are single-line and trimmed; text values hold no </text> and no carriage return before a newline",
        "identifiers are unique; excluded file names hold no comma"]),
    "C05": dict(jobs=doc_jobs("pure"), rule=DOC_RULE, assume=["identifiers are unique, as the specification requires"]),
    "C06": dict(jobs=doc_jobs("json"), rule=DOC_RULE, assume=[
        "elements have identifiers, and text is valid Unicode", "FilesAnalyzed is decided by C12"]),
    "C07": dict(jobs=doc_jobs("yaml"), rule=DOC_RULE, assume=[
        "elements have identifiers, and text is valid Unicode", "FilesAnalyzed is decided by C12"]),
    "C08": dict(jobs=rel_jobs, rule="every combination of explicit relationships and short-form entries up to the bound over a small set of elements, and random longer ones over a larger set",
                assume=["the order among derived relationships is not specified"]),
    "C09": dict(jobs=ident_jobs, rule="every text of up to the bound of pieces, decoded as every kind and, where it is a valid value, encoded as every kind; random longer ones",
                assume=["identifiers do not contain their own prefix", "names of actors have no surrounding blanks",
                        "a reference to a whole document, and an actor with an empty type or name, are not specified"]),
    "C10": dict(jobs=doc_jobs("conv"), rule=DOC_RULE, assume=["an absent value and an empty value of a field are the same"]),
    "C11": dict(jobs=dispatch_jobs, rule="every combination of format, declared version, place of the declaration, content and fault, read into a fresh and into a filled document of each version, and into values that are not documents",
                assume=["RDF documents state their properties on typed elements (gordf does not accept rdf:Description)"]),
    "C12": dict(jobs=analyzed_jobs, rule="every way for up to three packages to say whether their files were analysed, in each format, version and place, and every sequence of writes, reads and conversions up to the bound from there",
                assume=["values of FilesAnalyzed other than true and false, and JSON and YAML of version 2.1, are not specified"]),
    "C13": dict(jobs=rdf_jobs, rule="every order, nesting and splitting of the descriptions of small graphs, every graph up to the bound of edges between elements, each value of each property beside one of everything, each of them with one fault, and random graphs written at random with repeated statements; each text is read four times, because the reader takes statements in a random order",
                assume=["every node has a type and the document is described at the top level", "elements are reached from the document or a snippet",
                        "the order of lists is not specified, RDF having none", "relationship and file types are the terms of the vocabulary, which the existing tests pin",
                        "results of the RDF loader's race on blank nodes (known finding of C24) are not results of the reader"]),
    "C14": dict(jobs=licence_jobs, rule="every licence of up to the bound of building steps from every form of licence, in every place a document has licences, each with one fault, each value of each property of a licence, and random deeper ones; each written in three ways and read three times",
                assume=["+ on extracted licences and on licences with + is not specified", "NONE and NOASSERTION beside other licences may be refused, but are not left out", "two expressions mean the same if they offer the same choices"]),
    "C15": dict(jobs=doc_jobs("cross", NEW), rule=DOC_RULE, assume=[
        "values are in the domain of every format of the chain", "FilesAnalyzed is decided by C12"]),
    "C16": dict(jobs=tree_jobs, rule="every directory tree up to the bound of nodes, of directories, files, links, FIFOs and sockets, and random larger ones with changes between two builds; each built through several spellings of the path",
                assume=["the order of the files is the same for every spelling and every creation order; which order is not specified", "the root of the directory is not itself being changed while it is read"]),
    "C17": dict(jobs=ignore_jobs, rule="every list of up to two patterns over one directory level and every single pattern over more, asked directly for every path, and through directory building and licence search over a tree",
                assume=["patterns start with / or **, and hold no other *", "an empty pattern and a lone ** are not specified"]),
    "C18": dict(jobs=code_jobs, rule="every list of files up to the bound, with every place of the SHA1 among other checksums, every excluded name and a missing entry anywhere",
                assume=["file names are distinct and not empty", "a file has at most one SHA1"]),
    "C19": dict(jobs=search_jobs, rule="every file of up to two lines over the tag styles, expressions and lines without tags, and random directories of longer files with exclusions",
                assume=["a line holds one tag, and expressions have single blanks and no DocumentRef", "words of up to five letters before a tag, other than the known comment words, are not specified"]),
    "C20": dict(jobs=diff_jobs, rule="every pair of packages up to the bound of files, and random larger ones",
                assume=["file names in a package are distinct; concluded licences are not empty"]),
    "C21": dict(jobs=report_jobs, rule="every sequence of concluded licences up to the bound, and random longer ones, for analysed packages and for others",
                assume=["licences are one line without tabs", "the order of licences with equal counts is fixed but not specified"]),
    "C22": dict(jobs=lib_jobs, rule="every relationship over every list of packages and files, and random lists of them",
                assume=["relationships are not nil"]),
    "C23": dict(jobs=io_jobs, rule="every way of cutting a text into pieces, with every place of a failure between them, and failures at places all through the texts, for every writer and reader",
                assume=["a destination that accepts only part of what it is given returns an error, as io.Writer demands", "a failure of a source is one that the call has met: nothing is demanded of what it never asked for"]),
    "C24": dict(jobs=shared_jobs, race=True, rule="every pair of calls on one document, free running under the race detector and in every order of starting and resuming calls that their sink or source keeps waiting; random crowds of more calls",
                assume=["that two calls do not race is decided by Go's race detector on the executions made", "the lists of the document are in order of identifier where it is written as tag-value, but for the known finding"]),
    "C26": dict(jobs=workflow_jobs, rule="every directory of the vocabulary, package name and way of making the document, and every sequence of steps (write and read in a format, convert, read as another version) up to the bound, and random longer ones; after each the document is observed in every way the library offers",
                assume=["the fields a built document has are carried by every format and version"]),
    "C25": dict(jobs=shape_jobs, rule="every place of a document with one of every field: missing, null, every wrong and some other right values, unknown keys; random sequences of such changes; every proper part from the start of the text, and everything else around it; each as JSON and as YAML in three styles",
                assume=["keys that differ from a defined key only in letter case are not specified, and neither are repeated keys", "null as an entry of a list may be refused or not, but alike in JSON and YAML", "a YAML reader need not look beyond the end of the first document"]),
    "C27": dict(jobs=vocab_jobs, rule="every exported name of a relationship type, checksum algorithm, external reference category and type, version and data licence, alone in a document of every version that has the term, and random sequences of them in one document",
                assume=["a checksum algorithm belongs to the versions whose specification lists it", "relationship types in RDF are decided by C13"]),
    "C28": dict(jobs=offer_jobs, rule="every kind of value, unit of text, length on both sides of every limit, and number of pointers, written as tag-value and converted into every kind of destination, empty or held or not a document",
                assume=["a nil document is not specified", "a value of the destination's own type may be copied"]),
}
