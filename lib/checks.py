"""What each check runs: which specification with which constants, and which
replay target of the harness the generated behaviours go to."""
import concurrent.futures
import os
import shutil
import vf

CHECKS = {}


def check(prop):
    def deco(f):
        CHECKS[prop] = lambda _v, p, tier, seed, scratch, t0: f(p, tier, seed, scratch, t0)
        return f
    return deco


def run_all(runs, scratch, seed, timeout=800):
    """Run TLC on every entry, several at a time; returns results and vector files."""
    def one(pair):
        i, r = pair
        r = dict(r)
        out = os.path.join(scratch, "vectors-%d.ndjson" % i) if r.pop("emit_vectors", True) else None
        r.setdefault("workers", 1 if r.get("simulate") else 2)
        if out is None:
            r["emit"] = None
        return vf.run_tlc(scratch=scratch, vectors=out, seed=seed, timeout=timeout, **r), out
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        results = list(pool.map(one, enumerate(runs)))
    return [r for r, _ in results], [o for _, o in results]


def generate_and_replay(prop, tier, seed, scratch, t0, target, runs, assumptions=(), extra=(),
                        timeout=800, keys=None, refuted=(), more=()):
    """Check the specification, replay what it generates.

    keys     only violations whose key starts with one of these belong to prop
    refuted  runs of specifications with a known fault: TLC must refute them
    more     further pairs of a replay target and its runs
    """
    pairs = [(target, runs)] + list(more)
    flat = [(t, r) for t, rs in pairs for r in rs]
    tlc, files = run_all([r for _, r in flat] + [dict(r, allow_violation=True, emit_vectors=False)
                                                 for r in refuted], scratch, seed)
    for r in tlc[len(flat):]:
        if r["ok"]:
            raise vf.ToolError("the specification does not notice the fault of " + r["name"])
    faults = [r["name"] for r in tlc[len(flat):]]
    tlc = tlc[:len(flat)]
    reports = []
    for t, _ in pairs:
        vectors = os.path.join(scratch, t + ".ndjson")
        with open(vectors, "wb") as out:
            for (t2, _), name in zip(flat, files):
                if t2 == t and name and os.path.exists(name):
                    with open(name, "rb") as f:
                        shutil.copyfileobj(f, out)
                    os.unlink(name)
        rep = vf.replay(t, vectors, scratch, seed, tier, extra=extra, timeout=timeout)
        if rep["vectors"] == 0 and not rep["violations"]:
            raise vf.ToolError("no behaviours were generated")
        if keys:
            rep["violations"] = [v for v in rep["violations"]
                                 if v["key"].startswith(tuple(keys) + ("process-died", "panic:"))]
        reports.append(rep)
    return vf.finish(prop, tier, seed, t0, reports, tlc, assumptions=assumptions,
                     extra={"faults_the_specification_refutes": faults} if faults else None)


# ---------------------------------------------------------------- C01
ALL_VALUES = {"scalar", "inl_empty", "inl_a", "inl_c", "inl_ab", "inl_dot", "inl_dup", "inl_dot1",
              "inl_dot2", "inl_froz", "inl_froz2", "inl_arr", "inl_arr2", "inl_arr3", "arr_empty",
              "arr_s", "arr_i", "arr_ii", "arr_mix", "arr_dup", "arr_deep"}


def structures(tier):
    def run(name, ops, header, dotted, values, prefix="none", names=("a", "b"), simulate=None):
        return dict(module="TomlStructure", name=name, simulate=simulate,
                    consts=dict(Names=list(names), MaxOps=ops, MaxHeader=header, MaxDotted=dotted,
                                ValueSet=values, Prefix=prefix),
                    invariants=["TypeOK", "WellFormed"], properties=[] if simulate else ["Monotone"])
    small = {"scalar", "inl_a", "arr_i"}
    runs = [
        run("every value shape, 2 lines", 2, 2, 2, ALL_VALUES),
        run("3 lines", 3, 2, 2, {"scalar", "inl_a", "arr_i", "inl_empty"}),
        run("headers of up to 3 names", 3, 3, 2, {"scalar", "inl_c"}),
    ]
    for p in ("aot_sub", "aot_nest", "super", "dotted", "aot_dotted"):
        runs.append(run("after " + p, 4 if p != "aot_nest" else 5, 2, 2, {"scalar", "arr_i", "inl_c"}, p))
    deep = tier == "thorough"
    runs.append(run("long documents", 24 if deep else 16, 3, 2, {"scalar", "inl_c"}, names=("a", "b", "c") if deep else ("a", "b"),
                    simulate=dict(num=20000 if deep else 2000, depth=25 if deep else 17)))
    runs.append(run("deep headers after aot_nest", 6, 3, 1, {"scalar"}, "aot_nest"))
    if tier == "thorough":
        runs += [
            run("every value shape, 3 lines", 3, 2, 2, ALL_VALUES),
            run("4 lines", 4, 2, 2, {"scalar", "inl_a"}),
            run("three names", 4, 2, 1, {"scalar"}, names=("a", "b", "c")),
            run("5 lines, headers", 5, 2, 1, {"scalar"}),
        ]
        for p in ("aot_sub", "aot_nest", "super", "dotted", "aot_dotted"):
            runs.append(run("deeper after " + p, 5 if p != "aot_nest" else 6, 2, 2, small, p))
    return runs


@check("C01")
def c01(prop, tier, seed, scratch, t0):
    return generate_and_replay(prop, tier, seed, scratch, t0, "structure", structures(tier), assumptions=[
        "documents of at most %d lines over 2-3 key names" % (3 if tier == "quick" else 6),
        "a dotted key into a table that so far only exists because a header passed through it is "
        "unspecified (TOML text is read both ways); such documents are replayed for totality only",
    ])


# ----------------------------------------------------------- C10, C11
LSP_INV = ["Mirror", "Answered", "Quiet", "QuietVersion", "CacheFresh", "NoneStuck"]
LSP_OPS = {"open", "change", "save", "saved", "close", "pull", "inlay", "delete", "watch"}


def lsp_run(name, steps, simulate=None, **over):
    c = dict(Uris={"u"}, Texts={"p", "s"}, GateA={"s"}, GateB={"s"}, Unformatted=set(),
             Unparsable=set(), Push=True, Targets=set(), InitText="none", Ops=LSP_OPS,
             MaxSteps=steps, Defects=set(), Urgent=True, MaxFlight=4)
    c.update(over)
    return dict(module="LspSync", name=name, consts=c, invariants=LSP_INV,
                properties=[] if simulate else ["PublishedFresh"], simulate=simulate)


LSP_FMT = dict(Texts={"p", "f", "x"}, GateA=set(), GateB=set(), Unformatted={"p"}, Unparsable={"x"},
               Ops={"open", "change", "fmt", "save", "close"})
LSP_TWO = dict(Uris={"u", "v"}, Ops={"open", "change", "close", "pull", "save"})
LSP_FILES = dict(Targets={"u"}, InitText="p")


def lsp(prop, tier, seed, scratch, t0, keys):
    deep = tier == "thorough"
    num = 60000 if deep else 4000
    runs = [
        lsp_run("one document, published", 4),
        lsp_run("one document, requested", 4, Push=False),
        lsp_run("formatting", 6 if deep else 5, **LSP_FMT),
        lsp_run("files of the workspace", 4, **LSP_FILES),
        lsp_run("two documents", 4, **LSP_TWO),
        lsp_run("three texts, two downloads", 4, Texts={"p", "r", "q"}, GateA={"r", "q"}, GateB={"r"}),
        lsp_run("long histories", 9, simulate=dict(num=num, depth=60)),
        lsp_run("long histories, requested", 9, simulate=dict(num=num, depth=60), Push=False),
        lsp_run("long histories, files", 9, simulate=dict(num=num, depth=60), **LSP_FILES),
        dict(lsp_run("any interleaving", 4, Urgent=False), emit_vectors=False),
    ]
    if deep:
        runs += [
            lsp_run("one document, published, 5", 5),
            lsp_run("one document, requested, 5", 5, Push=False),
            lsp_run("files of the workspace, 5", 5, **LSP_FILES),
            lsp_run("two documents, 5", 5, **LSP_TWO),
            lsp_run("long histories, two documents", 12, simulate=dict(num=num, depth=80),
                    **dict(LSP_TWO, Ops=LSP_OPS)),
            dict(lsp_run("any interleaving, 5", 5, Urgent=False), emit_vectors=False),
            dict(lsp_run("any interleaving, files", 4, Urgent=False, **LSP_FILES), emit_vectors=False),
        ]
    faults = [(d, 4, {}) for d in ("late_insert", "late_publish", "save_lock", "watch_removes",
                                   "watch_stale")]
    faults += [("aba", 5, dict(Ops={"open", "change", "close", "pull"})),
               ("format_applies", 4, LSP_FMT),
               ("format_clears", 4, dict(LSP_FMT, Texts={"p", "f"}, Ops={"open", "change", "fmt"})),
               ("close_keeps", 4, LSP_FILES)]
    if deep:
        faults.append(("open_token", 5, {}))
    refuted = [lsp_run(d, n, Defects={d}, **k) for d, n, k in faults]
    return generate_and_replay(prop, tier, seed, scratch, t0, "lsp", runs, keys=keys,
                               refuted=refuted if deep else refuted[:3], assumptions=[
        "handlers suspend only at the downloads and the opening of documents the specification "
        "names; the server is driven to rest between the editor's messages",
        "one or two documents, six texts, histories of at most 12 messages",
    ])


@check("C10")
def c10(prop, tier, seed, scratch, t0):
    return lsp(prop, tier, seed, scratch, t0, ("mirror:", "stuck:", "request:", "format:", "error:"))


@check("C11")
def c11(prop, tier, seed, scratch, t0):
    return lsp(prop, tier, seed, scratch, t0, ("publish:", "pull:", "quiet:", "stuck:", "error:"))


# ---------------------------------------------------------------- C17
CLI_KINDS = {"mix", "mix2", "badwarn", "unf", "big", "ok", "empty", "warn", "warnunf", "lerr", "bad", "nonutf", "missing",
             "noread", "ro", "rook", "off", "excl"}
CLI_INV = ["Whole", "ReadOnlyWritesNothing", "NothingSwallowed", "ChangedIffCounted", "EveryFileCounted", "Independent",
           "ExitCode"]


@check("C17")
def c17(prop, tier, seed, scratch, t0):
    def run(name, kinds, most, modes, fulls, defects=frozenset(), least=1):
        return dict(module="CliBatch", name=name, consts=dict(
            Kinds=set(kinds), MinFiles=least, MaxFiles=most, Modes=set(modes), Fulls=set(fulls),
            Defects=set(defects)), invariants=CLI_INV, properties=["Terminates"])
    modes = {"format", "check", "diff", "checkdiff", "lint", "lintw"}
    runs = [run("every pair of files", CLI_KINDS, 2, modes, {False}),
            run("disk full", {"big", "unf", "ok", "bad"}, 3, {"format", "diff"}, {True}),
            run("standard input", CLI_KINDS - {"missing", "noread", "ro", "rook", "excl"}, 1,
                {"formatin", "checkin", "lintin", "lintwin"}, {False}),
            run("three files", {"unf", "ok", "bad", "warn", "missing"}, 3,
                {"format", "check", "lint", "lintw"}, {False}, least=3)]
    if tier == "thorough":
        runs += [run("three files of every kind", CLI_KINDS, 3, modes, {False, True}, least=3),
                 run("five files", {"unf", "ok", "bad", "warn"}, 5, {"format", "check", "lintw"}, {False},
                     least=4)]
    refuted = [run(d, {"big", "ok"}, 2, {"format"}, {True}, {d})
               for d in ("write_error_lost", "no_restore")]
    refuted.append(run("off_swallows", {"off"}, 1, {"formatin"}, {False}, {"off_swallows"}))
    return generate_and_replay(prop, tier, seed, scratch, t0, "cli", runs, refuted=refuted,
                               assumptions=["at most 5 files of 18 kinds per run",
                                            "a full disk is a limit on the size of written files"])


# ---------------------------------------------------------------- C02
@check("C02")
def c02(prop, tier, seed, scratch, t0):
    n = 1 if tier == "thorough" else 0

    def run(family, symbols, length, name="", odd=2, simulate=None, defects=()):
        return dict(module="TomlScalar", name=name or family + " literals", consts=dict(
            Family=family, Symbols=set(symbols.split()), MaxLen=length, Beyond=1, MaxOdd=odd, Defects=set(defects)),
            invariants=["Deterministic", "ValueBounded", "CodesAllowed"], simulate=simulate, workers=2)
    every = "0 1 7 8 _ + - . e E1 x o b f a D E B H inf nan true false"
    quoted = "q Q \\ b n e u U x 0 8 D F g + sp tab nl crlf cr ctl del uni nbsp emo #"
    several = "q Q \\ n e u sp nbsp tab nl crlf cr ctl del g"
    runs = [
        run("number", every, 4 + n), run("number", "0 1 _ . - e", 6 + n, "longer numbers"),
        run("basic", quoted, 3 + n), run("literal", "q Q \\ n sp tab nl crlf cr ctl del uni g #", 4 + n),
        run("mlbasic", several, 4 + n), run("mlbasic", "q \\ nl sp g", 6 + n, "longer multi-line strings"),
        run("mlliteral", "q Q \\ sp tab nl crlf cr ctl del g", 4 + n), run("date", "", 0, odd=2 + n)]
    for family, symbols in [("number", every), ("basic", "q \\ u U x 0 8 D F + n g"), ("mlbasic", several)]:
        runs.append(run(family, symbols, 14, "long " + family, simulate=dict(num=20000 if n else 1000, depth=15)))
    return generate_and_replay(prop, tier, seed, scratch, t0, "scalar", runs,
                               refuted=[run("number", every, 3, "loose_underscore", defects=["loose_underscore"])],
                               assumptions=["literals of at most %d symbols enumerated, of at most 14 sampled" % (6 + n),
                                            "a floating point number is TOML's when Rust's parser gives the same one"])


# ---------------------------------------------------------------- C13
@check("C13")
def c13(prop, tier, seed, scratch, t0):
    deep = tier == "thorough"
    every = {"plain", "eternal", "nocache", "offline", "offnocache"}

    def run(name, ops, urls=("a", "b"), options=every, kinds=("schema", "catalog"), simulate=None, defects=()):
        return dict(module="SchemaCache", name=name, consts=dict(
            Urls=set(urls), Options=set(options), Ttl=2, MaxOps=ops, Kinds=set(kinds), Defects=set(defects)),
            invariants=["TypeOK", "Authentic"], simulate=simulate,
            properties=["OfflineIsSilent", "FreshIsSilent", "StaleIsAskedFor", "NoCacheAsks", "Survives"])
    runs = [run("two URLs", 4), run("one URL", 6 if deep else 5, urls=("a",)),
            run("long histories", 14, simulate=dict(num=20000 if deep else 1500, depth=15))]
    if deep:
        runs.append(run("two URLs, longer", 5, options={"plain", "nocache", "offline"}))
    refuted = [run("shared", 4, defects={"shared"}), run("no_expiry", 4, defects={"no_expiry"})]
    return generate_and_replay(prop, tier, seed, scratch, t0, "cache", runs, refuted=refuted, assumptions=[
        "two URLs at a time, from 14 pairs that differ in one part; histories of at most 14 steps",
        "time passes by setting back the modification times of the cache files"])


# ----------------------------------------------------- C04, C05, C06
ALL_TOKENS = {"i", "[", "{", "]", ",", "c", "n", "t", "s", "a", "u"}


def layout(prop, tier, seed, scratch, t0, keys, more=()):
    deep = tier == "thorough"

    def run(name, length, g=1, t=1, tokens=ALL_TOKENS, depth=2, breaks=3, least=0, simulate=None,
            defects=frozenset()):
        return dict(module="FormatLayout", name=name, consts=dict(
            MaxLen=length, MaxDepth=depth, MaxBreaks=breaks, Tokens=set(tokens), Starts={()}, G=g, T=t,
            MinLen=least, Defects=set(defects)), invariants=["Keeps", "Idempotent"], simulate=simulate)
    inside, heads = ALL_TOKENS - {"t", "s", "a", "u"}, {"i", "c", "n", "t", "s", "a", "u"}
    n = 1 if deep else 0
    runs = [
        run("every document", 8 + n),
        run("every document, wide groups", 7 + n, g=2, t=0),
        run("arrays and inline tables", 9 + n, g=2, tokens=inside, breaks=2),
        run("tables", 8 + n, g=2, t=2, tokens=heads),
    ]
    for i, (g, t) in enumerate([(1, 1), (3, 0), (2, 2)]):
        num = 20000 if deep else 300
        runs.append(run("long documents %d" % i, 26, g=g, t=t, depth=3, least=10,
                        simulate=dict(num=num // 4, depth=27)))
        if deep:
            runs.append(run("longer documents %d" % i, 60, g=g, t=t, depth=5, least=30,
                            simulate=dict(num=num // 20, depth=61)))
    refuted = [run("no_room", 7, t=0, defects={"no_room"})]
    return generate_and_replay(prop, tier, seed, scratch, t0, "layout", runs, keys=keys,
                               refuted=refuted, more=more, assumptions=[
        "documents of at most %d tokens enumerated, of at most %d sampled" % (8 + n, 60 if deep else 26),
        "no schema asks for an order (that is C07); one scalar per item, from a list of spellings",
    ])


@check("C03")
def c03(prop, tier, seed, scratch, t0):
    deep = tier == "thorough"
    every = {"k", "v", "s", "t", "=", ".", ",", "[", "]", "{", "}", "_", "n", "c", "x"}

    def run(name, starts, n, extra=0, depth=3, tokens=every, num=None, defects=frozenset()):
        return dict(module="TokenSoup", name=name, invariants=[
            "TypeOK", "Balanced", "EqualsPerValue", "OnlyBraces", "NoTrailingComma10"], properties=["Final"],
            simulate=num and dict(num=num, depth=n + 2), consts=dict(
                Starts=set(starts), MaxLen=n, MaxExtra=extra, MaxDepth=depth, Tokens=tokens, Defects=set(defects)))
    array, table = ("k", "=", "["), ("k", "=", "{")
    inside = every - {"v", "t", ".", "x"} | {"."}
    runs = [
        run("what can begin a document", [()], 7 if deep else 6),
        run("after a wrong token", [()], 6 if deep else 5, extra=2 if deep else 1),
        run("in an array or inline table", [array, table], 9 if deep else 8),
        run("in both", [array + ("{",), table + ("k", "=", "[")], 10 if deep else 9, tokens=inside),
        run("long ones", [()], 30, extra=20, depth=6, num=2000 if deep else 100),
    ]
    deepest = dict(module="Nesting", name="nested", invariants=["TypeOK", "DepthIsWhatIsOpen", "OnlyWhatIsClosedIsRead"],
                   properties=["Deeper"], consts=dict(
        Heads={"key", "table", "aot", "late"}, Parts={1, 5000} if not deep else {1, 60, 127, 5000},
        Openers={"arr", "more", "inl", "two", "dot"},
        Counts={1, 2, 20, 127, 5000} if not deep else {1, 2, 20, 30, 127, 128, 129, 5000, 50000},
        MaxRuns=2, Deep=100, Limit=200))
    return generate_and_replay(prop, tier, seed, scratch, t0, "soup", runs, more=[("nesting", [deepest])], refuted=[
        run("trailing", [table], 8, defects={"trailing"})], assumptions=[
        "texts are joined from tokens, and broken off or damaged at random",
        "what only TOML v1.1.0 allows inside braces is left to the linter to refuse, and so is a comma after a line",
        "values nested more than 100 deep may be refused, and must be answered"])


@check("C04")
def c04(prop, tier, seed, scratch, t0):
    runs = [dict(r, emit_vectors=True) for r in structures("quick")]
    return layout(prop, tier, seed, scratch, t0, ("data:", "style:invalid:", "style:broken:"), more=[("structfmt", runs)])


@check("C05")
def c05(prop, tier, seed, scratch, t0):
    return layout(prop, tier, seed, scratch, t0, ("comments:",))


@check("C06")
def c06(prop, tier, seed, scratch, t0):
    return layout(prop, tier, seed, scratch, t0, ("layout:", "style:", "refused:", "harness:"))


# ---------------------------------------------------------------- C07
@check("C07")
def c07(prop, tier, seed, scratch, t0):
    deep = tier == "thorough"
    P, T, X = "properties", "patternProperties", "additionalProperties"
    every = {"-", "disabled", "enabled", "ascending", "descending", "version-sort"}
    dirs = every - {"enabled"}

    def all_(o):
        return (("all", o),)
    schs = {(), all_("ascending"), ((P, "schema"), (T, "version-sort"), (X, "descending")),
            ((X, "ascending"), (P, "descending"), (T, "ascending"))}
    more = schs | {all_("descending"), all_("version-sort"), all_("schema"),
                   ((T, "descending"), (X, "version-sort"), (P, "version-sort"))}

    def keys(name, simulate=None, defects=(), **over):
        c = dict(Sites={"root", "table", "inline", "headers"}, Dirs=dirs, Overs=every, Rules={"-", "true", "false"},
                 Schs=more, Subs={(), all_("ascending"), all_("schema")},
                 Firsts={"B", "k10", "k9", "p10", "p2", "x-1", "z"}, Seconds={"j10", "j9", "B"},
                 Owns={"-", "ascending", "descending", "disabled"}, MaxItems=2, MaxGroups=2, Defects=set(defects))
        c.update(over)
        return dict(module="SortKeys", name=name, consts=c, simulate=simulate,
                    invariants=["Permutation", "Idempotent", "GroupsStay", "NoOrder", "DirectiveWins"])

    def values(name, simulate=None, defects=(), **over):
        orders = {(), all_("ascending"), all_("descending"), all_("version-sort"),
                  (("string", "version-sort"), ("integer", "ascending")),
                  (("integer", "descending"), ("table", "ascending"), ("string", "descending")),
                  (("table", "version-sort"), ("boolean", "descending"))}
        c = dict(Dirs=dirs, Overs=every, Rules={"-", "true", "false"}, Schs=orders, Bys={True, False},
                 Values={"b:false", "b:true", "i:-5", "i:2", "i:10", "s:B", "s:k10", "s:k9", "d:2019-12-31",
                         "d:2020-01-01", "l:07:30:00", "l:16:00:00", "t:B", "t:k10", "t:k9", "f:1.5", "a:1", "x:1"},
                 MaxItems=2, MaxGroups=2, Defects=set(defects))
        c.update(over)
        return dict(module="SortValues", name=name, consts=c, simulate=simulate,
                    invariants=["Permutation", "Idempotent", "GroupsStay", "NoOrder", "Alike"])

    asks = dict() if deep else dict(Dirs={"-", "version-sort", "disabled"}, Overs={"-", "disabled", "enabled", "descending"},
                                    Rules={"-", "false"}, Schs=schs, Subs={(), all_("ascending")})
    few = dict(Firsts={"B", "k10", "p2", "x-1"} if deep else {"k10", "p2", "x-1"}, Seconds={"j10", "j9"})
    if deep:
        few["Rules"] = {"-", "false"}
    runs = [keys(f"every pair of keys of {site}", Sites={site}, **{**asks, **few}) for site in ("root", "table", "inline")]
    runs += [
        keys("every pair of headers", Sites={"headers"}, **{**asks, **few, "Rules": {"-"}, "Overs": {"-"}}),
        keys("three keys of one order", Schs={(), all_("version-sort")}, Subs={()}, Rules={"-"}, MaxItems=3,
             Dirs={"-", "descending"}, Overs={"-"}, Firsts={"k10", "k9"}, Seconds={"j10", "j9"} if deep else {"j9"}),
        keys("many keys", MaxItems=9 if deep else 8, simulate=dict(num=40 if deep else 3, depth=11)),
    ]
    arrays = [
        values("every pair of values", **(dict(Overs={"-", "enabled", "descending"}, Rules={"-", "false"}) if deep else
                                          dict(Overs={"-"}, Rules={"-"}, Dirs={"-", "descending", "disabled"}))),
        values("three of a kind", Values={"s:k10", "s:k9", "t:k9"}, MaxItems=4 if deep else 3, Overs={"-", "enabled"},
               Rules={"-", "false"}),
        values("many values", MaxItems=9 if deep else 7, simulate=dict(num=40 if deep else 3, depth=11)),
    ]
    refuted = [
        keys("sorted across the groups", defects=("across",), Sites={"root"}, Rules={"-"}, Overs={"-"}, Subs={()}),
        keys("the configuration before the directive", defects=("override_first",), Sites={"root"}, Rules={"-"},
              Schs={()}, Subs={()}),
        values("turned round when descending", defects=("unstable",)),
    ]
    return generate_and_replay(
        prop, tier, seed, scratch, t0, "sortkeys", runs, more=[("sortvalues", arrays)], refuted=refuted,
        assumptions=["how keys compare is taken from a fixed list of keys in each order (C22 decides version sort itself)",
                     "kinds of keys or values that an order by kinds leaves out may come anywhere"])


# ---------------------------------------------------------------- C12
@check("C12")
def c12(prop, tier, seed, scratch, t0):
    deep = tier == "thorough"
    chars = {"a", "2", "3", "em", "cm", "vs", "sk", "zj", "ri", "hl", "hv", "tab"}
    encodings = {"utf-8", "utf-16", "utf-32"}

    def positions(name, length, simulate=None, defects=(), **over):
        c = dict(Chars=chars, Ends_={"lf", "crlf"}, Encodings=encodings, MaxLen=length, Defects=set(defects))
        c.update(over)
        return dict(module="Positions", name=name, consts=c, simulate=simulate,
                    invariants=["TypeOK", "RoundTrip", "Grows", "WholeLine", "NeverBehind", "Plain"])

    def editor(name, lines, size, simulate=None, defects=(), **over):
        c = dict(Chars=chars, Gaps={" ", "   ", "\t"}, Newlines={"lf", "crlf"}, Encodings=encodings,
                 Kinds={"kv", "kvc", "comment", "table", "blank", "dir", "link", "doc", "big"},
                 MaxLines=lines, MaxChars=size, Defects=set(defects))
        c.update(over)
        return dict(module="EditorText", name=name, consts=c, simulate=simulate, invariants=["TypeOK", "InOrder", "Covered"])

    runs = [
        positions("every text of %d characters" % (4 if deep else 3), 4 if deep else 3),
        positions("joined characters", 6 if deep else 5, Chars={"a", "em", "zj", "ri"} if deep else {"em", "zj", "ri"},
                  Ends_={"lf"}, Encodings={"utf-16"}),
        positions("long texts", 60 if deep else 40, simulate=dict(num=400 if deep else 30, depth=61 if deep else 41)),
    ]
    texts = [
        editor("every line with a character", 1, 1, Gaps={" ", "\t"}),
        editor("many lines", 9, 30, simulate=dict(num=1500 if deep else 100, depth=70)),
    ]
    if deep:
        texts.append(editor("every line with two characters", 1, 2, Gaps={" "}, Newlines={"lf"}, Encodings={"utf-8", "utf-16"}))
        texts.append(editor("two lines", 2, 1, Gaps={" "}, Newlines={"crlf"}, Chars={"2", "em", "zj"}, Encodings={"utf-16"}))
    refuted = [
        positions("a column is a character", 3, defects=("chars",)),
        editor("lengths are columns", 1, 2, Gaps={" "}, defects=("clusters",)),
    ]
    return generate_and_replay(
        prop, tier, seed, scratch, t0, "positions", runs, more=[("editortext", texts)], refuted=refuted,
        assumptions=["a carriage return of its own is no line end in TOML; what the LSP makes of it is left open",
                     "which comments belong to what a hover tells of, and whether a symbol begins at its key, is left open"])


# ---------------------------------------------------------------- C09
@check("C09")
def c09(prop, tier, seed, scratch, t0):
    deep = tier == "thorough"
    places = {"root", "u", "a", "f", "s", "b", "o", "x", "y", "r", "el", "es", "i", "c", "iu", "t", "d", "tf", "v", "w", "wi", "h"}
    points = {"root", "La", "Ma", "Ta", "Lf", "Tf", "Ls", "Ts", "Lb", "Tb", "Lo", "To", "Lu", "Tu", "Ly", "Ty", "Lr", "Sr",
              "Ir", "Tr", "Lel", "Tel", "Les", "Tes", "Li", "Si", "Ii", "Ti", "Lc", "Tc", "Liu", "Tiu", "Lt", "Mt", "Tt", "It",
              "Ld", "Td", "Ltf", "Ttf", "Lv", "Tv", "Lw", "Tw", "Iw", "Lh", "Th"}

    def noqa(name, viols, noqas, related=False, num=None, defects=(), where=places):
        return dict(module="NoQa", name=name, consts=dict(
            Places=where, Points=points, Extra={"unused-noqa", "key-empty", "dotted-keys-out-of-order"}, MaxViol=viols,
            MaxNoqa=noqas, Related=related, Defects=set(defects)), properties=["NeverMore"],
            simulate=num and dict(num=num, depth=viols + noqas + 1),
            invariants=["TypeOK", "OnlyViolations", "Exactly", "NotInside", "Accounted"])

    def order(name, num=None, defects=(), **over):
        c = dict(Whats={"tables", "dotted", "empty"}, Sites={"root", "table", "aot", "inline"},
                 Levels={"-", "off", "warn", "error"}, Dirs={"-", "lint", "format"}, Docs={True, False},
                 Names={"a", "b", ""}, Spellings={"bare"}, MaxLines=3, Defects=set(defects))
        c.update(over)
        return dict(module="StyleOrder", name=name, consts=c, simulate=num and dict(num=num, depth=c["MaxLines"] + 1),
                    invariants=["TypeOK", "Together", "SortedIsFine", "OverrideWins", "Quiet"], properties=["Stays"])
    orders = [
        order("every level and directive", MaxLines=4 if deep else 3),
        order("every order of names", Levels={"-"}, Dirs={"-"}, Docs={False}, Names={"ab", "b", "c"},
              MaxLines=7 if deep else 6, Whats={"tables", "dotted"}),
        order("many, however spelled", num=2000 if deep else 150, Names={"a", "b", "", "cd"}, MaxLines=8,
              Spellings={"bare", "basic", "literal", "escaped"}),
    ]
    return generate_and_replay(prop, tier, seed, scratch, t0, "noqa", [
        noqa("one violation and one directive", 1, 1, related=True),
        noqa("some of each", 4, 8, num=1000 if deep else 60),
        noqa("many of each", 12, 25, num=150 if deep else 8),
    ], more=[("order", orders)], refuted=[
        noqa("whole", 2, 1, related=True, where={"r", "el", "t", "d"}, defects={"whole"}),
        noqa("any", 2, 1, related=True, where={"a"}, defects={"any"}),
        order("near", MaxLines=4, Levels={"-"}, Dirs={"-"}, Docs={False}, defects={"near"}),
        order("conf_wins", MaxLines=1, defects={"conf_wins"})], assumptions=[
        "one document with a value of every kind in every kind of container; its schema is broken where a violation is wanted",
        "what is said of a directive itself is open where two name the same rule, and for rules that are never called unused",
        "a value is called deprecated only if there is nothing else to say of it"])


# ---------------------------------------------------------------- C16
@check("C16")
def c16(prop, tier, seed, scratch, t0):
    deep = tier == "thorough"

    def at(*p):
        return ("P",) + p
    args = vf.Members(
        [dict(kind="file", path=p, glob="") for p in (
            at("a.toml"), at("b.txt"), at("sub", "a.toml"), at("sub", "deep", "a.toml"), at("vendor", "a.toml"),
            at(".git", "a.toml"), at("lnk.toml"), at("tombi.toml"), ("O", "x.toml"))]
        + [dict(kind="dir", path=p, glob="") for p in (
            at(), at("sub"), at("sub", "deep"), at("vendor"), at(".hid"), at(".git"), at("d.toml"), ("O",))]
        + [dict(kind="glob", path=at(), glob=g) for g in ("*.toml", "sub/**", "**/a.toml", "deep/*.toml", "?.toml")]
        + [dict(kind="missing", path=at("none.toml"), glob="")])
    includes = {("-",), ("*.toml",), ("**/a.toml",), ("sub/**",), ("sub/*.toml", "a.toml"), ("**/?.toml",), (),
                ("**/*",), ("[ac].toml", "*/*/*.toml"), (".hid/*", "[sv]*/*"), ("**/[!a].toml",)}
    excludes = {("-",), ("sub/**",), ("a.toml",), ("**/a.toml",), ("*/a.toml",), ("vendor/**", "c.toml"),
                ("**/vendor/**",), ("**/deep/*",), ("sub/*.toml",), ()}
    ignores = {"none", "git", "gitdir", "gitfile", "gitdirfile", "nested", "ignore", "ignorewins", "exclude", "hid"}
    both = {True, False}
    cwds = {at(), at("sub")}

    def run(name, simulate=None, **over):
        c = dict(Includes={("-",)}, Excludes={("-",)}, Ignores={"none"}, Respects={True}, Configs={True},
                 Cwds={at()}, ArgSet=set(), MaxArgs=0, AnyOrder=False, Defects=set())
        c.update(over)
        return dict(module="FileSelect", name=name, consts=c, simulate=simulate,
                    invariants=["TypeOK", "Right", "Sound", "Apart"])
    runs = [
        run("every order of the walk", Includes={("-",), ("**/a.toml",)}, Ignores={"none", "git", "nested"},
            AnyOrder=True),
        run("every pair of patterns", Includes=includes, Excludes=excludes, Cwds=cwds),
        run("every argument with every ignore file", Ignores=ignores, Respects=both, Configs=both, Cwds=cwds,
            ArgSet=args, MaxArgs=1),
        run("any", Includes=includes, Excludes=excludes, Ignores=ignores, Respects=both, Configs=both, Cwds=cwds,
            ArgSet=args, MaxArgs=3, simulate=dict(num=20000 if deep else 1500, depth=45)),
    ]
    if deep:
        runs.append(run("every pair of arguments", Excludes={("-",), ("sub/**",), ("**/a.toml",)}, Cwds=cwds,
                        ArgSet=args, MaxArgs=2))
    refuted = [run("enter_ignored", Ignores={"git"}, Defects={"enter_ignored"})]
    return generate_and_replay(prop, tier, seed, scratch, t0, "select", runs, refuted=refuted, assumptions=[
        "one tree of 14 files, 9 directories and 2 links; 11 include and 10 exclude lists, 10 sets of ignore files, "
        "23 arguments written in five ways, at most three at a time",
        "a directory argument that is itself ignored is left open, as is an excluded file outside the project"])


# ----------------------------------------------------------- C15, C19
@check("C15")
def c15(prop, tier, seed, scratch, t0):
    deep = tier == "thorough"
    contents = {"valid", "empty", "broken", "badkey", "badtype", "dir", "notool", "othertool"}

    def run(name, levels, most, least=0, contents=contents, starts=(1,), simulate=None, defects=frozenset()):
        return dict(module="ConfigSearch", name=name, simulate=simulate, invariants=["TypeOK", "Nearest"], consts=dict(
            Levels=levels, MaxFull=most, MinFull=least, Contents=set(contents), Starts=set(starts),
            Defects=set(defects)))
    runs = [
        run("one directory, every three places", 1, 4 if deep else 3),
        run("two directories, every two places", 2, 3 if deep else 2, starts=(1, 2)),
        run("two directories, valid or broken", 2, 10 if deep else 4, contents={"valid", "broken"}),
        run("full", 3, 14, least=6, starts=(1, 2, 3), simulate=dict(num=20000 if deep else 1500, depth=40)),
    ]
    return generate_and_replay(prop, tier, seed, scratch, t0, "search", runs, refuted=[
        run("stop", 1, 2, defects={"stop"})], assumptions=[
        "up to 3 directories; /etc/tombi and the places of macOS and Windows are not covered",
        "the language server's own cache of configurations is not covered"])


@check("C14")
def c14(prop, tier, seed, scratch, t0):
    deep = tier == "thorough"
    every = dict(Schemas={"s1", "s2"}, Patterns={"x.toml", "sub/*.toml", "y.toml"}, Paths={"x.toml", "sub/x.toml"},
                 Versions={"v1.0.0", "v1.1.0"}, Stricts={"true", "false"}, Roots={"", "sub"},
                 Excludes={"sub/x.toml"}, Switches={"true", "false"}, MaxEntries=2, MaxCatalog=1, Defects=set())

    def run(name, simulate=None, **consts):
        return dict(module="SchemaChoice", name=name, simulate=simulate, consts=dict(every, **consts),
                    invariants=["TypeOK", "DirectiveWins", "ConfigBeatsCatalog", "Irrelevant", "Layered"])

    def session(name, steps, num=None, **consts):
        return dict(module="SchemaSession", name=name, invariants=[
            "TypeOK", "SameEverywhere", "LatestForcedWins", "ConfBeatsAppended"], properties=["Apart"],
            simulate=num and dict(num=num, depth=steps + 3), consts=dict(dict(
                Schemas={"s1", "s2"}, Versions={"v1.0.0", "v1.1.0"}, Stricts={"true", "false"},
                Projects={"p1", "p2"}, MaxSteps=steps, Defects=set()), **consts))
    runs = [
        run("every schema", Patterns={"x.toml", "sub/*.toml"}, Excludes=set(), Stricts=set(), Versions=set(),
            Switches={"false"}),
        run("every version", Schemas={"s1"}, Patterns={"x.toml"}, Paths={"x.toml"}, Excludes=set(), Stricts=set(),
            Switches=set(), MaxEntries=1),
        run("every strictness", Patterns={"x.toml"}, Paths={"x.toml"}, Excludes=set(), Versions=set(),
            Switches=set(), MaxCatalog=0),
        run("any", dict(num=20000 if deep else 600, depth=20), MaxEntries=3 if deep else 2, MaxCatalog=2),
    ]
    sessions = [
        session("every session", 1, Projects={"p1"}),
        session("sessions", 6, 1500 if deep else 200),
        session("long sessions", 20, 300 if deep else 30),
    ]
    return generate_and_replay(prop, tier, seed, scratch, t0, "choice", runs, more=[("session", sessions)], refuted=[
        run("catalog_first", MaxEntries=1, Stricts=set(), Versions=set(), Defects={"catalog_first"}),
        run("sub_skips_root", MaxEntries=2, MaxCatalog=0, Versions=set(), Patterns={"x.toml"}, Paths={"x.toml"},
            Defects={"sub_skips_root"}),
        session("update_forgets", 2, Defects={"update_forgets"}),
        session("editor_unforces", 2, Defects={"editor_unforces"}),
    ], assumptions=[
        "two schemas, one place below the root for a schema of its own",
        "of several matching entries with different versions, any may speak; "
        "whether the strictness of an entry counts whose schema a directive replaces is open"])


FORMAT_RULES = ["array-bracket-space-width", "array-comma-space-width", "comment-style", "date-time-delimiter",
                "group-blank-lines-limit", "indent-style", "indent-sub-tables", "indent-table-key-value-pairs",
                "indent-width", "inline-table-brace-space-width", "inline-table-comma-space-width",
                "key-quote-style", "key-value-equals-sign-alignment", "key-value-equals-sign-space-width",
                "line-ending", "line-width", "string-quote-style", "table-blank-lines",
                "trailing-comment-alignment", "trailing-comment-space-width"]
LINT_RULES = ["key-empty", "dotted-keys-out-of-order", "tables-out-of-order"]


@check("C19")
def c19(prop, tier, seed, scratch, t0):
    deep = tier == "thorough"

    def sets(rules):
        one = [frozenset([r]) for r in rules]
        half = [frozenset(rules[::2]), frozenset(rules[1::2])]
        return {frozenset(), frozenset(rules), *one, *half}
    files = {("a.toml",), ("sub", "a.toml"), ("sub", "deep", "a.toml"), (".config", "x.toml"), ("d.toml", "c.toml")}
    places = {"tombi", "dottombi", "dotconfig", "pyproject"}
    includes = {("*.toml",), ("**/*.toml",), ("sub/**",), ("a.toml", "sub/a.toml"), ("**/a.toml",), ("?.toml", "*/*/*.toml")}
    excludes = {(), ("a.toml",), ("**/deep/*",), ("sub/*.toml",), ("**/[!a].toml",)}

    def run(name, feature, keysets, files={("sub", "a.toml")}, places={"tombi"}, includes={("**/a.toml",)},
            excludes={()}, enabled={"-"}, says={True}, n=1, simulate=None, defects=frozenset()):
        return dict(module="Overrides", name=name, simulate=simulate, invariants=["Right"], consts=dict(
            Files=set(files), Places=set(places), Includes=set(includes), Excludes=set(excludes),
            KeySets=set(keysets), Enabled=set(enabled), Features={feature}, Says=set(says), MaxOverrides=n,
            Defects=set(defects)))
    few = {frozenset(), frozenset(["indent-width"]), frozenset(["indent-width", "comment-style"])}
    fewl = {frozenset(), frozenset(["key-empty"])}
    runs = [
        run("every format rule", "format", sets(FORMAT_RULES)),
        run("every lint rule", "lint", sets(LINT_RULES), enabled={"-", "true", "false"}, says={True, False}, n=1),
        run("every pattern and place", "format", {frozenset(["indent-width"])}, files=files, places=places,
            includes=includes, excludes=excludes),
        run("two overrides", "format", few, enabled={"-", "true", "false"}, says={True, False}, n=2,
            includes={("**/a.toml",), ("*.toml",)}),
        run("two overrides, lint", "lint", fewl, enabled={"-", "true", "false"}, says={True, False}, n=2,
            includes={("**/a.toml",), ("*.toml",)}),
        run("any", "format", sets(FORMAT_RULES), files, places, includes, excludes, {"-", "true", "false"},
            {True, False}, 4, simulate=dict(num=20000 if deep else 1000, depth=20)),
        run("any, lint", "lint", sets(LINT_RULES), files, places, includes, excludes, {"-", "true", "false"},
            {True, False}, 4, simulate=dict(num=20000 if deep else 500, depth=20)),
    ]
    return generate_and_replay(prop, tier, seed, scratch, t0, "overrides", runs, refuted=[
        run("says_nothing", "format", few, n=2, says={True, False}, defects={"says_nothing"})], assumptions=[
        "at most 4 overrides, 11 pattern lists, 5 files, 23 rules with two values each",
        "of several overrides that cover a file the first one decides, also when it is silent on the feature"])


# ---------------------------------------------------------------- C22
@check("C22")
def c22(prop, tier, seed, scratch, t0):
    deep = tier == "thorough"

    def codes(*texts):
        return {tuple(ord(c) for c in t) for t in texts}
    letters = codes(" ", "!", "-", ".", "0", "1", "9", "<", "=", ">", "A", "^", "_", "a", "b", "~", "\u00e9")
    some = codes("0", "1", "9", "a", "_", "=", ".")
    big = codes("99999999999999999999", "18446744073709551615", "18446744073709551616", "18446744073709551617",
                "184467440737095516150", "0", "00000000000000000000", "1", "-", "v")

    def run(name, pieces, n, least=0, laws=0, simulate=None, defects=frozenset()):
        return dict(module="VersionSort", name=name, simulate=simulate, invariants=["Laws", "Right", "ByValue"],
                    consts=dict(Pieces=pieces, MaxPieces=n, MinPieces=least, LawSize=laws, Defects=set(defects)))
    runs = [
        run("every pair of two characters", letters if deep else codes(" ", "!", "-", ".", "0", "1", "9", "<", "=", ">", "_", "a"), 2, laws=1),
        run("every pair of three characters", some if deep else codes("0", "1", "a", "_", "="), 3, laws=2),
        run("numbers of any size", big, 2, laws=2 if deep else 1),
        run("long strings", letters | big, 8, least=2, laws=1, simulate=dict(num=100000 if deep else 4000, depth=30)),
    ]
    return generate_and_replay(prop, tier, seed, scratch, t0, "version", runs, refuted=[
        run("digits", codes("1", "9", "0"), 2, laws=1, defects={"digits"})], assumptions=[
        "strings of up to 8 pieces over 17 characters and 6 large numbers; the laws of an order are checked by TLC on "
        "the specification for strings of up to 2 pieces, and the code agrees with it on every pair replayed"])


# ---------------------------------------------------------------- C08
KEYWORDS = set("type enum const minimum maximum exclusiveMinimum exclusiveMaximum multipleOf minLength maxLength "
               "pattern minItems maxItems uniqueItems minProperties maxProperties required properties "
               "patternProperties additionalProperties propertyNames items contains allOf anyOf oneOf not if then "
               "else $ref prefixItems tuple additionalItems dependencyNames dependencySchema dependentRequired "
               "dependentSchemas unevaluatedProperties unevaluatedItems minContains maxContains".split())
LEFT_OVER = set("unevaluatedProperties unevaluatedItems allOf anyOf oneOf if then else $ref properties prefixItems "
                "tuple items contains patternProperties dependentSchemas additionalProperties not minContains".split())
# what says directly what a table or an array consists of
DIRECT = set("type enum const required properties patternProperties additionalProperties propertyNames items "
             "prefixItems tuple additionalItems minItems uniqueItems minProperties maxProperties minimum maxLength "
             "dependentRequired".split())


@check("C08")
def c08(prop, tier, seed, scratch, t0):
    deep = tier == "thorough"

    def run(name, num=None, kinds=KEYWORDS, schemas=1, kws=1, laws=(), strict=False, recursion=False,
            defects=frozenset()):
        return dict(module="JsonSchema", name=name, simulate=num and dict(num=num, depth=90),
                    invariants=["TypeOK", "Sane"] + list(laws),
                    consts=dict(Dialects={"draft-07", "2019-09", "2020-12"}, Kinds=kinds, MinSchemas=1,
                                MaxSchemas=schemas, MinKw=1, MaxKw=kws, Strict=strict, Recursion=recursion,
                                LeafSet=set("true false empty string integer object min2 long1 const1 enum reqA reqB x"
                                            .split()), Defects=set(defects)))
    laws = ["Laws", "Closing", "Plain"]
    runs = [
        run("every keyword", laws=laws),
        run("two keywords", 6000 if deep else 800, kws=2, laws=laws),
        run("schemas of schemas", 30000 if deep else 1500, schemas=3, kws=3),
        run("what is left over", 30000 if deep else 1200, kinds=LEFT_OVER, schemas=3, kws=3),
        run("schemas that refer to themselves", 20000 if deep else 700, schemas=3, kws=3, recursion=True),
        run("strict", 15000 if deep else 700, kinds=DIRECT, schemas=3, kws=2, strict=True),
    ]
    if deep:
        runs.append(run("large schemas", 6000, schemas=5, kws=5))
    return generate_and_replay(prop, tier, seed, scratch, t0, "schema", runs, refuted=[
        run("additional", kinds={"properties", "patternProperties"}, laws=["Plain"], defects={"additional"}),
        run("unevaluated", kinds={"properties", "$ref", "allOf"}, schemas=2, laws=["Closing"], defects={"unevaluated"})],
        assumptions=[
            "schemas of up to 3 parts of 3 keywords (5 of 5 in the thorough run) over 13 ready-made parts, judged on 57 "
            "values; drafts 07, 2019-09 and 2020-12; formats, $anchor, $dynamicRef, $id and remote references are not "
            "varied, and neither is what stands beside $ref under draft-07; self-reference only below a keyword that "
            "descends; in strict mode schemas without applicators"])


# ---------------------------------------------------------------- C18
@check("C18")
def c18(prop, tier, seed, scratch, t0):
    deep = tier == "thorough"
    never = {"unit", "ustruct", "bytes", "u64:big"}
    leaves = never | {
        "b:true", "b:false", "i:-5", "i8:min", "i64:min", "i64:max", "u8:max", "u64:max", "f:1", "f:-0", "f:1.5",
        "f:1e300", "f:5e-324", "f:1e16", "f:inf", "f:-inf", "f:nan", "f32:0.1", "c:a", "c:quote", "c:nl", "s:empty",
        "s:plain", "s:quote", "s:backslash", "s:lf", "s:crlf", "s:control", "s:uni", "s:apos", "s:mixed", "s:tripple",
        "s:hash", "s:date", "s:tab", "s:long", "uv:A", "none", "odt", "ldt", "date", "time"}
    keys = {"bare", "k2", "empty", "dot", "space", "quote", "apos", "both", "uni", "lf", "num", "hash", "backslash", "eq", "int"}
    kinds = {"map", "struct", "seq", "tuple", "tstruct", "some", "newtype", "nv", "tv", "sv"}

    def run(name, simulate=None, defects=(), **over):
        c = dict(Leaves=leaves, Keys=keys, Kinds=kinds, Roots=kinds, Variants={"A", "B"}, MaxDepth=3, MaxSize=2,
                 MaxItems=2, Defects=set(defects))
        c.update(over)
        return dict(module="SerdeValues", name=name, consts=c, simulate=simulate,
                    invariants=["TypeOK", "Identity", "RootIsTable"])

    runs = [
        run("every leaf under every key", MaxSize=1, Kinds=set(), Roots={"map", "struct", "sv"}),
        run("every leaf in an array", MaxSize=3 if deep else 2, Kinds={"seq", "tv"}, Roots={"struct"}, Keys={"bare"}, MaxItems=3 if deep else 2),
        run("every tree of three", MaxSize=3, MaxDepth=4, Leaves={"i:-5", "none", "s:quote"}, Keys={"bare", "dot"}),
        run("tables, arrays and variants", MaxSize=6 if deep else 5, MaxDepth=5 if deep else 4, Leaves={"i:-5"},
            Keys={"bare", "k2"}, Kinds={"map", "seq", "nv"}, Roots={"map"}),
        run("large values", MaxSize=60 if deep else 30, MaxDepth=8 if deep else 6, MaxItems=6 if deep else 5,
            Leaves=leaves - never, Keys=keys - {"int"}, Roots={"map", "struct", "sv"},
            simulate=dict(num=20000 if deep else 2000, depth=140 if deep else 70)),
        run("large values, some refused", MaxSize=30, MaxDepth=6, MaxItems=5,
            simulate=dict(num=5000 if deep else 300, depth=70)),
    ]
    if deep:
        runs.append(run("every tree of four", MaxSize=4, MaxDepth=5, Leaves={"i:-5"}, Keys={"bare", "dot"},
                        Kinds={"map", "struct", "seq", "tuple", "nv", "tv", "sv"}, Variants={"A"}))
    small = dict(Leaves={"i:-5", "none"}, Keys={"bare"})
    refuted = [run("variants without their name", defects=("untagged",), **small),
               run("what is absent is dropped from arrays", defects=("drops",), **small)]
    return generate_and_replay(
        prop, tier, seed, scratch, t0, "serde", runs, refuted=refuted,
        assumptions=["what is absent from a table reads as absent, with the entry of the map or without it",
                     "a value that TOML cannot express must be refused; which error it is refused with is left open"])
