"""
For every property: which design models TLC checks, which behaviours TLC generates and the real code executes, and which
clauses of the specification the property consists of.
"""


def gen(module, mode, quick, thorough, **more):
    return dict(module=module, mode=mode, size=(quick, thorough), **more)


def design(module, constants, invariants=(), **more):
    return dict(module=module, constants=constants, invariants=list(invariants), **more)


def clauses(names, ops=None, but=()):
    names = set(names)
    return lambda ev, c, f: c in names and (ops is None or ev.get("op") in ops) and ev.get("op") not in but


GLAWS = ({"DIAG": 2, "OFF": 2}, {"DIAG": 4, "OFF": 2})
TREES, LOOPS = '{"pair","chain","wide","star","forest","special","special2"}', '{"loop","loopx"}'
FREE, GREEDY = '{"-"}', '{"0","1/50","1/2"}'


def gmc(models, tols, invariants, seeds=(3, 30), depth=(4, 6), **more):
    """All schedules (or all greedy runs) on small graphs."""
    both = [{"MODELS": models, "SEEDS": s, "DEPTH": d, "TOLS": tols} for s, d in zip(seeds, depth)]
    return design("GraphMC", both, invariants, **more)


def bmc(invariants):
    """All constructions from factors with small scopes."""
    return design("BuildMC", ({"FACTORS": 3, "NAMES": '{"a","b","c"}'}, {"FACTORS": 4, "NAMES": '{"a","b","c"}'}), invariants)


LAWS = ({"VALS": 2}, {"VALS": 3})
FACTOR = ["raised", "value", "order", "attributes"]
ENUM = (1, 1)


def gau(mode, quick=ENUM, thorough=ENUM, **more):
    return gen("GenGau", mode, quick, thorough, **more)


def graph(mode, quick, thorough, **more):
    return gen("GenGraph", mode, quick, thorough, worker="graph_worker.py", trace="GraphTrace",
               random=not mode.startswith("enum"), **more)


def touches(ev, f, kind):
    """Is an object of this kind involved in the event?"""
    if ev.get("op") == "newskm":
        return kind == "mix"
    if ev.get("op") in ("newmix", "newfac", "newnlg", "newnlm"):
        return ev["op"] == "new" + kind
    if isinstance(ev.get("res"), dict) and ev["res"].get("k") == kind or any(c["p"].get("k") == kind for c in ev["chg"]):
        return True
    made = {e["out"]: e["res"].get("k") for e in f["trace"]["ev"][: f["at"] - 1] if e.get("out") and isinstance(e["res"], dict)}
    return kind in (made.get(ev.get("a")), made.get(ev.get("b")))


PLANS = {
    "C01": {
        "design": [bmc(["RIP", "Sepsets", "Connected"])],
        "gen": [graph("enum-build", ENUM, ENUM), graph("enum-build-gau", ENUM, ENUM), graph("enum-build4", ENUM, ENUM, thorough_only=True),
                graph("build", (200, 4), (700, 4)), graph("bigbuild", (200, 2), (1000, 2))],
        "counts": clauses(["rip", "sepset-scope", "sepset-evidence", "symmetric", "paths", "raised"], ops=("build",)),
    },
    "C02": {
        "design": [bmc(["Model", "Valid", "EvidenceFirst"])],
        "gen": [graph("enum-build", ENUM, ENUM), graph("enum-build-gau", ENUM, ENUM), graph("enum-build4", ENUM, ENUM, thorough_only=True),
                graph("build", (240, 4), (700, 4)), graph("bigbuild", (120, 2), (600, 2))],
        "counts": clauses(["product", "cover", "ids", "raised", "zeros"], ops=("build",)),
    },
    "C03": {
        "design": [gmc(TREES, FREE, ["Repar", "NoEcho"]), gmc(LOOPS, FREE, ["Repar", "NoEcho"]), gmc(LOOPS, GREEDY, ["Repar"])],
        "gen": [graph("schedule", (200, 12), (400, 24)), graph("process", (100, 4), (300, 4)), graph("loop", (100, 8), (300, 14))],
        "counts": clauses(["reparam", "joint"]),
    },
    "C04": {
        "design": [gmc(TREES, FREE, ["Structure", "Exact"]), gmc(TREES, GREEDY, ["TreeExact", "GreedyConverges"]),
                   gmc(TREES, FREE, [], properties=["EventuallyCalibrated"], spec="Fair", seeds=(3, 12))],
        "gen": [graph("tree", (240, 4), (600, 4)), graph("gtree", (120, 4), (400, 4)),
                graph("kalman", (60, 4), (200, 4)), graph("big", (10, 4), (60, 4))],
        "counts": lambda ev, c, f: c in ("posterior", "order", "converge", "options") or (c == "raised" and ev["op"] in ("process", "marg", "build")),
    },
    "C05": {
        "design": [gmc(TREES, FREE, ["Stability"]), gmc(TREES, GREEDY, ["Early", "TreeExact"]), gmc(LOOPS, GREEDY, ["Early"])],
        "gen": [graph("tree", (120, 4), (400, 4)), graph("process", (240, 4), (600, 4)), graph("loop", (60, 8), (200, 14))],
        "counts": clauses(["early", "converge", "beliefs"], ops=("process",)),
    },
    "C06": {
        "design": [gmc(TREES, GREEDY, ["GainLaw", "Budget", "GreedyConverges"]), gmc(LOOPS, GREEDY, ["GainLaw", "Budget"]),
                   gmc(TREES, GREEDY, [], properties=["Ends"], spec="FairGreedy", seeds=(2, 10))],
        "gen": [graph("process", (320, 4), (700, 4)), graph("loop", (100, 8), (300, 14)), graph("tree", (60, 4), (200, 4)),
                graph("big", (8, 4), (40, 4))],
        "counts": clauses(["greedy", "budget", "records", "stop", "count", "options"]),
    },
    "C07": {
        "gen": [graph("inputs", (240, 12), (600, 20)), graph("tree", (60, 4), (200, 4))],
        "counts": lambda ev, c, f: c in ("inputs", "args", "shared", "disturbed", "accepted", "wrong-error")
        or (ev["op"] in ("marg", "joint", "msg") and c in ("answer", "joint", "message", "order", "raised")),
    },
    "C08": {
        "design": [gmc(TREES, FREE, ["NoEcho", "Idempotent"]), gmc(LOOPS, FREE, ["NoEcho", "Idempotent"])],
        "gen": [graph("schedule", (240, 14), (600, 24)), graph("loop", (120, 10), (300, 16)), graph("process", (80, 4), (200, 4))],
        "counts": clauses(["message", "receiver", "others", "beliefs", "raised"], ops=("pass", "msg", "process")),
    },
    "C09": {
        "design": [bmc(["EvidenceFirst"]), gmc('{"special","special2"}', FREE, ["Structure", "Exact"])],
        "gen": [graph("evid", (200, 4), (600, 4)), graph("build", (60, 4), (200, 4))],
        "counts": lambda ev, c, f: (f["trace"]["mode"] == "evid" and c in ("posterior", "converge", "raised", "answer", "order"))
        or (ev["op"] == "build" and c in ("product", "raised", "sepset-evidence")),
    },
    "C10": {
        "design": [gmc(TREES, FREE, ["Zeros"]), gmc(LOOPS, FREE, ["Zeros", "Repar"]), gmc(TREES, GREEDY, ["Zeros", "TreeExact"])],
        "gen": [graph("zeros", (220, 12), (600, 20)), graph("zerotree", (160, 4), (500, 4))],
        "counts": clauses(["zeros", "message", "receiver", "beliefs", "posterior", "answer", "raised", "reparam", "converge", "product",
                           "joint"]),
    },
    "F01": {
        "design": [design("TableLaws", LAWS, ["MulCommutes", "MulPointwise", "OrderIrrelevant", "MargOrder", "MargDistributes",
                                              "ReduceDistributes", "WeightIsTotal", "NormScale"])],
        "gen": [gen("GenTab", "enum-dense-bin", ENUM, ENUM), gen("GenTab", "enum-dense-unary", ENUM, ENUM),
                gen("GenTab", "enum-dense-bin4", ENUM, ENUM, thorough_only=True),
                gen("GenTab", "rand-dense", (240, 14), (600, 24)), gen("GenTab", "rand-algebra", (160, 12), (400, 20))],
        "counts": clauses(FACTOR, but=("cancel", "kl", "eq", "ne", "pot", "argmax", "argmaxn", "list", "show", "dfv", "isvac")),
    },
    "F02": {
        "design": [design("TableLaws", LAWS, ["MulCommutes", "MulPointwise", "OrderIrrelevant", "MargOrder", "MargDistributes",
                                              "ReduceDistributes", "WeightIsTotal", "NormScale", "CancelIsQuotient"])],
        "gen": [gen("GenTab", "enum-sparse-bin", ENUM, ENUM), gen("GenTab", "enum-sparse-unary", ENUM, ENUM),
                gen("GenTab", "enum-sparse-bin4", ENUM, ENUM, thorough_only=True),
                gen("GenTab", "enum-big", ENUM, ENUM),
                gen("GenTab", "rand-sparse", (320, 14), (700, 22))],
        "counts": clauses(FACTOR + ["accepted", "answer"], but=("kl", "eq", "ne", "pot", "argmax", "argmaxn", "list", "show", "dfv", "isvac")),
    },
    "F03": {
        "design": [design("TableLaws", LAWS, ["CancelRestores", "CancelIsQuotient"])],
        "gen": [gen("GenTab", "enum-dense-bin", ENUM, ENUM), gen("GenTab", "enum-sparse-bin", ENUM, ENUM),
                gen("GenTab", "enum-dense-bin4", ENUM, ENUM, thorough_only=True),
                gen("GenTab", "rand-cancel", (300, 12), (700, 20))],
        "counts": clauses(FACTOR, ops=("cancel",)),
    },
    "F04": {
        "gen": [gen("GenTab", "rand-frame", (400, 22), (700, 40)),
                gen("GenTab", "enum-dense-unary", ENUM, ENUM), gen("GenTab", "enum-sparse-bin", ENUM, ENUM),
                gau("rand-gframe", (250, 20), (700, 36)), gau("rand-mframe", (160, 18), (500, 30)),
                gau("rand-fframe", (160, 18), (500, 30)), gau("rand-nframe", (160, 18), (500, 30)), gau("enum-gau-query"),
                gau("enum-gau-unary", thorough_only=True)],
        "counts": clauses(["operand", "args"]),
    },
    "F05": {
        "gen": [gen("GenTab", "enum-names", ENUM, ENUM), gen("GenTab", "rand-names", (500, 16), (900, 26)),
                gen("GenTab", "enum-dense-unary", ENUM, ENUM),
                gen("GenTab", "enum-dense-bin", ENUM, ENUM)],
        "counts": lambda ev, c, f: c in ("names", "accepted", "wrong-error") or (c == "raised" and "Names" in ev.get("err", ""))
        or (c == "answer" and ev.get("op") in ("list", "argmaxn")),
    },
    "F06": {
        "design": [design("TableLaws", LAWS, ["EqualityLaw", "OrderIrrelevant"])],
        "gen": [gen("GenTab", "rand-equal", (500, 16), (900, 26)), gen("GenTab", "enum-equal", ENUM, ENUM)],
        "counts": clauses(["answer", "raised", "accepted", "wrong-error"], ops=("eq", "ne")),
    },
    "F07": {
        "design": [design("TableLaws", LAWS, ["KLLaws"])],
        "gen": [gen("GenTab", "enum-kl", ENUM, ENUM), gen("GenTab", "rand-kl", (500, 16), (900, 26))],
        "counts": clauses(["answer", "raised"], ops=("kl", "dfv", "isvac")),
    },
    "F08": {
        "design": [design("TableLaws", LAWS, ["ModeLaw", "OrderIrrelevant"])],
        "gen": [gen("GenTab", "enum-eval", ENUM, ENUM), gen("GenTab", "rand-eval", (240, 14), (700, 24))],
        "counts": clauses(["answer", "raised"], ops=("pot", "argmax", "argmaxn", "list", "show")),
    },
    "G01": {
        "design": [design("GaussLaws", GLAWS, ["CovFormIsSame", "MargIsCovBlock", "OrderIrrelevant", "MulPointwise"])],
        "gen": [gau("enum-gau-query"), gau("enum-gau-query6", thorough_only=True), gau("rand-forms", (400, 18), (700, 30)),
                gau("rand-gau", (160, 14), (500, 24)), gau("rand-mix", (300, 20), (700, 30)), gau("rand-fac", (200, 18), (700, 28)),
                gau("enum-fac")],
        "counts": lambda ev, c, f: (f["trace"]["mode"] in ("rand-mix", "rand-fac", "enum-fac") and ev["op"] in ("norm", "par", "mm", "marg", "reduce")
                                    and c in ("value", "answer")) or c == "forms" or (c in ("answer", "raised") and ev["op"] in ("par", "gpot", "sample", "show"))
        or (c == "operand" and ev["op"] in ("par", "gpot", "sample", "eq", "ne", "kl", "dfv", "isvac", "copy", "mul", "div", "norm", "marg",
                                            "reduce", "cancel"))
        or (c in ("value", "attributes") and ev["op"] in ("newgau", "copy")),
    },
    "G02": {
        "design": [design("GaussLaws", GLAWS, ["MulPointwise", "MulCommutes", "OrderIrrelevant", "ReduceSteps", "ReduceDistributes",
                                               "MargSteps", "MargDistributes", "MargIsCovBlock", "ProperIsPosDef"])],
        "gen": [gau("enum-gau-bin"), gau("enum-gau-unary"), gau("enum-gau-unary4", thorough_only=True),
                gau("rand-gau", (400, 16), (700, 26))],
        "counts": clauses(FACTOR + ["forms"], ops=("mul", "div", "cancel", "marg", "reduce", "copy", "newgau", "newvac")),
    },
    "G03": {
        "design": [design("GaussLaws", GLAWS, ["MargSteps", "CovFormIsSame", "VacuousUnit", "MargIsCovBlock"])],
        "gen": [gau("rand-weight", (500, 18), (700, 30)), gau("enum-gau-unary"), gau("rand-gau", (160, 14), (500, 24))],
        "counts": lambda ev, c, f: (ev["op"] in ("norm", "dfv", "isvac", "newvac") and c in FACTOR + ["answer", "forms"])
        or (ev["op"] == "par" and ev.get("what") in ("lw", "w", "mean", "cov") and c in ("answer", "raised"))
        or (ev["op"] in ("mul", "div", "marg") and c in ("value", "raised", "forms")),
    },
    "G04": {
        "design": [design("GaussLaws", GLAWS, ["KLLaws", "EqualityLaw", "OrderIrrelevant"])],
        "gen": [gau("enum-gau-cmp"), gau("enum-gau-tweak"), gau("rand-gcmp", (500, 18), (800, 28)), gau("rand-weight", (100, 16), (300, 26))],
        "counts": lambda ev, c, f: ev["op"] in ("eq", "ne", "kl", "dfv") and c in ("answer", "raised", "accepted", "wrong-error", "operand"),
    },
    "G05": {
        "design": [design("GaussLaws", GLAWS, ["MixLaw", "MulPointwise", "ReduceSteps"])],
        "gen": [gau("enum-mixdiv"), gau("rand-mix", (600, 20), (900, 30))],
        "counts": lambda ev, c, f: c in FACTOR + ["answer", "accepted", "wrong-error", "forms"] and touches(ev, f, "mix"),
    },
    "G06": {
        "design": [design("GaussLaws", GLAWS, ["LinearLaw", "MargSteps"])],
        "gen": [gau("enum-lin"), gau("enum-lin4"), gau("rand-lin", (300, 16), (700, 26)), gen("GenTpl", "enum-tpl", ENUM, ENUM)],
        "counts": clauses(FACTOR + ["answer", "forms"]),
    },
    "H01": {
        "design": [design("GaussLaws", GLAWS, ["MulPointwise", "MulCommutes", "MargDistributes", "ReduceDistributes"])],
        "gen": [gau("enum-fac"), gau("enum-fac3", thorough_only=True), gau("rand-fac", (500, 18), (900, 28)), gau("rand-fframe", (160, 18), (400, 30))],
        "counts": lambda ev, c, f: c in FACTOR + ["answer", "accepted", "operand", "forms"] and touches(ev, f, "fac"),
    },
    "N01": {
        "design": [design("GaussLaws", GLAWS, ["LinearLaw", "MargIsCovBlock", "MulPointwise", "ReduceSteps"])],
        "gen": [gau("enum-sigma"), gau("enum-nlg"), gau("enum-nlg4", thorough_only=True), gau("rand-nlg", (400, 18), (700, 26))],
        "counts": lambda ev, c, f: c in FACTOR + ["answer", "accepted", "wrong-error", "forms", "operand"]
        and (ev["op"] == "sigma" or touches(ev, f, "nlg") or touches(ev, f, "nlm")),
    },
    "K01": {
        "design": [design("GaussLaws", GLAWS, ["LinearLaw", "MargIsCovBlock", "MulPointwise", "ReduceSteps"]),
                   gmc('{"pair","chain","star"}', FREE, ["Exact"]), gmc('{"pair","chain","star"}', GREEDY, ["TreeExact", "GreedyConverges"])],
        "gen": [graph("kalman", (160, 4), (600, 4)), graph("nlkalman", (160, 4), (600, 4))],
        "counts": clauses(["posterior", "order", "converge", "budget", "raised", "product", "rip", "cover", "inputs", "args"],
                          ops=("build", "process", "marg")),
    },
    "T01": {
        "design": [design("GaussLaws", GLAWS, ["LinearLaw"]), design("TableLaws", LAWS, ["OrderIrrelevant"])],
        "gen": [gen("GenTpl", "enum-tpl", ENUM, ENUM), gen("GenTpl", "enum-tpl3", ENUM, ENUM, thorough_only=True),
                gen("GenTpl", "rand-tpl", (300, 14), (700, 24))],
        "counts": clauses(FACTOR + ["answer", "accepted", "wrong-error", "operand", "args", "names", "forms"]),
    },
    "V01": {
        "design": [design("GaussLaws", GLAWS, ["CovFormIsSame", "LinearLaw"]), design("TableLaws", LAWS, ["OrderIrrelevant"])],
        "gen": [gen("GenArgs", "enum-raw-gau", ENUM, ENUM), gen("GenArgs", "enum-raw-tab", ENUM, ENUM), gen("GenArgs", "enum-args", ENUM, ENUM),
                gen("GenArgs", "enum-pairs", ENUM, ENUM), gen("GenTab", "rand-names", (100, 16), (400, 24)), gau("rand-gau", (100, 14), (400, 22))],
        "counts": lambda ev, c, f: f["trace"]["mode"] not in ("rand-names", "rand-gau") or c in ("accepted", "wrong-error", "operand"),
    },
    "A01": {
        "design": [design("AnimMC", ({"CLUSTERS": 3, "MESSAGES": 2}, {"CLUSTERS": 4, "MESSAGES": 3}), ["DrawnRight", "IsFilm", "Restored", "OnlyActive"])],
        "gen": [graph("enum-anim", ENUM, ENUM), graph("anim1", (100, 4), (400, 4)), graph("anim2", (60, 4), (400, 4)),
                graph("anim3", (60, 4), (400, 4))],
        "counts": lambda ev, c, f: c in ("frames", "drawing", "gif") or (c == "raised" and ev["op"] in ("process", "gif", "build"))
        or (ev["op"] == "process" and ev.get("anim") and c in ("message", "greedy", "records", "stop", "count", "beliefs", "budget", "early")),
    },
    "D01": {
        "design": [design("AnimMC", ({"CLUSTERS": 3, "MESSAGES": 2}, {"CLUSTERS": 4, "MESSAGES": 3}), ["DrawnRight"]), gmc(LOOPS, GREEDY, ["GainLaw"])],
        "gen": [graph("enum-save", ENUM, ENUM), graph("enum-anim", ENUM, ENUM), graph("anim1", (60, 4), (300, 4)),
                graph("plots", (200, 4), (700, 4)), gen("GenTab", "enum-plot", ENUM, ENUM), gau("rand-plot", (120, 14), (400, 20))],
        "counts": lambda ev, c, f: c in ("labels", "plot", "saved") or (ev["op"] == "build" and c == "drawing")
        or (ev["op"] in ("plot", "plotgain", "plotconv", "save") and c in ("raised", "accepted", "operand", "args", "inputs", "disturbed")),
    },
}
