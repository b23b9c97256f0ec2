"""What each check runs: drivers, the trace specification that judges them, abstract models, and non-vacuity floors."""


def kinds(*ks, prefix=None, notprefix=None):
    """Keep the events of these kinds (and the ctx events), in sessions whose name fits."""
    keep = set(ks) | {"ctx", "died"}

    def f(sessions):
        out = []
        for s in sessions:
            if prefix and not s["name"].startswith(prefix):
                continue
            if notprefix and s["name"].startswith(notprefix):
                continue
            out.append({"name": s["name"], "ev": [e for e in s["ev"] if e["e"] in keep]})
        return out
    return f


def nonzero(*path):
    def g(ev):
        o = ev
        for k in path:
            o = o[k]
        return o["s"] != 4
    return g


NONALG = ("free", "loc", "pauli", "inf")


def by_op(*ops, also=(), whys=None):
    """Which rejections of a matrix-system trace belong to a property: those of these matrix operations and event kinds."""
    def claims(ev, why):
        if whys and why in whys:
            return True
        return ev["e"] in also or (ev["e"] == "mat" and ev.get("op") in ops)
    return claims


BUILD = ("mm", "lm", "plm", "raw", "side")
ARITH = ("pre", "post", "add", "addp", "clone", "val")
SELF = {"included symbols", "basis elements"}


def matrices(focus, claims, corrupt, **kw):
    return dict({"topic": "matrices", "module": "TraceMatrices", "args": ["--focus", focus], "claims": claims, "corrupt": corrupt}, **kw)


def some(e):
    """The cell in the middle has a term that is not zero."""
    for c in (e["m"][len(e["m"]) // 2:] or [[]])[:1]:
        return bool(c) and c[len(c) // 2][0] != 0
    return False


def op(*ops):
    return lambda e: e["op"] in ops and "threw" not in e and e["dim"] > 0

CHECKS = {
    "P01": {
        "parts": [{"topic": "words", "module": "TraceWords",
                   "filter": kinds("mk", "mul", "append", "presorted", "canon", notprefix="alg_"),
                   "corrupt": {"mk": [("out.s", nonzero("out"))], "mul": [("out.s", nonzero("out"))],
                               "canon": ["some"], "presorted": ["hok"], "append": [("out.s", nonzero("out"))]}}],
        "models": [{"module": "WordsMC", "cfg": "WordsMC.cfg", "tiers": ("quick",), "min_states": 10000},
                   {"module": "WordsMC", "cfg": "WordsMCDeep.cfg", "tiers": ("thorough",), "min_states": 100000}],
        "need": {"mk": 1000, "mul": 2000, "append": 100, "presorted": 50, "canon": 500},
    },
    "P02": {
        "parts": [{"topic": "words", "module": "TraceWords", "filter": kinds("conj", "neg", "cmp", "herm"),
                   "corrupt": {"conj": [("out.s", nonzero("out"))], "neg": ["out.s", "hok"], "cmp": ["eq", "lt", "sn"],
                               "herm": [("t", nonzero("a"))]}}],
        "models": [{"module": "WordsMC", "cfg": "WordsMC.cfg", "tiers": ("quick",), "min_states": 10000},
                   {"module": "WordsMC", "cfg": "WordsMCDeep.cfg", "tiers": ("thorough",), "min_states": 100000}],
        "need": {"conj": 1000, "neg": 500, "cmp": 1000, "herm": 1000},
    },
    "P03": {
        "parts": [{"topic": "completion", "module": "TraceCompletion",
                   "corrupt": {"complete": [("ok", lambda e: e["ok"])]}},
                  {"topic": "words", "module": "TraceWords",
                   "filter": kinds("mk", "mul", "append", "canon", prefix="alg_"),
                   "corrupt": {"mul": [("out.s", nonzero("out"))], "canon": ["some"]}}],
        "models": [{"module": "CompletionMC", "cfg": "CompletionMC.cfg", "tiers": ("quick",), "min_states": 20},
                   {"module": "CompletionMC", "cfg": "CompletionMCDeep.cfg", "tiers": ("thorough",), "min_states": 50}],
        "need": {"rules": 300, "complete": 200, "test": 200, "reduce": 1000, "mul": 500},
    },
    "P04": {
        "parts": [matrices("symbols", by_op(also=("sym", "table", "look", "dict", "same", "died")),
                           {"look": ["id"], "dict": ["grew", "ix", "fwd"], "sym": [("t.*.h", lambda e: e["from"] > 1), "from"], "table": ["t", "re"]})],
        "need": {"look": 4000, "sym": 300, "table": 90, "dict": 150},
    },
    "P05": {
        "parts": [matrices("build", lambda ev, why: why not in SELF and (ev["e"] in ("mat", "sym", "osg")),
                           {"mat": [("m.*.*.1", lambda e: e["op"] in ("mm", "lm") and some(e)), ("m.*.*.0", op("mm")), ("herm", op("mm")), ("dim", op("mm"))],
                            "osg": [("fwd", lambda e: len(e["fwd"]) > 2)]})],
        "need": {"mat": 2000, "sym": 300},
    },
    "P06": {
        "parts": [matrices("arith", by_op(*ARITH, also=("sym",)),
                           {"mat": [("m.*.*.1", lambda e: e["op"] in ("pre", "post") and some(e)), ("m.*.*.2", lambda e: e["op"] in ("add", "addp", "clone") and some(e)), ("m", op("pre", "post")), ("ah", op("val")), ("herm", lambda e: e["op"] == "val" and e["dim"] > 0)]})],
        "need": {"mat": 2000},
    },
    "P07": {
        "parts": [matrices("bases", by_op(also=("basis",), whys=SELF | {"basis lists of the symbol table", "hermiticity or basis indices of a symbol"}),
                           {"basis": [("re.*.3", lambda e: e["ok"]), ("im.*.4", lambda e: e["ok"]), ("re", lambda e: e["ok"]), ("nre", lambda e: e["ok"] and False)],
                            "mat": [("cc", op("lm", "pre", "post")), ("inc", op("mm", "lm", "pre"))]})],
        "need": {"basis": 4000, "mat": 1000},
    },
    "P08": {
        "parts": [matrices("cache", lambda ev, why: ev["e"] in ("get", "del", "find") or why in (
                               "index not remembered", "offset", "number of matrices", "a matrix in the system changed",
                               "a registered symbol changed", "symbol table shrank") or
                               (ev["e"] == "mat" and ev.get("op") in ("mm", "lm", "plm") and (why == "cell" or why.startswith("exception"))),
                           {"get": ["ok"], "del": ["ok"], "find": [("off", lambda e: e["off"] >= 0)], "mat": ["n", ("off", op("mm", "lm"))]})],
        "need": {"mat": 1500, "find": 300, "del": 120, "get": 100},
    },
    "P09": {
        "parts": [{"topic": "pauli", "module": "TracePauli", "args": ["--focus", "nn"],
                   "corrupt": {"nn": [("words.*.0", lambda e: not e["threw"] and len(e["words"]) > 2), ("count", lambda e: not e["threw"]),
                                      ("ok", lambda e: not e["threw"]), ("same", lambda e: not e["threw"])]}}],
        "need": {"nn": 1000},
    },
    "P10": {
        "parts": [{"topic": "pauli", "module": "TracePauli", "args": ["--focus", "sym"],
                   "corrupt": {"hash": ["lt", "alias", "eq"], "orb": ["f.*.is"], "shift": [("out.*", lambda e: len(e["out"]) > 0)],
                               "fill": [("hi", lambda e: not e["threw"])]}}],
        "need": {"fill": 1000, "shift": 4000, "orb": 1000, "hash": 250, "copy": 500},
    },
    "P11": {
        "parts": [matrices("pauli", lambda ev, why: why not in SELF and (ev["e"] in ("nosg", "find", "comm", "pcomm") or
                               (ev["e"] == "mat" and (ev.get("nb") is not None or ev.get("op") in ("rcm", "ram", "side")))),
                           {"mat": [("m.*.*.1", lambda e: e["op"] in ("mm", "lm", "cm", "am", "pcm", "rcm") and some(e)), ("m.*.*.2", lambda e: e["op"] in ("am", "pam", "ram", "plm") and some(e))],
                            "nosg": [("fwd", lambda e: len(e["fwd"]) > 2)], "find": [("off", lambda e: e["off"] >= 0)],
                            "comm": [("com.s", nonzero("com")), ("anti.s", nonzero("anti"))], "pcomm": [("com.*.re", lambda e: len(e["com"]) > 0)]})],
        "need": {"mat": 1200, "nosg": 300, "find": 80, "comm": 150, "pcomm": 70},
    },
    "P12": {
        "parts": [{"topic": "polys", "module": "TracePolys",
                   "corrupt": {"new": [("out.*.1", lambda e: len(e.get("out", [])) > 0)], "sum": [("out.*.2", lambda e: len(e.get("out", [])) > 0)],
                               "scale": [("out.*.0", lambda e: len(e.get("out", [])) > 0)], "conj": [("out.*.3", lambda e: len(e.get("out", [])) > 0)],
                               "flags": ["herm", "anti", "deg", "realf"], "cmp": ["eq", "cc", "lt", "ltc"],
                               "vec": [("ca.*.1", lambda e: len(e.get("ca", [])) > 0), ("tx.*.2", lambda e: len(e.get("tx", [])) > 0), "mac"],
                               "back": [("out.*.1", lambda e: len(e.get("out", [])) > 0)], "mask": [("re.*", lambda e: len(e.get("re", [])) > 0)]}},
                  {"topic": "words", "module": "TraceWords", "filter": kinds("pmul"), "corrupt": {"pmul": [("out.*.re", lambda e: len(e.get("out", [])) > 0)]}}],
        "need": {"new": 800, "raw": 300, "sum": 1500, "scale": 300, "conj": 300, "fix": 300, "reim": 300, "flags": 300, "cmp": 700, "mask": 300, "vec": 300, "back": 300},
    },
    "P13": {
        "parts": [{"topic": "rules", "module": "TraceRules",
                   "corrupt": {"complete": [("rules.*.k", lambda e: e["res"] == "ok"), ("ret", lambda e: e["res"] == "ok"), ("herm", lambda e: e["res"] == "ok")],
                               "red": [("out.*.1", lambda e: len(e["out"]) > 0), "ret"], "rule": [("back.*.1", lambda e: len(e.get("back", [])) > 0), ("hits", lambda e: "hits" in e)],
                               "cmp": ["r"], "sub": [("out.*.*.1", lambda e: e["res"] == "ok" and all(len(x) > 0 for x in e["out"])), "used"],
                               "basis": [("m.*.2", lambda e: len(e["m"]) > 0)], "strict": [("out.*.*.1", lambda e: e["res"] == "ok" and all(len(x) > 0 for x in e["out"]))], "inject": [("ret", lambda e: e["res"] == "ok")], "store": ["id"],
                               "combine": [("ret", lambda e: e["res"] == "ok")]}}],
        "need": {"complete": 1500, "red": 1500, "add": 1000, "rule": 600, "inject": 300, "sub": 300, "strict": 120, "basis": 300, "cmp": 300, "combine": 100, "store": 100},
    },
    "P14": {
        "parts": [{"topic": "inflation", "module": "TraceInflation",
                   "corrupt": {"fac": [("f.*.bag.*", lambda e: len(e["f"]) > 4), ("idx.*", lambda e: len(e["f"]) > 4), ("f.*.app", lambda e: True)],
                               "ext": [("out.*", lambda e: e.get("res") == "ok"), ("dim", lambda e: e.get("res") == "ok")], "mul": ["out"],
                               "pmul": [("out.*.1", lambda e: len(e.get("out", [])) > 0)], "sug": [("out.*", lambda e: len(e["out"]) > 0)],
                               "state": [("rules.*.k", lambda e: True), ("pend", lambda e: True)], "query": ["flat", "in.*.gv"], "parts": [("p.*.w.*", lambda e: all(len(x["w"]) > 0 for x in e["p"]))]}}],
        "need": {"parts": 400, "fac": 150, "ext": 100, "mul": 200, "pmul": 100, "sug": 80, "query": 40, "state": 80, "store": 40, "red": 150, "complete": 100, "sub": 10, "combine": 4},
    },
    "P15": {
        "parts": [{"topic": "tensors", "module": "TraceTensors",
                   "corrupt": {"tensor": [("count", lambda e: True), ("items.*.id", lambda e: e["kind"] == "cg"), ("items.*.cg.*.1", lambda e: e["kind"] != "cg" and all(len(x["cg"]) > 0 for x in e["items"])), ("items.*.sy.*.1", lambda e: e["kind"] != "cg" and all(x["has"] and len(x["sy"]) > 0 for x in e["items"]))],
                               "range": [("o.*", lambda e: e["res"] == "ok" and len(e["o"]) > 0), ("size", lambda e: e["res"] == "ok")], "elem": [("cg.*.1", lambda e: e["res"] == "ok")],
                               "corr": [("cg.*.1", lambda e: e["res"] == "ok")], "rules": [("out.*.*.1", lambda e: e["res"] == "ok" and all(len(x) > 0 for x in e["out"]))],
                               "conv": [("out.*.0", lambda e: e["res"] == "ok")], "view": ["out.*.re"], "names": ["opm.*", "pm.*.2", "mmts"], "race": ["same"]}}],
        "need": {"tensor": 400, "range": 300, "elem": 200, "rules": 200, "view": 120, "corr": 40, "conv": 30, "names": 30, "nofc": 60, "race": 200},
    },
    "P16": {
        "parts": [{"topic": "symmetry", "module": "TraceSymmetry",
                   "corrupt": {"group": [("out.0", lambda e: e["res"] == "ok" and len(e["out"]) > 1), ("res", lambda e: False)],
                               "rep": ["out.*.*.*.1", "sum.0.0.1", "same"], "map": ["longest", "rank", "mono", "inv.1.0.1", "from"],
                               "apply": [("out.*.1", lambda e: e["ok"] and len(e["out"]) > 0), ("ok", lambda e: len(e["p"]) > 0)], "unapply": [("out.*.1", lambda e: len(e["out"]) > 0)],
                               "dm": [("m.0.0.1", lambda e: e.get("res") == "ok" and len(e["m"][0]) > 0), ("dim", lambda e: e.get("res") == "ok"), ("mono", lambda e: e.get("res") == "ok"), ("off", lambda e: e.get("res") == "ok")],
                               "core": [("off.*.0", lambda e: e.get("res") == "ok" and len(e["off"]) > 0), ("consts.*.1", lambda e: e.get("res") == "ok" and len(e["consts"]) > 0), ("rank", lambda e: e.get("res") == "ok" and not e["nosolve"] and not e["trivial"])],
                               "refuse": []}}],
        "need": {"group": 200, "rep": 300, "map": 250, "apply": 400, "unapply": 400, "dm": 800, "core": 250, "refuse": 20},
    },
    "P17": {
        "parts": [{"topic": "imports", "module": "TraceImports",
                   "corrupt": {"imp": ["res", ("off", lambda e: e["res"] == "ok")], "sym": [("t.*.h", lambda e: len(e["t"]) > 3), ("re.1", lambda e: len(e["re"]) > 2)],
                               "mat": [("m.*.*.1", lambda e: all(len(c) and c[0][0] for c in e["m"])), ("herm", lambda e: not e["herm"] and e["dim"] > 1 and False), ("inc", lambda e: len(e["inc"]) > 1 and 0 not in e["inc"])],
                               "basis": [("re.*.3", lambda e: e["ok"] and len(e["re"]) > 0), ("im.*.4", lambda e: e["ok"] and len(e["im"]) > 0)],
                               "op": [("off", lambda e: "threw" not in e)]}}],
        "models": [{"module": "ImportsMC", "cfg": "ImportsMC.cfg", "tiers": ("quick",), "min_states": 16},
                   {"module": "ImportsMC", "cfg": "ImportsMCDeep.cfg", "tiers": ("thorough",), "min_states": 30}],
        "need": {"imp": 2000, "sym": 2500, "mat": 5000, "basis": 8000, "op": 300},
    },
    "P18": {
        "parts": [{"topic": "text", "module": "TraceText",
                   "corrupt": {"names": ["t.*.0", "len.*"], "table": [("shown.*.0", lambda e: e["ok"]), ("single", lambda e: e["ok"]), ("look.*.id", lambda e: e["ok"]), "ok"],
                               "parse": ["ok", ("id", lambda e: e["ok"]), ("f", lambda e: e["ok"])], "word": ["t.0"], "raw": ["t.0"], "index": ["t.0"], "pmo": ["t.0"], "poly": ["t.0"], "term": ["t.0"],
                               "mmi": ["t.0"], "lmi": ["t.0"], "plmi": ["t.0"], "smi": ["t.0", ("t.19", lambda e: len(e["t"]) > 20)]}}],
        "models": [{"module": "TextMC", "cfg": "TextMC.cfg", "tiers": ("quick",), "min_states": 900},
                   {"module": "TextMC", "cfg": "TextMCDeep.cfg", "tiers": ("thorough",), "min_states": 1700}],
        "need": {"names": 10, "table": 300, "parse": 1000, "word": 4000, "raw": 1000, "index": 700, "pmo": 300, "poly": 2500, "term": 1200, "mmi": 350, "lmi": 350, "plmi": 350, "smi": 350},
    },
    "P19": {
        "parts": [{"topic": "containers", "module": "TraceContainers",
                   "corrupt": {"vec": ["size", "empty", "all.*.0"], "bit": ["count", "first", "empty"], "tree": [("got", lambda e: e["op"] in ("find", "hint", "new", "node"))],
                               "enum": ["placed", "items.*.0"], "fn": [("y.0", lambda e: e["f"] not in ("merge", "chunks", "parts", "kron"))], "tensor": ["count", "refused"], "flat": ["size", "empty"],
                               "square": ["pd", "rows.0.0"], "keep": ["size"], "one": ["now"], "que": ["stop"], "rec": [("x.0", lambda e: e["op"] == "get")], "utf": ["n8", "n16", "u8.0"]}},
                  {"topic": "containers", "module": "TraceContainers", "san": "address", "name": "containers-asan", "tiers": ("thorough",)}],
        "models": [{"module": "ContainersMC", "cfg": "ContainersMC.cfg", "tiers": ("quick",), "min_states": 19000},
                   {"module": "ContainersMC", "cfg": "ContainersMCDeep.cfg", "tiers": ("thorough",), "min_states": 112000}],
        "need": {"vec": 1200, "bit": 2500, "tree": 1800, "enum": 500, "fn": 2000, "tensor": 150, "flat": 40, "square": 18, "keep": 450, "one": 36, "que": 200, "rec": 500, "utf": 360},
    },
    "P20": {
        "parts": [{"topic": "threads", "module": "TraceThreads", "san": "sched", "env": {"VSCHED": "5"}, "name": "threads-sched",
                   "corrupt": {"hist": [("h.*.4", lambda e: not e["stuck"])]}},
                  # whole systems used by several threads at once: what they make has to be what the specification says it is
                  {"topic": "matrices", "module": "TraceMatrices", "san": "sched", "env": {"VSCHED": "5"}, "name": "matrices-sched", "args": ["--focus", "mt", "--tier", "quick"],
                   "corrupt": {"mat": [("m.*.*.1", lambda e: e["op"] in ("mm", "lm") and some(e))]}}],
        "models": [{"module": "QueueMC", "cfg": "QueueMC.cfg", "tiers": ("quick",), "min_states": 12000},
                   {"module": "QueueMC", "cfg": "QueueMCSpurious.cfg", "min_states": 14000},
                   {"module": "QueueMC", "cfg": "QueueMCUnguarded.cfg", "refute": True},
                   {"module": "QueueMC", "cfg": "QueueMCDeep.cfg", "tiers": ("thorough",), "min_states": 110000},
                   {"module": "KeptMC", "cfg": "KeptMC.cfg", "min_states": 15000},
                   {"module": "KeptMC", "cfg": "KeptMCNumbered.cfg", "min_states": 4500},
                   {"module": "KeptMC", "cfg": "KeptMCUnchecked.cfg", "refute": True},
                   {"module": "KeptMC", "cfg": "KeptMCDeep.cfg", "tiers": ("thorough",)},
                   {"module": "KeptMC", "cfg": "KeptMCNumberedDeep.cfg", "tiers": ("thorough",), "min_states": 400000}],
        "need": {"hist": 1500, "explored": 10, "mat": 4000},
    },
}
