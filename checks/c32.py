"""C32: settings and options are read as they are written: json with comments, rc files, literals, plot options"""
import json
import os
import shutil

import numpy as np
import yaml
from hypothesis import strategies as st

import viscid
from viscid import _rc, pyeval, vjson
from viscid.plot import vpyplot as vlt
from vf.core import Facet, label, nontrivial, raises, require, rng, seeds

_count = [0]


def fresh():
    _count[0] += 1
    d = os.path.abspath("c32-{0}".format(_count[0] % 4))
    if os.path.isdir(d):
        shutil.rmtree(os.path.abspath(d))
    os.makedirs(d)
    return d


def same(a, b):
    if type(a) != type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


# -------------------------------------------------------------------- json
TXT = st.text(alphabet="ab0 ,:{}[]#/'\"\\\n\tü", max_size=8)
VAL = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-1000, 10**12), st.floats(allow_nan=False, allow_infinity=False), TXT, TXT),
                   lambda ch: st.one_of(st.lists(ch, max_size=4), st.dictionaries(TXT, ch, max_size=4)), max_leaves=12)


@st.composite
def json_cases(draw):
    return {"v": draw(VAL), "seed": draw(seeds), "comments": draw(st.booleans()), "commas": draw(st.booleans()), "nl": draw(st.booleans()),
            "how": draw(st.sampled_from(["loads", "loads", "file", "dumps", "dump"]))}


def write_json(v, r, case):
    """-> text, with line breaks, comments and trailing commas wherever they may be"""
    def gap(end=False):
        s = ""
        for _ in range(r.randint(0, 3)):
            k = r.randint(0, 4)
            if k == 0 and case["comments"]:
                # quotes of comments come in pairs or don't
                s += " "[:r.randint(0, 2)] + ["#", "//"][r.randint(0, 2)] + ["", " it's", " \"x\" ,]", "}", " a # b // c", " 'q'", ",", " http://x", " {"][r.randint(0, 9)] + "\n"
            elif k == 1 and case["nl"]:
                s += "\n"
            elif k == 2:
                s += ["", " ", "\t"][r.randint(0, 3)]
        return s

    def put(v):
        if isinstance(v, (list, dict)):
            o, c = ("[", "]") if isinstance(v, list) else ("{", "}")
            items = [put(x) for x in v] if isinstance(v, list) else [json.dumps(k, ensure_ascii=bool(r.randint(0, 2))) + gap() + ":" + gap() + put(x) for k, x in v.items()]
            s = o + gap() + (gap() + "," + gap()).join(items)
            if items and case["commas"] and r.randint(0, 2):
                s += gap() + ","
            return s + gap() + c
        return json.dumps(v, ensure_ascii=bool(r.randint(0, 2)))

    return gap() + put(v) + gap()


def check_json(case):
    v = case["v"]
    r = rng(case["seed"])
    how = case["how"]
    label(how)
    if how in ("dumps", "dump"):
        if how == "dumps":
            text = vjson.dumps(v)
        else:
            fn = os.path.join(fresh(), "f.json")
            with open(fn, "w") as fh:
                vjson.dump(v, fh)
            text = open(fn).read()
        require(same(json.loads(text), v), "dumped {0!r} as {1!r}", v, text)
    else:
        text = write_json(v, r, case)
    if how in ("file", "dump"):
        fn = os.path.join(fresh(), "f.json")
        with open(fn, "w", encoding="utf8", newline="\n") as fh:
            fh.write(text)
        with open(fn, "r", encoding="utf8") as fh:
            got = vjson.load(fh)
    else:
        got = vjson.loads(text)
    require(same(got, v), "{0!r} is read as {1!r}, expected {2!r}", text, got, v)
    nontrivial(isinstance(v, (dict, list)) and len(v) > 1 and ("#" in text or "," in text))


# ---------------------------------------------------------------- rc files
class Thing(object):
    pass


@st.composite
def rc_cases(draw):
    path = st.sampled_from(["c32x.a", "c32x.b", "c32x.C.a", "c32x.C.b", "c32x.C.D.a", "c32x.new", "c32x.nope.a", "nope.a", "c32x.C.nope.b", "logger_c32", "c32x.E.k", "c32mod.v", "c32mod.K.w"])
    val = st.one_of(st.none(), st.booleans(), st.integers(-5, 5), st.floats(-2, 2).map(lambda x: round(x, 3)), st.sampled_from(["flat", "yes it is", "#x", "a: b", ""]),
                    st.lists(st.integers(0, 3), max_size=3), st.dictionaries(st.sampled_from("pq"), st.integers(0, 3), max_size=2))
    ent = [list(e) for e in draw(st.lists(st.tuples(path, val), max_size=6, unique_by=lambda e: e[0]))]
    return {"ents": ent, "fmt": draw(st.sampled_from(["json", "yaml"])), "path": draw(st.sampled_from(["abs", "env", "home"])), "exists": draw(st.sampled_from([True, True, True, False]))}


def check_rc(case):
    d = fresh()
    called = []

    def mk(name, **kw):
        def post(cls):
            called.append(cls.__name__)
        return type(name, (), dict(kw, post_rc_actions=classmethod(post)))

    D = mk("D", a=0)
    C = mk("C", a=0, b=0, D=D)
    E = type("E", (), {"k": 0})          # nothing to do afterwards
    X = mk("X", a=0, b=0, C=C, E=E)
    viscid.c32x = X
    # a module of the package that isn't imported yet
    import sys
    import types
    mod = types.ModuleType("viscid.c32mod")
    mod.v = 0
    mod.K = type("K", (), {"w": 0})
    sys.modules["viscid.c32mod"] = mod
    viscid.c32mod = mod
    roots = {"c32x": X, "c32x.C": C, "c32x.C.D": D, "c32x.E": E, "": viscid, "c32mod": mod, "c32mod.K": mod.K}
    # what was there before, and what should be there
    state, touched = {}, set()
    for p, v in case["ents"]:
        root, _, leaf = p.rpartition(".")
        if root in roots:
            state[p] = v
            if root in ("c32x", "c32x.C", "c32x.C.D"):
                touched.add(roots[root].__name__)
    fn = os.path.join(d, "rc")
    if case["exists"]:
        with open(fn, "w") as fh:
            obj = {p: v for p, v in case["ents"]}
            fh.write(json.dumps(obj) if case["fmt"] == "json" or not obj else yaml.safe_dump(obj))
    else:
        state, touched = {}, set()
    os.environ["C32DIR"] = d
    home = os.environ.get("HOME")
    name = {"abs": fn, "env": "$C32DIR/rc", "home": "~/rc"}[case["path"]]
    try:
        if case["path"] == "home":
            os.environ["HOME"] = d
        _rc.load_rc_file(name)
    finally:
        if home is not None:
            os.environ["HOME"] = home
    try:
        dflt = {"c32x.a": 0, "c32x.b": 0, "c32x.C.a": 0, "c32x.C.b": 0, "c32x.C.D.a": 0, "c32x.E.k": 0, "c32mod.v": 0, "c32mod.K.w": 0}
        for p in set(dflt) | set(state):
            root, _, leaf = p.rpartition(".")
            got = getattr(roots[root], leaf, "missing")
            want = state[p] if p in state else dflt[p]
            require(same(got, want), "{0} is {1!r} after reading {2}, expected {3!r}", p, got, case["ents"], want)
        require(sorted(called) == sorted(touched), "actions of {0}, expected {1}", sorted(called), sorted(touched))
    finally:
        for k in ("c32x", "c32mod", "logger_c32"):
            if hasattr(viscid, k):
                delattr(viscid, k)
        del sys.modules["viscid.c32mod"]
    nontrivial(len(state) > 1)


# ---------------------------------------------------------------- literals
WORDS = ["abc", "x_y", "Truee", "viridis", "nan", "T", "no"]


@st.composite
def lit(draw, depth=2):
    k = draw(st.sampled_from(["int", "float", "word", "str", "bool", "none", "list", "tuple", "dict"] if depth else ["int", "float", "word", "str", "bool", "none"]))
    if k == "int":
        return [k, draw(st.integers(-10**6, 10**6))]
    if k == "float":
        return [k, draw(st.floats(-1e10, 1e10, allow_nan=False))]
    if k == "word":
        return [k, draw(st.sampled_from(WORDS))]
    if k == "str":
        return [k, draw(st.text(alphabet="ab ,'\"[]#:=_1", max_size=6))]
    if k == "bool":
        return [k, draw(st.sampled_from(["true", "True", "TRUE", "false", "False", "fAlse"]))]
    if k == "none":
        return [k, draw(st.sampled_from(["none", "None", "NONE"]))]
    if k == "dict":
        return [k, [[["str", draw(st.text(alphabet="abc", min_size=1, max_size=3))], draw(lit(depth=depth - 1))] for _ in range(draw(st.integers(0, 3)))]]
    return [k, [draw(lit(depth=depth - 1)) for _ in range(draw(st.integers(0, 3)))]]


def lit_text(e):
    k, v = e
    if k in ("int", "float", "str"):
        return repr(v)
    if k in ("word", "bool", "none"):
        return v
    if k == "list":
        return "[" + ", ".join(map(lit_text, v)) + "]"
    if k == "tuple":
        return "(" + "".join(lit_text(x) + ", " for x in v) + ")"
    return "{" + ",".join(lit_text(a) + ":" + lit_text(b) for a, b in v) + "}"


def lit_value(e):
    k, v = e
    if k in ("int", "float", "str", "word"):
        return v
    if k == "bool":
        return v.lower() == "true"
    if k == "none":
        return None
    if k == "list":
        return [lit_value(x) for x in v]
    if k == "tuple":
        return tuple(lit_value(x) for x in v)
    return {lit_value(a): lit_value(b) for a, b in v}


@st.composite
def pyeval_cases(draw):
    return {"e": draw(lit()), "pad": draw(st.sampled_from(["", " ", "\n", "  \t"])), "bad": draw(st.sampled_from([None, None, None, "f(1)", "a.b", "[x for x in y]", "1 if a else 2", "__import__('os').getcwd()"]))}


def check_pyeval(case):
    if case["bad"]:
        # nothing is ever executed
        raises(lambda: pyeval.parse(case["bad"]), "parsing {0}".format(case["bad"]), pyeval.PyEvalError)
        raises(lambda: pyeval.parse("[{0}, {1}]".format(lit_text(case["e"]), case["bad"])), "parsing a list with {0}".format(case["bad"]), pyeval.PyEvalError)
        return
    text = case["pad"] + lit_text(case["e"]) + case["pad"]
    got = pyeval.parse(text)
    require(same(got, lit_value(case["e"])), "{0!r} is {1!r}, expected {2!r}", text, got, lit_value(case["e"]))
    nontrivial(case["e"][0] in ("list", "tuple", "dict") and len(case["e"][1]) > 1)


# ------------------------------------------------------------ plot options
@st.composite
def opt_cases(draw):
    opts = []
    names = draw(st.lists(st.sampled_from(["log", "lin", "x", "y", "cmap", "grid", "earth", "style", "ownfig"]), min_size=1, max_size=4, unique=True))
    for nm in names:
        k = draw(st.sampled_from(["flag", "one", "many", "words"]))
        num = st.one_of(st.integers(-99, 99), st.floats(-99, 99).map(lambda x: round(x, 3)))
        one = st.one_of(num, st.sampled_from(["viridis", "contour", True, False, None]))
        v = {"flag": lambda: [], "one": lambda: [draw(one)], "many": lambda: [draw(num) for _ in range(draw(st.integers(2, 3)))],
             "words": lambda: draw(st.lists(st.sampled_from(["Spectral", "r", "gist", "earth", "b"]), min_size=2, max_size=3))}[k]()
        opts.append([nm, v])
    return {"opts": opts, "sep": draw(st.sampled_from(["_", "="])), "yaml": draw(st.booleans()), "sp": draw(st.booleans()), "kw": draw(st.dictionaries(st.sampled_from(["x", "cmap", "lw", "ax2"]), st.integers(0, 5), max_size=2))}


def check_opts(case):
    sp = " " if case["sp"] else ""
    want = dict(case["kw"])
    if case["yaml"]:
        parts = []
        for nm, v in case["opts"]:
            val = True if not v else v[0] if len(v) == 1 else v
            if len(v) == 1 and v[0] is None:
                val = True
            want[nm] = val
            parts.append("'{0}'".format(nm) if not v else "'{0}': {1}".format(nm, json.dumps(v[0] if len(v) == 1 else v)))
        text = "{" + ", ".join(parts) + "}"
    else:
        parts = []
        for nm, v in case["opts"]:
            want[nm] = True if not v else v[0] if len(v) == 1 else "_".join(v) if isinstance(v[0], str) else v
            parts.append(nm + (case["sep"] + "_".join(str(x) for x in v) if v else ""))
        text = ("," + sp).join(parts)
    kw = dict(case["kw"])
    got = vlt.plot_opts_to_kwargs(sp + text + sp, kw)
    require(kw == case["kw"], "the given keyword arguments were changed to {0}", kw)
    require(set(got) == set(want) and all(same(got[k], want[k]) for k in want), "{0!r} is {1!r}, expected {2!r}", text, got, want)
    require(same(vlt.plot_opts_to_kwargs(None, kw), kw) and same(vlt.plot_opts_to_kwargs("", kw), kw), "no options")
    nontrivial(len(case["opts"]) > 1)


FACETS = [
    Facet("json", json_cases(), check_json, quick=2000, rule="lists or dictionaries of more than one element"),
    Facet("rc", rc_cases(), check_rc, quick=300, rule="more than one setting"),
    Facet("literals", pyeval_cases(), check_pyeval, quick=800, rule="containers of more than one element"),
    Facet("options", opt_cases(), check_opts, quick=600, rule="more than one option"),
]
