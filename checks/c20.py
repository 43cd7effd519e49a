"""C20: times - parsing, arithmetic without overflow, ranges and formatting"""
import datetime as pydt

import numpy as np
from hypothesis import strategies as st

import viscid
from vf.core import Discard, Facet, Violation, eq_arr, floats, label, nontrivial, raises, require, rng, seeds

TU = ["as", "fs", "ps", "ns", "us", "ms", "s", "m", "h"]
AS = {"as": 1, "fs": 10**3, "ps": 10**6, "ns": 10**9, "us": 10**12, "ms": 10**15, "s": 10**18,
      "m": 60 * 10**18, "h": 3600 * 10**18, "D": 86400 * 10**18, "W": 7 * 86400 * 10**18}
ORD = TU + ["D", "W"]
I63 = 2**63
# numpy can't convert between these, whatever the value
NOCAST = {"as": ["s", "m", "h", "D", "W"], "fs": ["h", "D", "W"], "ps": ["D", "W"]}


def castable(u, v):
    return v not in NOCAST.get(u, ()) and u not in NOCAST.get(v, ())


def unit_of(x):
    u, m = np.datetime_data(np.asarray(x).dtype)
    require(m == 1, "unit {0}", np.asarray(x).dtype)
    return u


def atto(x):
    """exact time of a datetime64 (since 1970) or timedelta64 as an integer number of as"""
    x = np.asarray(x)
    require(x.dtype.kind in "mM", "{0!r} is not a numpy time", x)
    require(not np.isnat(x), "NaT")
    if unit_of(x) in ("Y", "M"):
        require(x.dtype.kind == "M", "interval in {0}", x.dtype)
        x = x.astype("datetime64[D]")
    return int(x.astype("i8")) * AS[unit_of(x)]


def civil(y, mo, d, h=0, mi=0, s=0, frac_as=0):
    days = pydt.date(y, mo, d).toordinal() - pydt.date(1970, 1, 1).toordinal()
    return ((days * 24 + h) * 60 + mi) * 60 * AS["s"] + s * AS["s"] + frac_as


# ------------------------------------------------------------------- parse
@st.composite
def parse_cases(draw):
    return {"ymd": [draw(st.integers(1700, 2250)), draw(st.integers(1, 12)), draw(st.integers(1, 28))],
            "hms": [draw(st.integers(0, 23)), draw(st.integers(0, 59)), draw(st.integers(0, 59))],
            "us": draw(st.one_of(st.just(0), st.integers(0, 999999))), "nfrac": draw(st.integers(0, 6)),
            "style": draw(st.sampled_from(["iso", "isospace", "colon", "colon1", "date", "hm", "datetime", "dt64"])),
            "pre": draw(st.sampled_from(["", "UT", " ", "ut"])), "unit": draw(st.sampled_from([None, None, "s", "ms", "us", "m", "D"])),
            "wrap": draw(st.sampled_from(["scalar", "list", "tuple", "array"]))}


def make_time(c, ymd=None):
    y, mo, d = ymd or c["ymd"]
    h, mi, s = c["hms"]
    us, nf = c["us"], c["nfrac"]
    style = c["style"]
    frac = "{0:06d}".format(us)[:nf]
    fas = int(frac or 0) * 10**(18 - len(frac))
    fs = ("." + frac) if frac else ""
    t = "{0:02d}:{1:02d}:{2:02d}".format(h, mi, s)
    D = "{0:04d}-{1:02d}-{2:02d}".format(y, mo, d)
    if style == "iso":
        return D + "T" + t + fs, civil(y, mo, d, h, mi, s, fas)
    if style == "isospace":
        return D + " " + t + fs, civil(y, mo, d, h, mi, s, fas)
    if style == "colon":
        return D.replace("-", ":") + ":" + t + fs, civil(y, mo, d, h, mi, s, fas)
    if style == "colon1":
        return D.replace("-", ":") + ":{0:02d}:{1:02d}:{2}".format(h, mi, s) + fs, civil(y, mo, d, h, mi, s, fas)
    if style == "date":
        return D, civil(y, mo, d)
    if style == "hm":
        return D.replace("-", ":") + ":{0:02d}:{1:02d}".format(h, mi), civil(y, mo, d, h, mi)
    if style == "datetime":
        return pydt.datetime(y, mo, d, h, mi, s, us), civil(y, mo, d, h, mi, s, us * AS["us"])
    return np.datetime64(D + "T" + t + fs), civil(y, mo, d, h, mi, s, fas)


def check_parse(c):
    t, want = make_time(c)
    if isinstance(t, str):
        t = c["pre"] + t
    unit = c["unit"]
    label(c["style"], c["wrap"], "unit {0}".format(unit))
    nontrivial(c["style"] not in ("iso", "date") or c["pre"] != "" or unit is not None)
    cut = (lambda w: w) if unit is None else (lambda w: w // AS[unit] * AS[unit])
    if c["wrap"] == "scalar":
        got = viscid.as_datetime64(t, unit=unit)
        require(not isinstance(got, np.ndarray) or got.shape == (), "a single time became {0!r}", got)
        got, wants = [got], [want]
    else:
        t2, want2 = make_time(dict(c, ymd=[2001, 2, 3]))
        if isinstance(t2, str):
            t2 = c["pre"] + t2
        seq = [t, t2]
        if c["wrap"] == "tuple":
            seq = tuple(seq)
        elif c["wrap"] == "array":
            if isinstance(t, str):
                seq = np.array([viscid.as_isotime(x) for x in seq])
                back = viscid.as_isotime(np.array([t, t2]))
                require(isinstance(back, np.ndarray), "as_isotime of an array is a {0}", type(back))
                require(back.tolist() == seq.tolist(), "as_isotime of an array {0} != that of its elements {1}", back.tolist(), seq.tolist())
            else:
                seq = np.array(seq)
        got = viscid.as_datetime64(seq, unit=unit)
        require(isinstance(got, np.ndarray) and got.shape == (2,), "a sequence became {0!r}", got)
        wants = [want, want2]
    for g, w in zip(got, wants):
        require(np.asarray(g).dtype.kind == "M", "{0!r} is not a datetime64", g)
        if unit is not None:
            require(unit_of(g) == unit, "asked for {0}, got {1}", unit, np.asarray(g).dtype)
        require(atto(g) == cut(w), "{0!r} (unit={1}) became {2!r}: off by {3} as", t, unit, g, atto(g) - cut(w))
    if c["style"] == "date":
        iso = viscid.as_isotime(c["pre"] + t[len(c["pre"]):].replace("-", ":"))
        require(atto(np.datetime64(iso)) == want, "as_isotime of {0!r} with colons: {1!r}", t, iso)
    # both ways through the native types: whole microseconds survive
    if c["wrap"] == "scalar":
        nat = viscid.as_datetime(t)
        require(isinstance(nat, pydt.datetime) or type(nat) is pydt.date, "as_datetime gave {0!r}", nat)
        require(atto(viscid.as_datetime64(nat)) == want, "as_datetime({0!r}) = {1!r}", t, nat)
        td = viscid.as_timedelta64(viscid.as_datetime64(t))
        require(atto(td) == want, "as_timedelta64 of a date is the time since 1970: {0!r} for {1!r}", td, t)
        require(viscid.is_datetime_like(t), "{0!r} is not datetime like", t)
        require(viscid.is_valid_datetime64(t), "{0!r} is not a valid datetime", t)
        require(viscid.is_time_like(t), "{0!r} is not time like", t)
        r = viscid.asarray_datetime64([t, t])
        require(r.dtype.kind == "M" and atto(r[1]) == want, "asarray_datetime64 of {0!r}: {1!r}", t, r)
        r = viscid.asarray_datetime64([t, t], conservative=True)
        require(r.dtype.kind == "M" and atto(r[1]) == want, "conservative asarray_datetime64 of {0!r}: {1!r}", t, r)
        if isinstance(t, str):
            iso = viscid.as_isotime(t)
            require(atto(np.datetime64(iso)) == want, "as_isotime({0!r}) = {1!r}", t, iso)


BAD = ["hello", "2010-13-01", "12:61:61:99", "", "2010-01-01T25:00:00", "x1.5", "1:2:3:4:5:6:7:8", "10-10", "2010:01:01:01:99:01.0"]


def check_bad(c):
    s = BAD[c["i"]]
    nontrivial()
    if s in ("", "10-10"):
        raise Discard("numpy reads it")
    require(not viscid.is_valid_datetime64(s), "{0!r} is a valid datetime", s)
    require(not viscid.is_datetime_like(s), "{0!r} is datetime like", s)
    raises(lambda: viscid.as_datetime64(s), "as_datetime64({0!r})".format(s), ValueError)
    if ":" not in s or s.count(":") > 2:
        require(not viscid.is_valid_timedelta64(s), "{0!r} is a valid timedelta", s)
        raises(lambda: viscid.as_timedelta64(s), "as_timedelta64({0!r})".format(s), ValueError)
    r = viscid.asarray_datetime64([s, s])
    require(r.tolist() == [s, s], "asarray_datetime64 of {0!r}: {1!r}", s, r)


# ------------------------------------------------------------------ numbers
@st.composite
def num_cases(draw):
    return {"digits": draw(st.one_of(st.integers(0, 10**11), st.integers(0, 99999), st.integers(0, 50))), "exp": draw(st.one_of(st.integers(0, 9), st.integers(0, 9), st.integers(10, 16))),
            "neg": draw(st.booleans()), "unit": draw(st.sampled_from([None, "s", "ms", "us", "m", "h", "ns"])),
            "kind": draw(st.sampled_from(["float", "int", "npf8", "npi8", "list", "array", "timedelta", "td64"]))}


def check_num(c):
    unit = c["unit"] or "s"
    k, e = c["digits"], c["exp"]
    if c["kind"] in ("int", "npi8"):
        e = 0
    if c["neg"]:
        k = -k
    if unit in ("m", "h"):
        e = min(e, 3)
    if k % 10**e:
        nontrivial()
    want = k * AS[unit]
    if want % 10**e:
        raise Discard("finer than as")
    want //= 10**e
    # nine digits after the point of a unit need a unit 10**9 finer
    val = k / 10**e if e else k
    kind = c["kind"]
    label(kind, unit, "e{0}".format(e))
    if kind == "timedelta":
        if abs(want) > 10**5 * AS["D"] or want % AS["us"]:
            raise Discard("not a timedelta")
        arg = pydt.timedelta(microseconds=want // AS["us"])
        got = viscid.as_timedelta64(arg)
        gots = [got]
        unit_arg = None
    elif kind == "td64":
        if e:
            raise Discard("td64")
        arg = np.timedelta64(k, unit)
        got = viscid.as_timedelta64(arg)
        gots = [got]
    else:
        arg = {"float": float, "int": int, "npf8": np.float64, "npi8": np.int64,
               "list": lambda v: [v, 1.0], "array": lambda v: np.array([v, 1.0])}[kind](val)
        got = viscid.as_timedelta64(arg) if c["unit"] is None else viscid.as_timedelta64(arg, unit=unit)
        if kind in ("list", "array"):
            require(isinstance(got, np.ndarray) and got.shape == (2,), "as_timedelta64({0!r}) = {1!r}", arg, got)
            # numpy has to find one unit for all of them
            require(atto(got[1]) == AS[unit], "as_timedelta64({0!r}, {1}) = {2!r}", arg, unit, got)
            gots = [got[0]]
        else:
            gots = [got]
    for g in gots:
        require(np.asarray(g).dtype.kind == "m", "{0!r} is not a timedelta64", g)
        if e > 9:
            # may be finer than any unit that holds it
            tol = 0 if isinstance(arg, (list, np.ndarray)) is False else AS[unit_of(g)]
            label("very fine")
            require(abs(atto(g) - want) <= max(tol, 2, abs(want) * 2e-12), "as_timedelta64({0!r}, unit={1}) = {2!r}", arg, c["unit"], g)
            continue
        require(atto(g) == want, "as_timedelta64({0!r}, unit={1}) = {2!r}: off by {3} as of {4}", arg, c["unit"], g, atto(g) - want, want)
    if kind in ("list", "array") or e > 9:
        return
    # the same number is that long after 1970
    require(viscid.is_timedelta_like(arg), "{0!r} is not timedelta like", arg)
    if kind in ("timedelta", "td64"):
        require(viscid.is_timedelta_like(arg, conservative=True), "{0!r} is not timedelta like", arg)
    else:
        require(not viscid.is_timedelta_like(arg, conservative=True), "{0!r} is (conservatively) timedelta like", arg)
        require(not viscid.is_datetime_like(arg, conservative=True), "{0!r} is (conservatively) datetime like", arg)
    if kind in ("timedelta", "td64") or c["unit"] is None:
        d = viscid.as_datetime64(arg)
        require(np.asarray(d).dtype.kind == "M" and atto(d) == want, "as_datetime64({0!r}) = {1!r}", arg, d)
    if want % AS["us"] == 0 and abs(want) < 10**4 * AS["D"]:
        nat = viscid.as_timedelta(got)
        require(isinstance(nat, pydt.timedelta), "as_timedelta gave {0!r}", nat)
        require((nat.days * 86400 + nat.seconds) * AS["s"] + nat.microseconds * AS["us"] == want, "as_timedelta({0!r}) = {1!r}", got, nat)


@st.composite
def hms_cases(draw):
    return {"f": [draw(st.integers(0, 200)), draw(st.integers(0, 59)), draw(st.integers(0, 59))], "n": draw(st.integers(1, 3)),
            "frac": draw(st.sampled_from(["", ".", ".5", ".25", ".001", ".000125", ".999"])), "T": draw(st.booleans())}


def check_hms(c):
    f = c["f"][3 - c["n"]:]
    s = ":".join("{0:02d}".format(x) for x in f) + c["frac"]
    fr = c["frac"].lstrip(".")
    want = int(fr or 0) * 10**(18 - len(fr))
    for mul, x in zip([1, 60, 3600], f[::-1]):
        want += x * mul * AS["s"]
    if c["T"]:
        s = "T" + s
    nontrivial(bool(fr) and c["n"] > 1)
    label("n{0}".format(c["n"]))
    got = viscid.as_timedelta64(s)
    require(atto(got) == want, "as_timedelta64({0!r}) = {1!r}", s, got)
    if c["n"] > 1:
        raises(lambda: viscid.as_timedelta64(s, unit="s"), "a unit with {0!r}".format(s), ValueError)
    require(viscid.is_timedelta_like(s) and viscid.is_valid_timedelta64(s), "{0!r} is not timedelta like", s)


# -------------------------------------------------------------- arithmetic
def _lim(unit):
    return min(I63 // 2, 600 * 365 * AS["D"] // AS[unit])


@st.composite
def arith_cases(draw):
    def t():
        u = draw(st.sampled_from(ORD))
        m = draw(st.sampled_from([10, 10**3, 10**6, 10**9, 10**12, 10**15, 10**18, _lim(u), min(I63 - 10**18, 600 * 365 * AS["D"] // AS[u])]))
        m = min(m, min(I63 - 10**18, 600 * 365 * AS["D"] // AS[u]))
        return [u, draw(st.integers(-m, m))]
    return {"a": t(), "b": t(), "op": draw(st.sampled_from(["sum", "diff", "reg", "round"])), "unit": draw(st.sampled_from([None, None, None] + ORD[2:10])),
            "mp": draw(st.booleans()), "ar": draw(st.sampled_from([True, True, False])), "a0": draw(st.sampled_from([True, True, False]))}


def check_arith(c):
    (ua, ka), (ub, kb) = c["a"], c["b"]
    mp = c["mp"]
    unit = None if mp and c["op"] != "round" else c["unit"]
    A, B = ka * AS[ua], kb * AS[ub]
    dt = np.datetime64(ka, ua)
    op = c["op"]
    label(op, "mp" if mp else "plain", "unit" if unit else "auto")

    def fits(v, u, u_from=None):
        return abs(v // AS[u]) < I63 - 1 and abs(v) // AS[u] < I63 - 1 and (u_from is None or castable(u_from, u))

    def both_fit(u):
        return fits(A, u, ua) and fits(B, u, ub)
    if op == "round":
        u0 = unit or "s"
        for x, v, uu in ((dt, A, ua), (np.timedelta64(kb, ub), B, ub)):
            finer = ORD.index(uu) < ORD.index(u0)
            if not castable(uu, u0) and finer:
                raises(lambda: viscid.round_time(x, u0), "numpy can't round {0!r} to {1}".format(x, u0), OverflowError)
                continue
            tr = abs(v) < AS[u0] and v != 0 and finer
            if tr and not c["a0"] and v > 0:
                raises(lambda: viscid.round_time(x, u0, allow0=False), "rounding {0!r} to {1}".format(x, u0), viscid.PrecisionError)
                label("PrecisionError")
                nontrivial()
                continue
            if tr and not c["a0"]:
                continue
            r = viscid.round_time(x, u0, allow0=c["a0"])
            require(np.asarray(r).dtype.kind == np.asarray(x).dtype.kind, "{0!r} became {1!r}", x, r)
            require(unit_of(r) == (u0 if finer else uu), "round_time({0!r}, {1}) = {2!r}", x, u0, r)
            require(abs(atto(r) - v) < (AS[u0] if finer else 1), "round_time({0!r}, {1}) = {2!r}", x, u0, r)
            nontrivial(finer)
        if not (castable(ua, u0) and castable(ub, u0)):
            return
        both = viscid.round_time([dt, np.timedelta64(kb, ub)], u0)
        require(len(both) == 2 and both[0] == viscid.round_time(dt, u0), "rounding a list: {0!r}", both)
        return
    b = np.datetime64(kb, ub) if op == "diff" or (op == "reg" and kb % 2) else np.timedelta64(kb, ub)
    u0 = unit or ORD[min(ORD.index(ua), ORD.index(ub))]
    res = A + B if op == "sum" else A - B
    # unit that is guaranteed to hold everything
    okfit = both_fit(u0)
    if not any(both_fit(u) for u in ORD[ORD.index(u0):]):
        label("no unit")
        okfit = False
        if op == "diff" or c["ar"]:
            try:
                got = viscid.regularize_time([dt, b], unit=unit, allow0=c["a0"])
            except (OverflowError, viscid.PrecisionError):
                return
            raise Violation("regularize_time of {0!r}, {1!r} to at least {2} is {3!r}".format(dt, b, u0, got))
    okres = op == "reg" or fits(res, u0)
    if any(I63 - 10**4 <= abs(res) // AS[u] <= I63 for u in ORD):
        raise Discard("at the limit")
    over = (OverflowError,) if c["a0"] else (OverflowError, viscid.PrecisionError)
    ar = c["ar"] if op != "diff" else True
    kw = {"unit": unit, "most_precise": mp}
    if op != "diff":
        kw.update(allow_rounding=ar, allow0=c["a0"])
    fn = {"sum": lambda: viscid.time_sum(dt, b, **kw), "diff": lambda: viscid.time_diff(dt, b, **kw),
          "reg": lambda: viscid.regularize_time([dt, b], **kw)}[op]
    if not okfit and not ar:
        raises(fn, "{0} of {1!r} and {2!r} in {3} can't hold both".format(op, dt, b, u0), over)
        label("OverflowError")
        nontrivial()
        return
    if mp and not ar and op == "sum" and okfit:
        # the most precise unit of the two may not hold the sum
        try:
            got = fn()
        except OverflowError:
            # legal only if the finest unit for both operands doesn't hold the sum
            best = [u for u in ORD if fits(A, u) and fits(B, u)][0]
            require(not fits(res, best), "time_sum overflowed for {0!r} + {1!r} though {2} holds it", dt, b, best)
            return
        except viscid.PrecisionError:
            return
    elif not okres and not ar:
        raises(fn, "{0} of {1!r} and {2!r} in {3} overflows".format(op, dt, b, u0), over)
        label("OverflowError of the result")
        nontrivial()
        return
    else:
        try:
            got = fn()
        except viscid.PrecisionError:
            require(not c["a0"] and op != "diff", "PrecisionError for {0!r} {1!r}", dt, b)
            # some operand must be truncated to 0 in the units at play
            require(any(v != 0 and abs(v) < AS["W"] for v in (A, B)), "PrecisionError for {0!r} {1!r}", dt, b)
            label("PrecisionError")
            nontrivial()
            return
    if op == "reg":
        require(isinstance(got, list) and len(got) == 2, "regularize_time gave {0!r}", got)
        u = unit_of(got[0])
        require(unit_of(got[1]) == u, "units differ: {0!r}", got)
        require([np.asarray(g).dtype.kind for g in got] == ["M", np.asarray(b).dtype.kind], "kinds changed: {0!r}", got)
        tu = max([u] + [[v for v in ORD[ORD.index(u0):] if both_fit(v)][0]], key=ORD.index)
        for g, v, x in zip(got, (A, B), (dt, b)):
            require(abs(atto(g) - v) < AS[tu], "{0!r} became {1!r}", x, g)
            if v % AS[tu] == 0:
                require(atto(g) == v, "{0!r} became {1!r}", x, g)
            if not c["a0"] and v > 0:
                require(atto(g) != 0, "{0!r} was truncated to 0 in spite of allow0=False", x)
        if okfit and not mp:
            require(u == u0, "{0!r}, {1!r} fit in {2}, result in {3}", dt, b, u0, u)
            nontrivial(ua != ub)
        if not okfit:
            label("coarsened")
            nontrivial()
            require(mp or ORD.index(u) > ORD.index(u0), "unit {0} holds neither", u)
            if not mp:
                prev = ORD[ORD.index(u) - 1]
                require(not both_fit(prev), "{0!r}, {1!r} fit in {2}, result in {3}", dt, b, prev, u)
        if mp and okfit and ORD.index(u) > 0:
            prev = ORD[ORD.index(u) - 1]
            require(not both_fit(prev), "{0!r}, {1!r} fit in {2}, most precise result in {3}", dt, b, prev, u)
        return
    u = unit_of(got)
    require(np.asarray(got).dtype.kind == ("M" if op == "sum" else "m"), "{0} gave {1!r}", op, got)
    tu = max([u] + [[v for v in ORD[ORD.index(u0):] if both_fit(v)][0]], key=ORD.index)
    exact = A % AS[tu] == 0 and B % AS[tu] == 0
    nontrivial(not okfit or not okres or ua != ub)
    if not okres:
        label("result does not fit")
    require(atto(got) == res if exact else abs(atto(got) - res) < 2 * AS[tu],
            "{0} of {1!r} and {2!r} ({5}) = {3!r}, off by {4} as", op, dt, b, got, atto(got) - res, kw)
    if okfit and okres and not mp and abs(res) // AS[u0] < I63 - 4096:
        require(u == u0, "{0} of {1!r} and {2!r} fit in {3}, result in {4}", op, dt, b, u0, u)
    if not (okfit and okres) and not mp:
        prev = ORD[ORD.index(u) - 1]
        require(not (both_fit(prev) and abs(res) // AS[prev] < I63 - 4096), "{0} of {1!r} and {2!r} would fit in {3}, result in {4}", op, dt, b, prev, u)


# ------------------------------------------------------- arrays of times
@st.composite
def array_cases(draw):
    n = draw(st.integers(1, 4))

    def t(n):
        u = draw(st.sampled_from(ORD))
        top = min(I63 - 10**18, 600 * 365 * AS["D"] // AS[u])
        return [u, [draw(st.integers(-min(m, top), min(m, top))) for m in draw(st.lists(st.sampled_from([10, 10**6, 10**9, 10**12, 10**18, 10**19]), min_size=n, max_size=n))]]
    return {"a": t(n), "b": t(draw(st.sampled_from([n, 1]))), "op": draw(st.sampled_from(["sum", "diff", "reg", "round"])),
            "unit": draw(st.sampled_from([None, None] + ORD[2:10])), "ar": draw(st.booleans()), "scalar": draw(st.booleans())}


def check_array(c):
    (ua, ka), (ub, kb) = c["a"], c["b"]
    op = c["op"]
    A, B = [k * AS[ua] for k in ka], [k * AS[ub] for k in kb]
    a = np.array(ka, dtype="M8[{0}]".format(ua))
    b = np.array(kb, dtype="{0}8[{1}]".format("m" if op == "sum" else "M", ub))
    if len(kb) == 1 and c["scalar"]:
        b = b[0]

    def fits(v, u):
        return abs(v) // AS[u] < I63 - 1
    label(op)
    if op == "round":
        u0 = c["unit"] or "s"
        finer = ORD.index(ua) < ORD.index(u0)
        if finer and not castable(ua, u0):
            raise Discard()
        r = viscid.round_time(a, u0)
        require(isinstance(r, np.ndarray) and r.shape == a.shape and r.dtype.kind == "M", "round_time({0!r}) = {1!r}", a, r)
        require(unit_of(r) == (u0 if finer else ua), "round_time({0!r}, {1}) = {2!r}", a, u0, r)
        for g, v in zip(r, A):
            require(abs(atto(g) - v) < (AS[u0] if finer else 1), "round_time({0!r}, {1}) = {2!r}", a, u0, r)
        nontrivial(finer and len(A) > 1)
        return
    u0 = c["unit"] or ORD[min(ORD.index(ua), ORD.index(ub))]
    both = lambda u: all(fits(v, u) and castable(ua, u) for v in A) and all(fits(v, u) and castable(ub, u) for v in B)
    good = [u for u in ORD[ORD.index(u0):] if both(u)]
    if not good:
        raise Discard("no unit")
    ar = c["ar"] or op == "diff"
    kw = {"unit": c["unit"]}
    if op != "diff":
        kw["allow_rounding"] = ar
    fn = {"sum": lambda: viscid.time_sum(a, b, **kw), "diff": lambda: viscid.time_diff(a, b, **kw), "reg": lambda: viscid.regularize_time([a, b], **kw)}[op]
    some = any(both(u) is False and any(fits(v, u) for v in A) for u in [u0])
    if not both(u0) and not ar:
        raises(fn, "{0} of {1!r} and {2!r} in {3} can't hold all of them".format(op, a, b, u0), OverflowError)
        label("OverflowError")
        nontrivial(some and len(A) > 1)
        return
    BB = B * len(A) if len(B) == 1 else B
    if op == "reg":
        got = fn()
        u = unit_of(got[0])
        require(unit_of(got[1]) == u and u == good[0], "regularize_time of {0!r}, {1!r} to {2} (first to hold all: {3}) is {4!r}", a, b, u0, good[0], got)
        for g, v in list(zip(got[0], A)) + list(zip(np.atleast_1d(got[1]), B)):
            require(abs(atto(g) - v) < AS[u] and (v % AS[u] or atto(g) == v), "regularize_time of {0!r}, {1!r} is {2!r}", a, b, got)
        nontrivial(u != u0 and len(A) > 1)
        return
    res = [x + y if op == "sum" else x - y for x, y in zip(A, BB)]
    if any(I63 - 10**4 <= abs(v) // AS[u] <= I63 for u in ORD for v in res):
        raise Discard("at the limit")
    if not ar and not all(fits(v, u0) for v in res):
        raises(fn, "{0} of {1!r} and {2!r} in {3} overflows".format(op, a, b, u0), OverflowError)
        label("OverflowError of the result")
        nontrivial(len(A) > 1)
        return
    got = fn()
    u = unit_of(got)
    require(got.shape == a.shape and got.dtype.kind == ("M" if op == "sum" else "m"), "{0} of {1!r} and {2!r} = {3!r}", op, a, b, got)
    tu = max([u, good[0]], key=ORD.index)
    for g, v, x, y in zip(got, res, A, BB):
        exact = x % AS[tu] == 0 and y % AS[tu] == 0
        require(atto(g) == v if exact else abs(atto(g) - v) < 2 * AS[tu], "{0} of {1!r} and {2!r} = {3!r}", op, a, b, got)
    nontrivial(u != u0 and len(A) > 1)


# ---------------------------------------------------------------- linspace
@st.composite
def lin_cases(draw):
    return {"t0": draw(st.integers(-5 * 10**9, 5 * 10**9)), "dt": draw(st.one_of(st.integers(1, 10**4), st.integers(-10**9, 10**9))),
            "ms": draw(st.integers(0, 999)), "n": draw(st.integers(1, 12)), "end": draw(st.booleans()), "kind": draw(st.sampled_from(["str", "dt64", "datetime"])),
            "unit": draw(st.sampled_from([None, "s", "ms", "us"]))}


def check_lin(c):
    a = np.datetime64(c["t0"] * 1000 + c["ms"], "ms")
    b = np.datetime64((c["t0"] + c["dt"]) * 1000, "ms")
    conv = {"str": str, "dt64": lambda x: x, "datetime": lambda x: x.astype(pydt.datetime)}[c["kind"]]
    n, end = c["n"], c["end"]
    A, B = atto(a), atto(b)
    if c["unit"] == "s":
        A, B = (x // AS["s"] * AS["s"] for x in (A, B))
    got = viscid.linspace_datetime64(conv(a), conv(b), n, endpoint=end, unit=c["unit"])
    label(c["kind"], "end" if end else "no end")
    nontrivial(n > 2)
    require(isinstance(got, np.ndarray) and got.shape == (n,) and got.dtype.kind == "M", "linspace_datetime64 gave {0!r}", got)
    u = unit_of(got)
    require(atto(got[0]) == A, "starts at {0!r}, not {1!r}", got[0], a)
    if end and n > 1:
        require(atto(got[-1]) == B, "ends at {0!r}, not {1!r}", got[-1], b)
    den = (n - 1 if end else n) or 1
    for i in range(n):
        err = atto(got[i]) * den - (A * den + i * (B - A))
        require(abs(err) <= den * AS[u], "element {0} of {1!r} to {2!r} is {3!r}", i, a, b, got[i])
    # arrays of native datetimes have us at most: the unit is at least that fine
    require(ORD.index(u) <= ORD.index("us"), "unit of {0}", got.dtype)


# ------------------------------------------------------------------ format
@st.composite
def fmt_cases(draw):
    return {"us": draw(st.one_of(st.integers(0, 3 * 86400 * 10**6), st.integers(0, 2 * 10**15),
                                 st.builds(lambda s, u: s * 10**6 + 10**6 - u, st.integers(1, 10**6), st.integers(1, 10**5)))),
            "as": draw(st.sampled_from(["float", "td64", "timedelta", "dt64", "str", "datetime"])),
            "fmt": draw(st.sampled_from(["hms", "hmss", "dhms", "dhmss", ".02f", ".3f", "ut", "%Y-%m-%d %H:%M:%S", "%Y-%m-%d %H:%M:%S.%1f",
                                         "%H:%M:%S.%f", "%Y%m%d%H%M%S", "%Y%m%d-%H%M%S.%3f", "%Y-%m-%dT%H:%M:%S.%.02f", "%j %S.%2f %Y", "default"])),
            "base": draw(st.sampled_from([None, 0, 3600, 10**9]))}


def check_fmt(c):
    us, fmt = c["us"], c["fmt"]
    t64 = np.datetime64(us, "us")
    arg = {"float": lambda: us / 1e6, "td64": lambda: np.timedelta64(us, "us"), "timedelta": lambda: pydt.timedelta(microseconds=us),
           "dt64": lambda: t64, "str": lambda: str(t64), "datetime": lambda: t64.astype(pydt.datetime)}[c["as"]]()
    isdate = c["as"] in ("dt64", "str", "datetime")
    if c["as"] == "float" and us >= 10**12:
        raise Discard("more digits than promised of a float")
    base = c["base"] if isdate else None
    kw = {} if base is None else {"basetime": np.datetime64(base, "s")}
    label(fmt, c["as"])
    nontrivial(us % 10**6 != 0 or us > 86400 * 10**6)
    base = base or 0
    secs = us // 10**6
    if fmt == "default":
        got = viscid.format_datetime(arg)
        fmt = "%Y-%m-%d %H:%M:%S.%.02f"
    else:
        got = viscid.format_time(arg, fmt, **kw) if fmt else viscid.format_time(arg, **kw)
    require(isinstance(got, str), "{0!r}", got)

    def hms(s):
        return "{0:02d}:{1:02d}:{2:02d}".format(s // 3600, s // 60 % 60, s % 60)
    if fmt in ("hms", "hmss"):
        want = hms(secs % 86400 if isdate else secs)
    elif fmt in ("dhms", "dhmss"):
        d = secs // 86400
        want = "{0} day{1} ".format(d, "" if d == 1 else "s") + hms(secs % 86400)
    elif fmt in (".02f", ".3f"):
        nd = 2 if fmt == ".02f" else 3
        require(len(got.split(".")[-1]) == nd, "{0!r} as {1}: {2!r}", arg, fmt, got)
        require(abs(float(got) - (us / 1e6 - base)) <= 0.5001 * 10**-nd + 1e-9 * secs, "{0!r} (from {3}) as {1}: {2!r}", arg, fmt, got, base)
        return
    else:
        if fmt == "ut":
            fmt = "%Y-%m-%d %H:%M:%S"
        import re
        tok = re.search(r"%\.?([0-9]*)f", fmt)
        if tok:
            p = int(tok.group(1)) if tok.group(1) else 6
            q = 10**(6 - p)
            cands = {us // q * q, us // q * q + q}
            cands = {x for x in cands if abs(x - us) * 2 <= q}
        else:
            p, cands = 0, {us}
        wants = []
        for x in cands:
            dt = np.datetime64(x, "us").astype(pydt.datetime)
            f = fmt if not tok else fmt[:tok.start()] + "{0:06d}".format(x % 10**6)[:p] + fmt[tok.end():]
            wants.append(dt.strftime(f))
        require(got in wants, "{0!r} as {1!r} is {2!r}, expected {3!r}", arg, fmt, got, wants)
        return
    if fmt.endswith("ss"):
        # truncated number of seconds since the basetime
        m = got[len(want):]
        require(got.startswith(want) and m.startswith(" (") and m.endswith(")"), "{0!r} as {1!r}: {2!r}, expected {3!r}", arg, fmt, got, want)
        tot = us / 1e6 - base
        require(int(m[2:-1]) == int(tot), "{0!r} as {1!r}: {2!r} (basetime {3})", arg, fmt, got, base)
        require(len(m[2:-1]) >= 6, "{0!r}: not padded", got)
    else:
        require(got == want, "{0!r} as {1!r}: {2!r}, expected {3!r}", arg, fmt, got, want)


# ------------------------------------------------------------- as_seconds
@st.composite
def sec_cases(draw):
    return {"us": draw(st.one_of(st.integers(0, 10**8), st.integers(-10**15, 2 * 10**15))), "dec": draw(st.integers(0, 5)),
            "as": draw(st.sampled_from(["td64", "timedelta", "dt64", "str", "datetime", "float"]))}


def check_sec(c):
    us, dec = c["us"], c["dec"]
    q = 10**(6 - dec)
    t64 = np.datetime64(us, "us")
    how = c["as"]
    arg = {"float": lambda: us / 1e6, "td64": lambda: np.timedelta64(us, "us"), "timedelta": lambda: pydt.timedelta(microseconds=us),
           "dt64": lambda: t64, "str": lambda: str(t64), "datetime": lambda: t64.astype(pydt.datetime)}[how]()
    label(how, "dec{0}".format(dec))
    nontrivial(us % q != 0)
    got = viscid.time_as_seconds(arg, dec)
    if how == "float":
        require(abs(got - us / 1e6) <= 0.5001 * 10**-dec + 1e-9 * abs(us / 1e6), "{0!r} -> {1!r}", arg, got)
        return
    isdate = how in ("dt64", "str", "datetime")
    require(np.asarray(got).dtype.kind == ("M" if isdate else "m"), "{0!r} -> {1!r}", arg, got)
    v = atto(got)
    require(v % (q * AS["us"]) == 0, "{0!r} to {1} decimals: {2!r}", arg, dec, got)
    require(abs(v - us * AS["us"]) * 2 <= q * AS["us"] * (1 if isdate else 1), "{0!r} to {1} decimals: {2!r}", arg, dec, got)
    fn = viscid.datetime_as_seconds if isdate else viscid.timedelta_as_seconds
    require(fn(arg, dec) == got, "{0} != time_as_seconds", fn.__name__)


# ---------------------------------------------------------------- the nodes
@st.composite
def node_cases(draw):
    return {"base": draw(st.integers(-10**9, 4 * 10**9)), "ms": draw(st.integers(0, 10**9)), "set": draw(st.sampled_from(["float", "td64", "timedelta", "dt64", "datetime", "str"])),
            "hasbase": draw(st.booleans()), "child": draw(st.booleans()), "basekind": draw(st.sampled_from(["str", "dt64"])),
            "fmt": draw(st.sampled_from([".02f", ".3f", "ut", "%H:%M:%S.%3f", "hms"]))}


def check_node(c):
    base = np.datetime64(c["base"], "s")
    ms = c["ms"]
    top = viscid.grid.Grid()
    node = viscid.grid.Grid()
    if c["child"]:
        top.prepare_child(node)
        node.parents.append(top) if top not in node.parents else None
    owner = top if c["child"] else node
    hb = c["hasbase"]
    how = c["set"]
    if not hb and how in ("dt64", "datetime", "str"):
        raise Discard("no basetime")
    if hb:
        owner.basetime = str(base) if c["basekind"] == "str" else base
        require(node.basetime == base, "basetime {0!r} != {1!r}", node.basetime, base)
    else:
        raises(lambda: node.basetime, "basetime of a node without one", viscid.NoBasetimeError)
    t = base + np.timedelta64(ms, "ms")
    require(node.time is None and node.format_time(default="?") == "?", "a node without a time has {0!r}", node.time)
    owner.time = {"float": ms / 1e3, "td64": np.timedelta64(ms, "ms"), "timedelta": pydt.timedelta(milliseconds=ms), "dt64": t,
                  "datetime": t.astype(pydt.datetime), "str": str(t)}[how]
    label(how, "basetime" if hb else "no basetime")
    nontrivial(hb and ms > 0)
    require(isinstance(node.time, float), "time is {0!r}", node.time)
    require(abs(node.time - ms / 1e3) <= 1e-9 * max(1, ms / 1e3), "time set to {0!r} after {1!r}: {2!r}", ms / 1e3, base, node.time)
    require(abs(atto(node.time_as_timedelta64()) - ms * AS["ms"]) <= AS["us"], "time_as_timedelta64 of {0} ms: {1!r}", ms, node.time_as_timedelta64())
    require(node.time_as_timedelta() == pydt.timedelta(milliseconds=ms), "time_as_timedelta of {0} ms: {1!r}", ms, node.time_as_timedelta())
    if hb:
        want = atto(base) + ms * AS["ms"]
        require(abs(atto(node.time_as_datetime64()) - want) <= AS["us"], "time_as_datetime64: {0!r}, {1!r} + {2} ms", node.time_as_datetime64(), base, ms)
        require(node.time_as_datetime() == t.astype(pydt.datetime), "time_as_datetime: {0!r} != {1!r}", node.time_as_datetime(), t)
        got = node.format_time(c["fmt"])
        want = viscid.format_time(t, c["fmt"], basetime=base)
        require(got == want, "format_time({0!r}) of {1!r} (basetime {2!r}): {3!r}, not {4!r}", c["fmt"], t, base, got, want)
    else:
        raises(node.time_as_datetime64, "datetime without a basetime", viscid.NoBasetimeError)
        got = node.format_time(c["fmt"])
        want = viscid.format_time(np.timedelta64(ms, "ms"), c["fmt"])
        require(got == want, "format_time({0!r}) of {1} ms: {2!r}, not {3!r}", c["fmt"], ms, got, want)


FACETS = [
    Facet("parse", parse_cases(), check_parse, quick=700, rule="not plain ISO, or a prefix or unit was given"),
    Facet("bad_strings", st.builds(lambda i: {"i": i}, st.integers(0, len(BAD) - 1)), check_bad, quick=30, rule="always"),
    Facet("numbers", num_cases(), check_num, quick=800, rule="the number has a fractional part"),
    Facet("hms_strings", hms_cases(), check_hms, quick=200, rule="fractional seconds after a colon"),
    Facet("arithmetic", arith_cases(), check_arith, quick=1500, rule="different units, or something that does not fit"),
    Facet("arrays", array_cases(), check_array, quick=1500, rule="several times of which some don't fit in the unit"),
    Facet("linspace", lin_cases(), check_lin, quick=300, rule="at least three elements"),
    Facet("format", fmt_cases(), check_fmt, quick=900, rule="fractional seconds or more than a day"),
    Facet("as_seconds", sec_cases(), check_sec, quick=400, rule="something to round away"),
    Facet("nodes", node_cases(), check_node, quick=300, rule="a basetime and a non zero time"),
]
