"""C18 Profile arithmetic is pointwise arithmetic."""
import numpy as np
from hypothesis import strategies as st

from vlib import gens as G, trees as T
from vlib.core import Sub, close, need, sut


def case():
    return st.fixed_dictionaries({"e": T.expr(3), "pts": T.points(), "pts2": T.points()})


def check(c, env, rec):
    made = []
    u = c["pts"]["u"]
    e = T.scaled(c["e"], u)
    with sut("build expression"):
        o = T.build(e, env, made)
    good = 0
    for p in (c["pts"], {**c["pts2"], "u": u}):
        x, y = T.build_points(p, env)
        with sut("evaluate expression"):
            got = o(T.give(p["form"], x, env), T.give(p["form"], y, env))
        good = max(good, T.compare(got, e, x, y, env, "expression at %s points" % p["form"], close, need))
    # combining profiles leaves the operands as they were
    x, y = T.build_points(c["pts"], env)
    for s, q in made[:-1][:3]:
        with sut("evaluate operand"):
            v = q(x, y)
        T.compare(v, s, x, y, env, "operand %s after use" % s["t"], close, need)
    ks = T.kinds(c["e"])
    rec.nt(T.count(c["e"]) > 2 and good > 0.5 and bool(ks & {"add", "sub", "mul", "div", "pow", "powp", "subs", "divs"}))
    rec.label(*ks)
    rec.label("complex" if T.is_complex(c["e"]) else "real", "mixed real and complex" if T.is_complex(c["e"]) and any(
        not T.leaf_is_complex(q) for q in T.leaves_of(c["e"])) else "")


def pair_case():
    lf = T.leaf()
    return st.fixed_dictionaries({"l": lf, "r": lf, "op": st.sampled_from(T.BINARY + ("powp",)), "pts": T.points(),
                                  "twin": st.booleans(), "s": T.scalar(), "sop": st.sampled_from(T.SCALAR), "k": st.sampled_from(T.POWERS + (4,))})


def check_pair(c, env, rec):
    """Every binary operator on two leaves, a scalar and a power."""
    x, y = T.build_points(c["pts"], env)
    l, r = T.scaled(c["l"], c["pts"]["u"]), T.scaled(c["r"], c["pts"]["u"])
    for s in ({"t": c["op"], "l": l, "r": r}, {"t": c["sop"], "l": l, "s": c["s"]}, {"t": "pow", "l": r, "k": c["k"]},
              {"t": "neg", "l": l}):
        with sut("evaluate %s" % s["t"]):
            got = T.build(s, env)(T.give(c["pts"]["form"], x, env), T.give(c["pts"]["form"], y, env))
        T.compare(got, s, x, y, env, "%s of %s" % (s["t"], [q["t"] for q in T.leaves_of(s)]), close, need)
    if c["twin"]:
        # one object on both sides
        with sut("build"):
            o = T.build(l, env)
        for t, fn in (("add", lambda q: q + q), ("sub", lambda q: q - q), ("mul", lambda q: q * q), ("div", lambda q: q / q), ("powp", lambda q: q ** q)):
            with sut("a profile combined with itself (%s)" % t):
                got = fn(o)(T.give(c["pts"]["form"], x, env), T.give(c["pts"]["form"], y, env))
            T.compare(got, {"t": t, "l": l, "r": l}, x, y, env, "%s of a %s with itself" % (t, l["t"]), close, need)
    rec.nt(c["l"] != c["r"])
    rec.label(c["op"], c["sop"])


SUBS = [
    Sub("expression", case, check, 320, "random expression trees over all profile types, evaluated on grids, lines, scalars, "
        "lists; non-trivial = an operator applied and the error bound finite at most points"),
    Sub("operator", pair_case, check_pair, 240, "each operator on random leaves; non-trivial = different leaves"),
]
