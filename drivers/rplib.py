"""Reading and building RoughPy algebra objects with exact coefficients."""
import re
from fractions import Fraction

import numpy as np
import roughpy as rp

from drv import rat

DT = {"R": rp.Rational, "D": rp.DPReal, "S": rp.SPReal, "P": rp.RationalPoly}
VT = {"d": rp.DenseVector, "s": rp.SparseVector}


def ctx_of(w, d, t="R"):
    return rp.get_context(w, d, DT[t])


def frac(v):
    """exact value of a coefficient (Scalar, float, ...)"""
    if isinstance(v, (int, float)):
        return Fraction(v)
    try:
        tname = v.scalar_type()
    except Exception:
        tname = None
    if tname is None:           # rationals have no Python type
        s = str(v)
        if "." not in s and "e" not in s and "n" not in s:
            return Fraction(s)
    return Fraction(v.to_float())


_TERM = re.compile(r"(-?\d+(?:/\d+)?)\(([^()]*)\)")
_FACTOR = re.compile(r"^([A-Za-z])(\d+)(?:\^(\d+))?$")


def read_mon(s):
    """the factors of a printed monomial"""
    out = []
    for f in s.split():
        m = _FACTOR.match(f)
        if not m:
            raise ValueError("factor %r in %r" % (f, s))
        out.append([m.group(1) + m.group(2), int(m.group(3) or 1)])
    return out


def read_poly(s):
    """the terms of a printed polynomial"""
    s = s.strip()
    body = s[1:-1]
    if not (s.startswith("{") and s.endswith("}")) or _TERM.sub("", body).strip():
        raise ValueError("polynomial %r" % s)
    return [[read_mon(m), rat(Fraction(c))] for c, m in _TERM.findall(body)]


def make_poly(terms):
    return rp.PolynomialScalar({rp.Monomial([(l, p) for l, p in m]): Fraction(c) for m, c in terms})


def tensor_levels(x, w, d, num=lambda v: rat(frac(v)), zero="0"):
    """graded coefficients of a free/shuffle tensor, as rational strings"""
    out = [[zero] * (w ** k) for k in range(d + 1)]
    seen = set()
    for it in x:
        letters = it.key().to_letters()
        k = 0
        for l in letters:
            k = k * w + (l - 1)
        if len(letters) > d or (len(letters), k) in seen or k >= w ** len(letters):
            raise AssertionError("bad or repeated key %s" % (letters,))
        seen.add((len(letters), k))
        out[len(letters)][k] = num(it.value())
    return out


_lie_index = {}


def lie_coords(x, ctx, num=lambda v: rat(frac(v)), zero="0"):
    """coordinates of a Lie element in the basis order, as rational strings"""
    key = (ctx.width, ctx.depth)
    if key not in _lie_index:
        _lie_index[key] = {str(k): i for i, k in enumerate(ctx.lie_basis)}
    index = _lie_index[key]
    out = [zero] * len(index)
    seen = set()
    for it in x:
        i = index[str(it.key())]
        if i in seen:
            raise AssertionError("repeated key %s" % it.key())
        seen.add(i)
        out[i] = num(it.value())
    return out
