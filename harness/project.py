"""
Projection of real veroku objects onto the abstract states of the TLA+ specification. Nothing here judges anything; the
values are only written down (as rationals) for TLC. Objects are never queried directly: forms that veroku computes
lazily are obtained from a deep copy, so that looking at an object does not influence it.
"""
import copy
import itertools
import math
import sys
import warnings
from fractions import Fraction
from functools import lru_cache

import numpy as np

warnings.simplefilter("ignore")
np.seterr(all="ignore")

import veroku  # noqa: E402

assert veroku.__file__.startswith("/repo/"), veroku.__file__

from veroku.factors.categorical import Categorical  # noqa: E402
from veroku.factors.sparse_categorical import SparseCategorical  # noqa: E402
from veroku.factors.gaussian import Gaussian  # noqa: E402

BITS = 44
sys.set_int_max_str_digits(0)


@lru_cache(maxsize=200000)
def rat(x):
    """A float as a rational with a 44 bit mantissa, in the format of BigRat."""
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    if x == 0.0:
        return "0"
    mant, exp = math.frexp(x)
    num = round(mant * (1 << BITS))
    exp -= BITS
    while num % 2 == 0:
        num //= 2
        exp += 1
    if exp >= 0:
        return str(num << exp)
    return f"{num}/{1 << -exp}"


def num(x):
    """A returned number (python number, numpy number or array with one element)."""
    arr = np.asarray(x)
    if arr.dtype == object or arr.size != 1:
        return "not-a-number"
    val = arr.ravel()[0]
    if np.iscomplexobj(arr):
        return rat(val.real) if val.imag == 0 else "complex"
    return rat(float(val))


def frac(s):
    """A rational of the specification as a float."""
    if "/" in s:
        n, d = s.split("/")
        return int(n) / int(d)
    return float(int(s))


def logfrac(s):
    """The logarithm of a rational of the specification (which may be too large or too small for a float)."""
    n, _, d = s.partition("/")
    try:
        return math.log(frac(s)) if n != "0" else -math.inf
    except (OverflowError, ValueError):
        return math.log(int(n)) - math.log(int(d or 1))


LN2 = math.log(2)


def ratexp(x):
    """exp(x) as a rational; also where it is no longer a float (unnormalised messages can become very large)."""
    if -650 < x < 650 or not -30000 < x < 30000:
        return rat(math.exp(x) if x < 700 else math.inf)
    k = math.floor(x / LN2)
    n, _, d = rat(math.exp(x - k * LN2)).partition("/")
    return str(Fraction(int(n), int(d or 1)) * Fraction(2) ** k)


def project_dense(f):
    tensor = np.asarray(f.log_probs_tensor)
    shape = tuple(int(n) for n in tensor.shape)
    names = list(f.var_names)
    nm = []
    for v in names:
        nm.append([repr(n.item() if hasattr(n, "item") else n) for n in f.vars_assignments_names_dict.get(v, ())])
    cons = len(shape) == len(names) and list(f.cardinalities) == list(shape) and f.dim == len(names)
    cons = cons and dict(f.var_cards) == dict(zip(names, shape))
    cons = cons and set(f.vars_assignments_names_dict) == set(names)
    cons = cons and all(len(n) == c for n, c in zip(nm, shape))
    return {
        "k": "tab", "v": names, "c": list(shape), "sp": False, "df": "", "dx": "", "nm": nm, "cons": bool(cons),
        "t": [ratexp(x) for x in tensor.ravel().tolist()],
    }


def project_sparse(f):
    names = list(f.var_names)
    cards = [int(c) for c in f.cardinalities]
    cons = len(cards) == len(names) and f.dim == len(names) and dict(f.var_cards) == dict(zip(names, cards))
    table = f.log_probs_table
    values = []
    found = 0
    for assignment in itertools.product(*[range(c) for c in cards]):
        if assignment in table:
            found += 1
        values.append(ratexp(float(table.get(assignment, f.default_log_prob))))
    cons = cons and found == len(table)
    return {
        "k": "tab", "v": names, "c": cards, "sp": True, "df": ratexp(float(f.default_log_prob)),
        "dx": repr(float(f.default_log_prob)), "nm": [[] for _ in names], "cons": bool(cons), "t": values,
    }


def vec(x):
    return [rat(float(y)) for y in np.asarray(x, dtype=float).ravel()]


def mat(x):
    arr = np.asarray(x, dtype=float)
    return [[rat(float(y)) for y in row] for row in arr]


FORMS = False  # also project the covariance form of Gaussians


def project_gaussian(f):
    g = copy.deepcopy(f)
    names = list(g.var_names)
    prec = np.asarray(g.get_prec(), dtype=float)
    h = np.asarray(g.get_h(), dtype=float)
    n = len(names)
    cons = prec.shape == (n, n) and h.shape == (n, 1) and g.dim == n
    out = {"k": "gau", "v": names, "K": mat(prec.reshape(n, n) if prec.size == n * n else prec), "h": vec(h),
           "g": num(g.get_g()), "cons": bool(cons)}
    if FORMS:
        # the covariance form comes from another copy, so that nothing is recomputed from the canonical form above
        try:
            g = copy.deepcopy(f)
            cov = np.asarray(g.get_cov(), dtype=float)
            mean = np.asarray(g.get_mean(), dtype=float)
            out.update(S=mat(cov.reshape(n, n)), m=vec(mean), lw=num(g.get_log_weight()))
        except Exception:  # pylint: disable=broad-except
            out.update(S=[], m=[], lw="error")
    return out


def project(f):
    if isinstance(f, Categorical):
        return project_dense(f)
    if isinstance(f, SparseCategorical):
        return project_sparse(f)
    if isinstance(f, Gaussian):
        return project_gaussian(f)
    from project_more import project_other  # pylint: disable=import-outside-toplevel

    return project_other(f)
