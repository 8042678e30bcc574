"""
The operations of the Gaussian part of the pool machine (see pool_worker.py): each plan is (is the result a factor,
function to call, containers that are passed as arguments).
"""
from types import SimpleNamespace
import ast

import numpy as np

import plots
from project import Categorical, Gaussian, SparseCategorical, frac, logfrac, mat, num, vec

from veroku.factors.experimental.factorised_factor import FactorizedFactor
from veroku.factors.experimental.gaussian_mixture import GaussianMixture
from veroku.factors.experimental.nonlinear_gaussian import (
    NonLinearGaussian,
    NonLinearGaussianMixture,
    NonLinearGaussianTemplate,
)
from veroku.factors._sigma_points import get_sigma_points_array
from veroku.factors.categorical import CategoricalTemplate
from veroku.factors.gaussian import GaussianTemplate, make_linear_gaussian, make_linear_gaussian_cpd_template, make_std_gaussian
from veroku.factors.sparse_categorical import SparseCategoricalTemplate


class Affine:
    """The transform x -> A x + c of columns; byname: the rows are looked up by name (pos: positions by name)."""

    def __init__(self, a_mat, offset, names=None):
        self.a_mat, self.offset, self.names = a_mat, offset, names

    def __call__(self, x, var_names):
        if self.names is not None:
            x = np.array([x[list(var_names).index(v)] for v in self.names])
        return self.a_mat @ x + self.offset


def new_nlg(c):
    a_mat, n_mat = array(c["A"], len(c["vin"])), array(c["N"], len(c["vout"]))
    offset = np.array([frac(x) for x in c["m"]]).reshape(-1, 1)
    return Affine(a_mat, offset, list(c["vin"]) if c.get("byname") else None), n_mat


def template_name(pieces):
    return "".join("{" + p["f"] + "}" if "f" in p else p["s"].replace("{", "{{").replace("}", "}}") for p in pieces)


def plan_template(c):
    """A template; the names in its parameters are ignored."""
    from pool_worker import new_gaussian, new_table  # pylint: disable=import-outside-toplevel

    par = c["par"]
    tv, tw = [template_name(t) for t in c["tv"]], [template_name(t) for t in c["tw"]]
    if par["op"] == "newtab":
        kwargs = new_table(par)[1]
        kwargs.pop("var_names")
        kwargs.pop("variables_assignment_names", None)
        if par["sp"]:
            kwargs = {k: kwargs[k] for k in ("probs_table", "cardinalities")}
            return lambda: SparseCategoricalTemplate(var_templates=tv, **kwargs), [tv, kwargs]
        return lambda: CategoricalTemplate(var_templates=tv, **kwargs), [tv, kwargs]
    if par["op"] == "newgau":
        kwargs = new_gaussian(par)[1]
        params = {"prec": kwargs["prec"], "h": kwargs["h_vec"], "g": kwargs["g_val"]}
        return lambda: GaussianTemplate(params, tv), [tv, params]
    if par["op"] == "newlin":
        a_mat, n_mat = array(par["A"], len(tv)), array(par["N"], len(tw))
        return lambda: make_linear_gaussian_cpd_template(a_mat, n_mat, tv, tw), [a_mat, n_mat, tv, tw]
    transform, n_mat = new_nlg(dict(par, vin=tv, vout=tw))
    return lambda: NonLinearGaussianTemplate(tv, tw, transform, n_mat), [n_mat, tv, tw]


def plan_make(f, c):
    if "fmt" in c:
        fmt = {k: int(v) if v.isdigit() and str(int(v)) == v and c["ints"] else v for k, v in zip(c["fmt"]["keys"], c["fmt"]["vals"])}
        if c["op"] == "fmtb":
            return False, lambda: f.formattable(fmt), [fmt]
        if c.get("kw", True):
            return True, lambda: f.make_factor(format_dict=fmt), [fmt]
        return True, lambda: f.make_factor(fmt), [fmt]
    vs, ws = list(c["vs"]), list(c["ws"])
    if isinstance(f, NonLinearGaussianTemplate):
        return True, lambda: f.make_factor(conditioning_vars=vs, conditional_vars=ws), [vs, ws]
    names = vs + ws
    return True, lambda: f.make_factor(var_names=names), [names]


def array(rows, cols=None):
    return np.array([[frac(x) for x in row] for row in rows], dtype=float).reshape(len(rows), len(rows[0]) if rows else cols)


def estimates(f, n):
    """Sample moments."""
    np.random.seed(20201119)
    s = np.asarray(f.sample(n), dtype=float)
    dim = len((f.copy().joint_distribution if isinstance(f, NonLinearGaussian) else f).var_names)
    assert s.shape == (dim, n), s.shape
    mean = s.mean(axis=1)
    cov = (s - mean[:, None]) @ (s - mean[:, None]).T / n
    return {"n": n, "mean": vec(mean), "cov": mat(cov)}


def parameter(f, what):
    from pool_worker import scramble  # pylint: disable=import-outside-toplevel

    if what in ("prec", "cov"):
        value = getattr(f, "get_" + what)()
        result = mat(value)
        scramble(value)  # it belongs to the caller
        return result
    if what in ("h", "mean"):
        value = np.asarray(getattr(f, "get_" + what)())
        dim = len((f.joint_distribution if isinstance(f, NonLinearGaussian) else f).var_names)
        assert value.shape == (dim, 1), value.shape
        result = vec(value)
        scramble(value)
        return result
    return num(getattr(f, {"g": "get_g", "lw": "get_log_weight", "w": "get_weight"}[what])())


def value(a):
    """A raw argument (see Arguments.tla)."""
    if a["t"] == "none":
        return None
    if a["t"] == "str":
        return a["x"]
    if a["t"] == "num":
        return int(a["x"]) if "/" not in a["x"] and a.get("int") else frac(a["x"])
    if a["t"] == "list":
        return [value(x) for x in a["x"]]
    return np.array([frac(x) for x in a["x"]], dtype=float).reshape(a["sh"])


def plan_raw_gaussian(c):
    names = {"prec": "prec", "h": "h_vec", "g": "g_val", "cov": "cov", "mean": "mean", "lw": "log_weight"}
    kwargs = {names[k]: value(a) for k, a in c["par"].items() if a["t"] != "none"}
    if c["hasnames"]:
        kwargs["var_names"] = list(c["names"])
    return True, lambda: Gaussian(**kwargs), list(kwargs.values())


def plan_raw_table(c):
    kwargs = {"var_names": list(c["names"])}
    if c["cards"]["t"] != "none":
        kwargs["cardinalities"] = list(c["cards"]["x"])
    if c["tab"]["t"] != "none":
        if c["sp"] and c["logs"]:
            kwargs["log_probs_table"] = {tuple(k): logfrac(x) for k, x in c["tab"]["x"]}
        else:
            kwargs["probs_table"] = {tuple(k): frac(x) for k, x in c["tab"]["x"]}
    if c["ten"]["t"] != "none":
        kwargs["log_probs_tensor"] = np.array([logfrac(x) for x in c["ten"]["x"]]).reshape(c["ten"]["sh"])
    if c["nm"]["t"] != "none":
        kwargs["variables_assignment_names"] = [[ast.literal_eval(n) for n in ns] for ns in c["nm"]["x"]]
    if c["sp"]:
        kwargs["default_log_prob"] = logfrac(c["df"])
        kwargs.setdefault("cardinalities", None)
    cls = SparseCategorical if c["sp"] else Categorical
    return True, lambda: cls(**kwargs), list(kwargs.values())


def plan_new(m, c):
    op = c["op"]
    if op == "rawgau":
        return plan_raw_gaussian(c)
    if op == "rawtab":
        return plan_raw_table(c)
    if op == "newstd":
        names = list(c["v"])
        return True, lambda: make_std_gaussian(names), [names]
    if op == "newvac":
        names = list(c["v"])
        return True, lambda: Gaussian.make_vacuous(names, frac(c["w"])), [names]
    if op == "newlin":
        a_mat, n_mat = array(c["A"], len(c["vin"])), array(c["N"], len(c["vout"]))
        vin, vout = list(c["vin"]), list(c["vout"])
        return True, lambda: make_linear_gaussian(a_mat, n_mat, vin, vout), [a_mat, n_mat, vin, vout]
    if op == "newnlg":
        transform, n_mat = new_nlg(c)
        vin, vout = list(c["vin"]), list(c["vout"])
        kwargs = {"log_weight": frac(c["w"])} if c["w"] != "0" else {}
        return True, lambda: NonLinearGaussian(vin, vout, transform, n_mat, **kwargs), [n_mat, vin, vout]
    if op == "newtpl":
        return (True,) + plan_template(c)
    if op == "newskm":
        learned = SimpleNamespace(means_=np.array([[frac(x) for x in k["m"]] for k in c["cs"]]),
                                  covariances_=np.array([[[frac(x) for x in row] for row in k["M"]] for k in c["cs"]]),
                                  weights_=np.array([frac(k["w"]) for k in c["cs"]]))
        names = list(c["v"])
        return True, lambda: GaussianMixture.from_sklearn_gmm(learned, names), [learned.means_, learned.covariances_, learned.weights_, names]
    parts = [m.pool[h] for h in c["hs"]]
    if op == "newnlm":
        return True, lambda: NonLinearGaussianMixture(parts, split_singles_before_absorb=c["split"]), []
    if op == "newmix":
        return True, lambda: GaussianMixture(parts, cancel_method=c["cm"]), []
    return True, lambda: FactorizedFactor(parts), []


def plan_more(m, c):
    op = c["op"]
    if op in ("newvac", "newlin", "newmix", "newskm", "newfac", "newnlg", "newnlm", "newtpl", "rawgau", "rawtab", "newstd"):
        return plan_new(m, c)
    if "a" not in c:
        return None
    f = m.pool[c["a"]]
    other = m.pool[c["b"]] if "b" in c else None
    if op == "par":
        return False, lambda: parameter(f, c["what"]), []
    if op == "gpot":
        vrs, vals = list(c["vars"]), [frac(x) for x in c["vals"]]
        shape = c.get("shape", 0)  # a list, a vector or a column
        vals = vals if shape == 0 else np.array(vals) if shape == 1 else np.array(vals).reshape(-1, 1)
        if vrs:
            return False, lambda: num(f.log_potential(vals, vrs)), [vrs, vals]
        return False, (lambda: num(f.log_potential(vals))) if c["lg"] else (lambda: num(f.potential(vals))), [vals]
    if op == "plot":
        xlim, ylim = [[frac(x) for x in c[k]] for k in ("xlim", "ylim")]
        return False, lambda: plots.record(f, c, xlim, ylim), [xlim, ylim]
    if op == "sample":
        return False, lambda: estimates(f, c["n"]), []
    if op in ("make", "fmtb"):
        return plan_make(f, c)
    if op == "sigma":
        return False, lambda: mat(get_sigma_points_array(f)), []
    if op == "mm":
        return True, f.moment_match_to_single_gaussian, []
    if op == "joint":
        return True, lambda: f.joint_distribution, []
    if op == "argmax" and isinstance(f, GaussianMixture):
        return False, lambda: vec(f.argmax()), []
    if op == "kl" and "nrm" not in c:
        return False, lambda: num(f.kl_divergence(other)), []
    return None
