"""
Projection of the other kinds of factors (see project.py).
"""
import copy

from veroku.factors.experimental.factorised_factor import FactorizedFactor
from veroku.factors.experimental.gaussian_mixture import GaussianMixture
from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussian, NonLinearGaussianMixture

import project


def project_other(f):
    if isinstance(f, GaussianMixture):
        comps = [project.project(c) for c in f.components]
        cons = f.num_components == len(comps) and f.dim == len(f.var_names)
        return {"k": "mix", "v": list(f.var_names), "cs": comps, "cm": int(f.cancel_method), "cons": bool(cons)}
    if isinstance(f, FactorizedFactor):
        g = copy.deepcopy(f)
        return {"k": "fac", "v": list(g.var_names), "fs": [project.project(c) for c in g.factors],
                "j": project.project(copy.deepcopy(f).joint_distribution), "cons": f.num_factors == len(g.factors)}
    if isinstance(f, NonLinearGaussian):
        return {"k": "nlg", "v": list(f.var_names), "j": project.project(copy.deepcopy(f).joint_distribution),
                "cons": f.dim == len(f.var_names)}
    if isinstance(f, NonLinearGaussianMixture):
        return {"k": "nlm", "v": list(f.var_names), "j": project.project(copy.deepcopy(f).joint_distribution),
                "cons": f.dim == len(f.var_names)}
    if hasattr(f, "make_factor") and hasattr(f, "formattable"):
        return {"k": "tpl", "v": [], "cons": True}
    raise TypeError(f"no projection for {type(f)}")
