"""
Executes programs (behaviours generated by TLC from the specification) on real veroku objects and records what happened
as traces for FactorPool (module PoolTrace). Usage: pool_worker.py PROGRAMS.ndjson TRACES.ndjson
"""
from fractions import Fraction
import ast
import copy
import itertools
import json
import operator
import signal
import sys

import numpy as np

import project
import texts
from project import Categorical, Gaussian, SparseCategorical, frac, logfrac, num

PROGRAM_TIMEOUT = 20


class Hang(BaseException):
    """A call did not return."""


def on_alarm(*_):
    raise Hang()


def log(x):
    return np.log(x) if x > 0 else -np.inf


def assignments(cards):
    return list(itertools.product(*[range(c) for c in cards]))


def freeze(x):
    """A comparable deep copy of an argument."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.tolist())
    if isinstance(x, dict):
        return ("dict", sorted((repr(k), repr(freeze(v))) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(y) for y in x])
    return repr(x)


def scramble(x):
    """Change a container (that was passed as an argument) in place."""
    if isinstance(x, np.ndarray):
        if x.size and x.flags.writeable:
            x[...] = 77.0
    elif isinstance(x, dict):
        x.clear()
        x["scrambled"] = 1
    elif isinstance(x, list):
        for i, y in enumerate(x):
            if isinstance(y, (list, dict, np.ndarray)):
                scramble(y)
            elif not isinstance(y, tuple) and y is not None:
                x[i] = f"scrambled{i}"
        x.append("scrambled")


def new_table(c):
    """Returns (constructor, args)."""
    cards = list(c["c"])
    values = [frac(x) for x in c["t"]] if c["style"] == 0 else None
    logs = [logfrac(x) for x in c["t"]]
    asgs = assignments(cards)
    if c["sp"]:
        kwargs = {"var_names": list(c["v"]), "cardinalities": cards, "default_log_prob": logfrac(c["df"])}
        if c["style"] == 0:
            kwargs["probs_table"] = {asgs[i - 1]: values[i - 1] for i in c["ex"]}
        else:
            kwargs["log_probs_table"] = {asgs[i - 1]: logs[i - 1] for i in c["ex"]}
        return SparseCategorical, kwargs
    kwargs = {"var_names": list(c["v"])}
    if c["style"] == 0:
        kwargs["cardinalities"] = cards
        kwargs["probs_table"] = {a: x for a, x in zip(asgs, values) if x > 0}
    else:
        kwargs["log_probs_tensor"] = np.array(logs).reshape(cards)
    names = [[ast.literal_eval(n) for n in ns] for ns in c["nm"]]
    if any(ns != list(range(card)) for ns, card in zip(names, cards)):
        kwargs["variables_assignment_names"] = names
    return Categorical, kwargs


def big_sparse(c):
    """A factor over many variables of which only few assignments are stored, brought back to few variables."""
    table = {tuple(r["a"]): logfrac(r["w"]) for r in c["rows"]}
    f = SparseCategorical(var_names=list(c["v"]), cardinalities=list(c["c"]), log_probs_table=table, default_log_prob=logfrac(c["df"]))
    if c["how"] == "reduce":
        gone = [v for v in c["v"] if v not in c["vars"]]
        return f.reduce(gone, list(c["at"]))
    if c["how"] == "norm":
        f = f.normalize()
    if c["how"] == "square":
        f = f.multiply(f.copy())
    return f.marginalize(list(c["vars"]), keep=True)


def new_gaussian(c):
    """A Gaussian in canonical or covariance form; every second one with plain lists as arguments."""
    mat = [[frac(x) for x in row] for row in c["M"]]
    vec = [frac(x) for x in c["m"]]
    if c.get("lists"):
        mat = [[int(x) if x == int(x) else x for x in row] for row in mat]
        vec = [int(x) if x == int(x) else x for x in vec]
    else:
        mat = np.array(mat, dtype=float).reshape(len(vec), len(vec))
        vec = np.array(vec, dtype=float).reshape(-1, 1)
    if c["form"] == "can":
        return Gaussian, {"prec": mat, "h_vec": vec, "g_val": frac(c["w"]), "var_names": list(c["v"])}
    return Gaussian, {"cov": mat, "mean": vec, "log_weight": frac(c["w"]), "var_names": list(c["v"])}


def new_factor(c):
    if c["op"] not in ("newtab", "newgau"):
        from pool_more import plan_new  # pylint: disable=import-outside-toplevel

        return plan_new(None, c)[1]()
    cls, kwargs = new_table(c) if c["op"] == "newtab" else new_gaussian(c)
    return cls(**kwargs)


def listing(f, c):
    if c["df"]:
        frame = f.get_df(named_assignments=c["named"])
        names = [n for n in frame.columns if n != "prob"]
        columns = [frame[n].tolist() for n in names]
        probs = frame["prob"].tolist()
        rows = []
        for i, prob in enumerate(probs):
            vals = [col[i] for col in columns]
            rows.append({"a": [repr(x) for x in vals] if c["named"] else [int(x) for x in vals], "p": num(prob)})
        return {"v": names, "rows": rows}
    array = f.dense_distribution_array
    return {"v": list(f.var_names), "rows": [{"a": [int(x) for x in row[:-1]], "p": num(row[-1])} for row in array]}


def poke(f):
    """Change an object in place, as thoroughly as a client can."""
    for name in ("log_probs_tensor", "prec", "h_vec", "cov", "mean"):
        scramble(getattr(f, name, None))
    for name in ("log_probs_table", "var_cards", "vars_assignments_names_dict"):
        scramble(getattr(f, name, None))
    for name in ("noise_cov", "observed_evidence", "conditioning_vars", "conditional_vars"):
        scramble(getattr(f, name, None))
    for name in ("conditioning_factor", "conditional_update_factor"):
        if getattr(f, name, None) is not None:
            poke(getattr(f, name))
    for name in ("components", "factors", "_factors", "nlgs"):
        for sub in getattr(f, name, None) or []:
            poke(sub)
        scramble_list = getattr(f, name, None)
        if isinstance(scramble_list, list):
            scramble_list.clear()
    for name in ("cardinalities", "_var_names"):
        scramble(getattr(f, name, None))


def flag(x):
    assert isinstance(x, (bool, np.bool_)), type(x)
    return bool(x)


class Machine:
    """The pool of real objects."""

    def __init__(self):
        self.pool = {}
        self.seen = {}
        self.events = []
        self.scrambles = True

    # -- operations: each returns (is_factor, function to call, list of argument containers)
    def plan(self, c):
        op = c["op"]
        if op == "newtab":
            cls, kwargs = new_table(c)
            return True, lambda: cls(**kwargs), list(kwargs.values())
        if op == "bigsp":
            return True, lambda: big_sparse(c), []
        if op == "newgau":
            cls, kwargs = new_gaussian(c)
            return True, lambda: cls(**kwargs), list(kwargs.values())
        from pool_more import plan_more  # pylint: disable=import-outside-toplevel

        more = plan_more(self, c)
        if more is not None:
            return more
        f = self.pool[c["a"]]
        other = self.pool[c["b"]] if "b" in c else None
        alias = c.get("alias", 0)
        if op == "mul":
            fun = f.absorb if c["out"] % 5 == 1 else f.multiply
            return True, (lambda: f * other) if alias else (lambda: fun(other)), []
        if op == "div":
            return True, (lambda: operator.truediv(f, other)) if alias else (lambda: f.divide(other)), []
        if op == "cancel":
            return True, lambda: f.cancel(other), []
        if op == "marg":
            vrs = list(c["vars"])
            one = vrs[0] if len(vrs) == 1 and c["out"] % 3 == 1 else vrs  # a name instead of a list of names
            if c["keep"] and c["out"] % 2:
                return True, lambda: f.marginalize(one), [vrs]
            return True, lambda: f.marginalize(one, keep=c["keep"]), [vrs]
        if op == "reduce":
            vrs = list(c["vars"])
            vals = [int(x) if isinstance(x, int) else frac(x) for x in c["vals"]]
            fun = f.observe if alias else f.reduce
            return True, lambda: fun(vrs, vals), [vrs, vals]
        if op == "reorder":
            vrs = list(c["vars"])
            return True, lambda: f.reorder(vrs), [vrs]
        if op == "norm":
            return True, f.normalize, []
        if op == "copy":
            return True, f.copy, []
        if op == "weight":
            return False, lambda: num(f.weight), []
        if op == "kl":
            return False, lambda: num(f.kl_divergence(other, normalize_factor=c["nrm"])), []
        if op == "dfv":
            return False, lambda: num(f.distance_from_vacuous()), []
        if op == "isvac":
            return False, lambda: flag(f.is_vacuous), []
        if op == "eq":
            if "tol" in c:
                rtol, atol = [float(Fraction(x)) for x in c["tol"]]
                return False, lambda: flag(f.equals(other, rtol=rtol, atol=atol)), []
            return False, (lambda: flag(f == other)) if alias else (lambda: flag(f.equals(other))), []
        if op == "ne":
            return False, lambda: flag(f != other), []
        if op == "pot":
            vrs = list(c["vars"])
            vals = list(c["vals"])
            return False, lambda: num(f.potential(vrs, vals)), [vrs, vals]
        if op == "show":
            return False, lambda: texts.read(f), []
        if op == "argmax":
            return False, lambda: [int(x) for x in f.argmax()], []
        if op == "argmaxn":
            return False, lambda: [repr(x.item() if hasattr(x, "item") else x) for x in f.argmax_assignment_names()], []
        if op == "list":
            return False, lambda: listing(f, c), []
        raise KeyError(op)

    def step(self, c):
        if any(k in c and c[k] not in self.pool for k in ("a", "b")):
            return
        if any(h not in self.pool for h in c.get("hs", [])):
            return
        ev = dict(c)
        if c["op"] == "poke":
            poke(self.pool.pop(c["a"]))
            self.seen.pop(c["a"])
            ev.update(st="ok", err="", res="", argmut=False)
        else:
            is_factor, call, args = self.plan(c)
            before = [freeze(x) for x in args]
            ev.update(err="", res="", argmut=False)
            try:
                if c["op"] in ("par", "sample") and hasattr(self.pool[c["a"]], "conditional_vars"):
                    ev["jv"] = list(self.pool[c["a"]].copy().joint_distribution.var_names)
                result = call()
                if is_factor:
                    ev["res"] = project.project(result)
                else:
                    ev["res"] = result
                ev["st"] = "ok"
            except Exception as e:  # pylint: disable=broad-except
                ev.update(st="raise", err=type(e).__name__, res=str(e)[:300])
            ev["argmut"] = [freeze(x) for x in args] != before
            if self.scrambles and c["op"] != "newtpl":
                for x in args:
                    scramble(x)
            if is_factor and ev["st"] == "ok" and c["out"]:
                self.pool[c["out"]] = result
                self.seen[c["out"]] = json.dumps(ev["res"])
            for h in (c.get("a"), c.get("b"), c.get("out")):
                scramble(getattr(self.pool.get(h), "var_names", None))  # the list belongs to the caller
        self.events.append(ev)
        handles = list(self.pool) if len(self.pool) <= 14 else [h for h in (c.get("a"), c.get("b"), c.get("out")) if h]
        ev["chg"] = self.changes(handles)

    def changes(self, handles):
        chg = []
        for h in handles:
            if h not in self.pool:
                continue
            try:
                p = project.project(self.pool[h])
            except Exception as e:  # pylint: disable=broad-except
                p = {"k": "broken", "v": [type(e).__name__]}
            s = json.dumps(p)
            if s != self.seen[h]:
                self.seen[h] = s
                chg.append({"h": h, "p": p})
        return chg


def run(program):
    m = Machine()
    signal.alarm(PROGRAM_TIMEOUT)
    try:
        for c in program:
            m.step(c)
        m.events.append({"op": "end", "out": 0, "st": "ok", "err": "", "res": "", "argmut": False,
                         "chg": m.changes(list(m.pool))})
    except Hang:
        m.events.append({"op": "hang", "out": 0, "st": "raise", "err": "Hang", "res": "", "argmut": False, "chg": []})
    finally:
        signal.alarm(0)
    return m.events


def main():
    project.FORMS = True
    signal.signal(signal.SIGALRM, on_alarm)
    hangs = 0
    with open(sys.argv[1]) as src, open(sys.argv[2], "w") as dst:
        for line in src:
            rec = json.loads(line)
            # after some hangs the rest is skipped: the check reports the hangs
            rec["ev"] = run(copy.deepcopy(rec["prog"]) if hangs < 3 else [])
            hangs += rec["ev"][-1]["op"] == "hang"
            dst.write(json.dumps(rec) + "\n")


if __name__ == "__main__":
    main()
