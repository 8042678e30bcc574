"""
Executes programs on real cluster graphs and records what happened as traces for GraphTrace.
Usage: graph_worker.py PROGRAMS.ndjson TRACES.ndjson
"""
import contextlib
import copy
import json
import os
import signal
import sys

import networkx as nx
import numpy as np

import drawing
import plots
import project
from pool_worker import Hang, freeze, new_factor, on_alarm, poke, scramble
from project import frac, num
from veroku.cluster_graph import ClusterGraph

PROGRAM_TIMEOUT = 60


def evidence(rec):
    return {v: (x if isinstance(x, int) else frac(x)) for v, x in zip(rec["vars"], rec["vals"])}


class Machine:
    """Input factors, the current graph and what it returned."""

    def __init__(self, plain=True):
        self.plain = plain  # otherwise: without debugging, with printed information
        self.factors, self.seen = [], []
        self.graph = None
        self.drawing = None
        self.index = {}
        self.results = []
        self.dicts = []
        self.events = []

    def beliefs(self):
        if self.graph is None:
            return []
        return [project.project(c._factor) for c in self.graph._clusters]

    def paths(self):
        """All message paths in a canonical order."""
        return sorted(self.graph.graph_message_paths, key=lambda p: (self.send(p), self.recv(p)))

    def loopy(self):
        g = nx.Graph((self.send(p), self.recv(p)) for p in self.graph.graph_message_paths)
        return len(g) > 0 and not nx.is_forest(g)

    def exploding(self):
        """Unnormalised messages around a loop can grow without bounds; such runs are not followed any further."""
        if self.graph is None or not self.loopy():
            return False
        for c in self.graph._clusters:
            f = c._factor
            if hasattr(f, "log_probs_tensor"):
                logs = np.asarray(f.log_probs_tensor).ravel()
            elif hasattr(f, "log_probs_table"):
                logs = np.array(list(f.log_probs_table.values()) or [0.0], dtype=float)
            else:
                logs = np.array([copy.deepcopy(f).get_g()], dtype=float)
            logs = logs[np.isfinite(logs)]
            if logs.size and np.max(np.abs(logs)) > 3000:
                return True
        return False

    def send(self, p):
        return self.index[p.sender_cluster.cluster_id]

    def recv(self, p):
        return self.index[p.receiver_cluster.cluster_id]

    def run(self, c, ev):
        op = c["op"]
        if op == "factors":
            self.factors = []
            for f in c["new"]:
                self.factors.append(self.factors[f["as"] - 1] if f["op"] == "same" else new_factor(f))
            self.seen = [json.dumps(project.project(f)) for f in self.factors]
            ev["fs"] = [json.loads(s) for s in self.seen]
            if any(f["op"] == "newnlg" for f in c["new"]):
                # the densities of nonlinear Gaussians are not visible from outside
                ev["defs"] = [f if f["op"] == "newnlg" else {"op": ""} for f in c["new"]]
            del ev["new"]
        elif op == "build":
            kwargs = {}
            if c["ev"]["vars"] or c.get("explicit"):
                kwargs["evidence"] = evidence(c["ev"])
            if c["sp"]["vars"] or c.get("explicit"):
                kwargs["special_evidence"] = evidence(c["sp"])
            self.dicts = list(kwargs.values())
            factors = list(self.factors)
            before = [freeze(x) for x in self.dicts], [id(f) for f in factors]
            self.graph = None
            graph = ClusterGraph(factors, disable_tqdm=self.plain, **kwargs)
            ev["argmut"] = before != ([freeze(x) for x in self.dicts], [id(f) for f in factors])
            graph.debug, graph.verbose = self.plain, not self.plain
            clusters = graph._clusters
            self.index = {cl.cluster_id: i + 1 for i, cl in enumerate(clusters)}
            edges = []
            for i, cl in enumerate(clusters):
                for nid in cl.neighbour_ids:
                    edges.append({"i": i + 1, "j": self.index[nid], "sep": list(cl.get_sepset(nid))})
            self.graph = graph
            ev["obs"] = {"cl": self.beliefs(), "ids": [cl.cluster_id for cl in clusters], "edges": edges}
            ev["paths"] = [[self.send(p), self.recv(p)] for p in graph.graph_message_paths]
            self.drawing = drawing.Drawing(graph._graph.source) if c.get("draw") else None
            if self.drawing:
                ev["draw"] = self.drawing.record()
        elif op in ("pass", "msg"):
            ps = self.paths()
            p = ps[c["k"] % len(ps)]
            del ev["k"]
            ev["i"], ev["j"] = self.send(p), self.recv(p)
            if op == "pass":
                ev["msg"] = project.project(p.next_message.factor)
                p.pass_next_message()
            else:
                sender = [cl for cl in self.graph._clusters if cl.cluster_id == p.sender_cluster.cluster_id][0]
                message = sender.make_message(p.receiver_cluster.cluster_id)
                ev["res"] = project.project(message.factor)
                self.results.append(message.factor)
        elif op == "process":
            g = self.graph
            count, start = g.num_messages_passed, len(g.passed_messages)
            kwargs = {"make_animation_gif": True} if c.get("anim") else {}
            if "loopyiter" in c and self.loopy():
                c = dict(c, iter=c["loopyiter"])
                ev["iter"] = c["iter"]
            shown = len(g.message_passing_animation_frames)
            if c.get("dflt") and c["iter"] == 50:
                g.process_graph(**kwargs)
            else:
                g.process_graph(tol=frac(c["tol"]), max_iter=c["iter"], **kwargs)
            if self.drawing:
                numbers = [drawing.number(f) for f in g.message_passing_animation_frames[shown:]]
                ev["frames"] = [self.drawing.compare(drawing.shots[n - 1]) for n in numbers]
                ev["final"] = self.drawing.compare(g._graph.source)
                ev["anim"] = bool(c.get("anim"))
            ev["cnt"] = g.num_messages_passed - count
            ev["rec"] = [num(x) for x in g.sync_message_passing_max_distances]
            ev["msgs"] = [{"i": self.index[m.sender_id], "j": self.index[m.receiver_id], "p": project.project(m.factor)}
                          for m in g.passed_messages[start:]]
        elif op == "marg":
            vrs = list(c["vars"])
            result = self.graph.get_marginal(vrs)
            ev["argmut"] = vrs != c["vars"]
            ev["res"] = project.project(result)
            self.results.append(result)
            scramble(vrs)
        elif op == "joint":
            result = self.graph.get_posterior_joint()
            ev["res"] = project.project(result)
            self.results.append(result)
        elif op == "gif":
            name = f"vkanimation{os.getpid()}.gif"
            self.graph.make_message_passing_animation_gif(filename=name)
            ev["shown"] = drawing.gif_numbers(name)
            ev["want"] = [drawing.number(f) for f in self.graph.message_passing_animation_frames]
            os.remove(name)
        elif op == "plotgain":
            ev["res"] = plots.gains(self.graph, c["legend"])
        elif op == "plotconv":
            ev["res"] = plots.convergence(self.graph, c["log"])
        elif op == "save":
            before = len(drawing.shots)
            name = f"vkgraph{os.getpid()}"
            self.graph.save_graph_image(name)
            ev["saved"] = [self.drawing.compare(x) for x in drawing.shots[before:]]
        elif op == "poke":
            if c["what"] == "inputs":
                for f in self.factors:
                    poke(f)
                self.factors, self.seen = [], []
                for d in self.dicts:
                    scramble(d)
            else:
                for r in self.results:
                    poke(r)
                self.results = []
        else:
            raise KeyError(op)

    def step(self, c):
        op = c["op"]
        if op == "build" and not self.factors:
            return
        if op not in ("factors", "build") and self.graph is None:
            return
        if op in ("pass", "msg") and not self.graph.graph_message_paths:
            return
        if op == "gif" and not self.graph.message_passing_animation_frames:
            return
        ev = dict(c, st="ok", err="", argmut=False, obs=[])
        dicts = [freeze(d) for d in self.dicts]
        try:
            self.run(c, ev)
            if op != "build":
                ev["obs"] = self.beliefs()
        except Exception as e:  # pylint: disable=broad-except
            ev.update(st="raise", err=type(e).__name__, text=str(e)[:200])
            if op in ("build", "pass", "process"):
                self.graph = None
            else:
                ev["obs"] = self.beliefs()
        ev.setdefault("i", 0)
        if op not in ("build", "poke", "factors"):
            ev["argmut"] = ev["argmut"] or dicts != [freeze(d) for d in self.dicts]
        ev["chg"] = self.changes()
        self.events.append(ev)
        return ev["op"] in ("pass", "process") and self.exploding()

    def changes(self):
        chg = []
        for h, f in enumerate(self.factors):
            try:
                s = json.dumps(project.project(f))
            except Exception as e:  # pylint: disable=broad-except
                s = json.dumps({"k": "broken", "v": [type(e).__name__]})
            if s != self.seen[h]:
                self.seen[h] = s
                chg.append({"h": h + 1, "p": json.loads(s)})
        return chg


def twin(events, program):
    """The same program without debugging and with printed information: which events differ?"""
    other = Machine(plain=False)
    with open(os.devnull, "w") as sink, contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
        for c in program:
            if other.step(c):
                other.events.pop()
                break
    texts = [[json.dumps({k: x for k, x in e.items() if k != "msgs"}, sort_keys=True) for e in evs] for evs in (events, other.events)]
    for i, e in enumerate(events):
        e["tw"] = i < len(texts[1]) and texts[0][i] == texts[1][i]


def run(program, again):
    m = Machine()
    signal.alarm(PROGRAM_TIMEOUT)
    try:
        for c in program:
            if m.step(c):
                m.events.pop()
                break
        if again:
            twin(m.events, copy.deepcopy(program))
        m.events.append({"op": "end", "st": "ok", "err": "", "obs": [], "argmut": False, "chg": []})
    except (Hang, TypeError, ValueError, LookupError, ArithmeticError) as e:
        # a call that does not return, or objects that are no longer usable
        m.events.append({"op": "hang", "st": "raise", "err": type(e).__name__, "text": str(e)[:200], "obs": [], "argmut": False, "chg": []})
    finally:
        signal.alarm(0)
    return m.events


def main():
    signal.signal(signal.SIGALRM, on_alarm)
    drawing.install()
    hangs = 0
    with open(sys.argv[1]) as src, open(sys.argv[2], "w") as dst:
        for number, line in enumerate(src):
            rec = json.loads(line)
            again = number % 3 == 0 and not any(c["op"] in ("gif", "plotgain", "plotconv", "save") for c in rec["prog"])
            # after some hangs the rest is skipped: the check reports the hangs
            rec["ev"] = run(copy.deepcopy(rec["prog"]) if hangs < 3 else [], again)
            hangs += rec["ev"][-1]["op"] == "hang" and rec["ev"][-1]["err"] == "Hang"
            dst.write(json.dumps(rec) + "\n")


if __name__ == "__main__":
    main()
