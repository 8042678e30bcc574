"""
Reads the printed forms of factors (the text of repr and of show): the rows of tables, the parameters of Gaussians.
"""
import contextlib
import io
import re

from project import Categorical, Gaussian, SparseCategorical, rat

LABEL = re.compile(r"^\s*(vars|prec|h|g|cov|mean|log_weight|is_vacuous)\s*[=:](.*)$")
VALUES = re.compile(r"^[\s\[\]0-9+.eE-]*(\s*-?(inf|nan)\s*)*$")
NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\binf\b|\bnan\b)")


def printed(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f.show()
    return out.getvalue()


def table(text):
    lines = [line.split() for line in text.split("\n") if line.split()]
    assert lines[0][-1] == "prob", lines[0]
    return {"v": lines[0][:-1], "rows": [{"a": [int(x) for x in row[:-1]], "p": rat(float(row[-1]))} for row in lines[1:]]}


def gaussians(text):
    """The sections of every Gaussian in a text; what is not printed is empty."""
    found = []
    section = None
    for line in text.split("\n"):
        label = LABEL.match(line)
        if label:
            section, line = label.groups()
            if section == "vars":
                found.append({"v": re.findall(r"'([^']*)'", line)})
                continue
        elif not VALUES.match(line):
            section = None
        if found and section not in (None, "is_vacuous", "vars"):
            found[-1].setdefault(section, []).extend(rat(float(x)) for x in NUMBER.findall(line))
    for block in found:
        n = len(block["v"])
        for name in ("prec", "cov"):
            flat = block.get(name, [])
            assert len(flat) in (0, n * n), block
            block[name] = [flat[i * n : (i + 1) * n] for i in range(n)] if flat else []
        for name, size in (("h", n), ("mean", n), ("g", 1), ("log_weight", 1)):
            block.setdefault(name, [])
            assert len(block[name]) in (0, size), block
    return found


def read(f):
    """All texts of a factor: each a list of tables or Gaussians."""
    if isinstance(f, (Categorical, SparseCategorical)):
        return [[table(repr(f))], [table(printed(f))]]
    texts = [gaussians(printed(f))]
    if isinstance(f, Gaussian):
        texts.append(gaussians(repr(f)))
    assert isinstance(repr(f), str)
    return texts
