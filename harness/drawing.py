"""
Stands in for the graphviz program and records what was drawn: every rendered drawing gets a number, its image has a single
colour that encodes this number, and the drawing itself is read from its source text (never from how the code stores it).
"""
import io
import os
import re
import tempfile

import graphviz
import PIL.Image

TOKEN = re.compile(r'\s*(?:("(?:[^"\\]|\\.)*")|(--|->)|([\[\]{}=;,:])|(<[^\s]*>)|([^\s\[\]{}=;,:"<>]+))', re.S)

shots = []
_folder = tempfile.mkdtemp(prefix="vkdraw-")
_open = PIL.Image.open


def tokens(source):
    pos, out = 0, []
    source = source.rstrip()
    while pos < len(source):
        m = TOKEN.match(source, pos)
        if not m:
            raise ValueError("cannot read the drawing: " + source[pos: pos + 40])
        q, arrow, punct, html, word = m.groups()
        out.append((punct or arrow, None) if punct or arrow else ("id", q[1:-1].replace('\\"', '"') if q is not None else html or word))
        pos = m.end()
    return out


def parse(source):
    """The nodes and edges with their attributes."""
    ts = tokens(source)
    i = [x[0] for x in ts].index("{") + 1
    nodes, edges = {}, []

    def name(i):
        n = ts[i][1]
        assert ts[i][0] == "id"
        i += 1
        while ts[i][0] == ":":
            n += ":" + ts[i + 1][1]
            i += 2
        return n, i

    while ts[i][0] != "}":
        if ts[i][0] == ";":
            i += 1
            continue
        chain = []
        n, i = name(i)
        chain.append(n)
        while ts[i][0] in ("--", "->"):
            n, i = name(i + 1)
            chain.append(n)
        attrs = {}
        if ts[i][0] == "[":
            i += 1
            while ts[i][0] != "]":
                if ts[i][0] in (",", ";"):
                    i += 1
                    continue
                key = ts[i][1]
                assert ts[i + 1][0] == "="
                attrs[key] = ts[i + 2][1]
                i += 3
            i += 1
        if len(chain) == 1:
            nodes.setdefault(n, {}).update(attrs)
        edges += [(a, b, attrs) for a, b in zip(chain, chain[1:])]
    return nodes, edges


def look(attrs, colour):
    rest = ",".join(f"{k}={v}" for k, v in sorted(attrs.items()) if k not in (colour, "label"))
    return attrs.get(colour, ""), rest


class Drawing:
    """A first drawing, to which later ones are compared."""

    def __init__(self, source):
        self.nodes, self.edges = parse(source)
        self.names = sorted(self.nodes)
        self.ends = sorted(tuple(sorted((a, b))) for a, b, _ in self.edges)

    def record(self):
        fill, col = self.colours(self.nodes, self.edges)
        return {"nodes": self.names, "labels": [self.nodes[n].get("label", "") for n in self.names], "ends": [list(e) for e in self.ends],
                "fill": fill, "color": col}

    def colours(self, nodes, edges):
        fill = []
        for n in self.names:
            c, rest = look(nodes[n], "fillcolor")
            fill.append(c if rest == look(self.nodes[n], "fillcolor")[1] else c + " " + rest)
        base = {tuple(sorted((a, b))): look(at, "color")[1] for a, b, at in self.edges}
        found = {tuple(sorted((a, b))): look(at, "color") for a, b, at in edges}
        col = [found[e][0] if found[e][1] == base[e] else " ".join(found[e]) for e in self.ends]
        return fill, col

    def compare(self, source):
        nodes, edges = parse(source)
        same = sorted(nodes) == self.names and sorted(tuple(sorted((a, b))) for a, b, _ in edges) == self.ends and all(
            nodes[n].get("label") == self.nodes[n].get("label") for n in nodes)
        if not same:
            return {"fill": [], "color": []}
        fill, col = self.colours(nodes, edges)
        return {"fill": fill, "color": col}


def shoot(source):
    shots.append(source)
    k = len(shots)
    return PIL.Image.new("RGB", (3, 3), (k & 255, (k >> 8) & 255, (k >> 16) & 255))


def number(image):
    r, g, b = image.convert("RGB").getpixel((0, 0))
    return r + (g << 8) + (b << 16)


def local(path):
    return os.path.join(_folder, re.sub(r"[^\w.]", "_", os.path.abspath(str(path))))


def _render(self, filename=None, directory=None, *args, format=None, outfile=None, **kwargs):  # pylint: disable=redefined-builtin
    out = outfile or os.path.join(directory or "", filename or getattr(self, "filename", None) or "graph.gv") + "." + (format or self.format)
    shoot(self.source).save(local(out), format="PNG")
    return str(out)


def _pipe(self, format=None, *args, **kwargs):  # pylint: disable=redefined-builtin
    data = io.BytesIO()
    shoot(self.source).save(data, format="PNG")
    return data.getvalue()


def _image_open(fp, *args, **kwargs):
    if isinstance(fp, (str, os.PathLike)) and os.path.exists(local(fp)):
        fp = local(fp)
    return _open(fp, *args, **kwargs)


def install():
    for cls in (graphviz.Graph, graphviz.Digraph, graphviz.Source):
        cls.render = _render
        cls.pipe = _pipe
    PIL.Image.open = _image_open


def gif_numbers(path):
    image = _open(path)
    out = []
    for k in range(getattr(image, "n_frames", 1)):
        image.seek(k)
        out.append(number(image))
    image.close()
    return out
