"""
Records what a plot shows: the points of curves and contours, the lengths and labels of bars, the legend.
"""
import matplotlib
import matplotlib.axes
import matplotlib.colors
import matplotlib.pyplot as plt
import numpy as np

from project import num

matplotlib.use("Agg")
contours = []
_contourf = matplotlib.axes.Axes.contourf


def _recording(self, *args, **kwargs):
    if len(args) >= 3:
        contours.append((self,) + tuple(np.asarray(a, dtype=float) for a in args[:3]))
    return _contourf(self, *args, **kwargs)


matplotlib.axes.Axes.contourf = _recording


def clear():
    plt.close("all")
    del contours[:]


def some(n, count):
    return sorted({round(i * (n - 1) / (count - 1)) for i in range(count)}) if n > 1 else list(range(n))


def curve(line, count=9):
    x, y = np.ravel(line.get_xdata()), np.ravel(np.ma.filled(np.ma.asarray(line.get_ydata(), dtype=float), np.nan))
    at = some(len(x), count)
    return {"n": len(x), "x": [num(x[i]) for i in at], "y": [num(y[i]) for i in at]}


def all_axes():
    return [ax for k in plt.get_fignums() for ax in plt.figure(k).axes]


def bars(ax):
    ticks = dict(zip([round(float(t), 6) for t in ax.get_yticks()], [t.get_text() for t in ax.get_yticklabels()]))
    out = []
    for p in ax.patches:
        out.append({"l": ticks.get(round(p.get_y() + p.get_height() / 2, 6), "?"), "w": num(p.get_width())})
    return out


def area(ax, x, y, z):
    n, m = z.shape
    points = [(i, j) for i in some(n, 4) for j in some(m, 4)]
    x, y = [np.broadcast_to(a if a.ndim == 2 else a[None, :] if k == 0 else a[:, None], z.shape) for k, a in enumerate((x, y))]
    return {"xl": ax.get_xlabel(), "yl": ax.get_ylabel(), "xr": [num(x.min()), num(x.max())], "yr": [num(y.min()), num(y.max())],
            "p": [[num(x[p]), num(y[p]), num(z[p])] for p in points]}


def record(f, c, xlim, ylim):
    clear()
    try:
        if hasattr(f, "vars_assignments_names_dict"):
            f.plot(**({"figsize": (4, 3)} if c["lg"] else {}))
        else:
            kwargs = {"show_individual_components": True} if c["comps"] and hasattr(f, "components") else {}
            if xlim:
                kwargs["xlim"] = xlim
            if ylim:
                kwargs["ylim"] = ylim
            f.plot(log=c["lg"], **kwargs)
        axes = all_axes()
        return {"curves": [curve(line) for ax in axes for line in ax.lines], "bars": [b for ax in axes for b in bars(ax)],
                "areas": [area(*x) for x in contours]}
    finally:
        clear()


def gains(graph, legend):
    """The gains of the message paths, and the legend."""
    clear()
    try:
        graph.plot_next_messages_info_gain(legend_on=True) if legend else graph.plot_next_messages_info_gain()
        lines = [line for ax in all_axes() for line in ax.lines]
        boxes = [ax.get_legend() for ax in all_axes() if ax.get_legend() is not None]
        texts = [t.get_text() for box in boxes for t in box.get_texts()]
        return {"lines": [dict(curve(line, max(2, len(line.get_xdata()))), l=texts[i] if i < len(texts) else "") for i, line in enumerate(lines)],
                "texts": len(texts)}
    finally:
        clear()


def convergence(graph, log):
    """The distances: the curve, and the points that are marked as infinite."""
    clear()
    try:
        graph.plot_message_convergence(log=True) if log else graph.plot_message_convergence()
        lines, marked = [], []
        for ax in all_axes():
            for line in ax.lines:
                if matplotlib.colors.same_color(line.get_color(), "red"):
                    y = np.ma.asarray(line.get_ydata(), dtype=float)
                    on = ~np.ma.getmaskarray(y) & ~np.isnan(np.ma.filled(y, np.nan))
                    marked += [num(x) for x, b in zip(np.ravel(line.get_xdata()), on) if b]
                else:
                    lines.append(curve(line, max(2, len(line.get_xdata()))))
        return {"lines": lines, "marked": marked, "legend": any(ax.get_legend() is not None for ax in all_axes())}
    finally:
        clear()
