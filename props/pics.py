"""Reading pictures back from matplotlib figures."""
import re

import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import matplotlib.dates as mdates
from matplotlib.collections import QuadMesh
from matplotlib.colors import LogNorm
from vlib import fx, NNAN

plt.rcParams["figure.max_open_warning"] = 0
BASE = np.datetime64("2020-01-01", "ns")
DAY0 = 18262                                             # 2020-01-01 in matplotlib's days


def minutes(days):
    return (np.asarray(days, float) - DAY0) * 1440


def grid(a, unit):
    """What a mesh shows, Nan where it shows nothing."""
    a = np.ma.masked_invalid(np.ma.asarray(a, float))
    return [[NNAN if np.ma.is_masked(v) else fx(v, unit) for v in row] for row in a]


def edges(mesh, xmap, yunit=1.):
    """Edges of the cells in 1/100 of minutes (or numbers) and of heights."""
    c = np.asarray(mesh.get_coordinates(), float)
    same = np.allclose(c[:, :, 0], c[:1, :, 0], rtol=1e-12) and np.allclose(c[:, :, 1], c[:, :1, 1], rtol=1e-9)
    return [fx(v, .01) for v in xmap(c[0, :, 0])] if same else [], [fx(v * yunit, .01) for v in c[:, 0, 1]]


def bars(fig):
    """Axes of colour bars."""
    return [a for a in fig.axes if hasattr(a, "_colorbar") or a.get_label() == "<colorbar>"]


def meshes(ax):
    return [c for c in ax.collections if isinstance(c, QuadMesh) and type(c).__name__ == "QuadMesh"]


def hatches(ax):
    return [c for c in ax.collections if c.get_hatch()]


def count(ax):
    return len(ax.collections) + len(ax.lines) + len(ax.patches) + len(ax.images)


def unit_of(label):
    m = re.findall(r"\[(.*)\]", label or "")
    return m[-1].replace("$", "").replace("{", "").replace("}", "") if m else ""


def class_of(label):
    m = re.search(r"_\{(?:[^{},]*, *)?(\w+)\}", label or "")
    return m.group(1) if m else ""


def is_log(norm):
    return isinstance(norm, LogNorm)
