"""Stand-in for matplotlib.pyplot that records what is drawn."""
figures, saved = [], []
def reset():
    del figures[:], saved[:]
class Any:
    def __init__(self, **k): self.__dict__.update(k)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return lambda *a, **k: None
class Line(Any):
    def __init__(self, ax, xs, ys, fmt, kw): super().__init__(ax=ax, xs=list(xs), ys=list(ys), fmt=fmt, kw=dict(kw), label=kw.get("label"))
    def set_label(self, s): self.label = s
    def get_label(self): return self.label
    def set_color(self, c): self.kw["color"] = c
    def set_linestyle(self, c): self.kw["linestyle"] = c
class Axes(Any):
    def __init__(self, fig, *a): super().__init__(fig=fig, lines=[], bars=[], texts=[], labels={}, twins=[], ticks=[], ticklabels=[])
    def plot(self, *a, **k):
        out = []
        a = list(a)
        while a:
            xs, ys = a[0], a[1]; del a[:2]
            fmt = a.pop(0) if a and isinstance(a[0], str) else None
            out.append(Line(self, xs, ys, fmt, k))
        self.lines += out
        return out
    def bar(self, xs, ys, *a, **k):
        b = Line(self, xs, ys, None, k); self.bars.append(b); return b
    def errorbar(self, xs, ys, *a, **k):
        b = Line(self, xs, ys, None, k); self.bars.append(b); return b
    def text(self, x, y, s=None, **k): self.texts.append((x, y, s)); return Any()
    annotate = lambda self, s, xy, **k: self.texts.append((xy[0], xy[1], s))
    def twinx(self):
        t = Axes(self.fig); self.twins.append(t); self.fig.axes.append(t); return t
    def get_ylim(self): return (0.1, 100.0)
    def get_xlim(self): return (0.0, 100.0)
    def set_title(self, s, *a, **k): self.labels["title"] = s
    def set_xlabel(self, s, *a, **k): self.labels["x"] = s
    def set_ylabel(self, s, *a, **k): self.labels["y"] = s
    def set_xticks(self, v, labels=None, **k):
        self.ticks = list(v)
        if labels is not None: self.ticklabels = list(labels)
    def set_xticklabels(self, v, **k): self.ticklabels = list(v)
    def set(self, **k):
        for n, v in k.items(): getattr(self, "set_" + n)(v)
class Figure(Any):
    def __init__(self, *a, **k): super().__init__(axes=[]); figures.append(self)
    def add_subplot(self, *a, **k):
        x = Axes(self, *a); self.axes.append(x); return x
    def savefig(self, f, *a, **k): saved.append((f, self))
    def subplots(self, r=1, c=1, **k):
        xs = [self.add_subplot() for _ in range(r * c)]
        return xs[0] if len(xs) == 1 else xs
def figure(*a, **k): return Figure()
def subplots(r=1, c=1, **k):
    f = Figure(); return f, f.subplots(r, c)
def gcf(): return figures[-1]
def savefig(f, *a, **k): saved.append((f, figures[-1] if figures else None))
def __getattr__(n):
    if n.startswith("__"): raise AttributeError(n)
    return lambda *a, **k: Any()
