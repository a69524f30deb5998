"""Stand-in for numpy: the few functions the plot scripts use."""
import math
def mean(v, *a, **k): v = list(v); return math.fsum(v) / len(v)
average = mean
def median(v, *a, **k):
    v = sorted(v); n = len(v)
    return float(v[n // 2]) if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2.0
def var(v, ddof=0, *a, **k): v = list(v); m = mean(v); return math.fsum((x - m) ** 2 for x in v) / float(len(v) - ddof)
def std(v, ddof=0, *a, **k): return math.sqrt(var(v, ddof))
def sum(v, *a, **k):
    t = 0
    for x in v: t += x
    return t
def max(v, *a, **k): return sorted(v)[-1]
def min(v, *a, **k): return sorted(v)[0]
def array(v, *a, **k): return list(v)
def arange(*a): return list(range(*a))
def sort(v): return sorted(v)
def log10(x): return math.log10(x)
