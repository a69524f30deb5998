"""Runs the translated state machines and judges every step they take."""
import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, rt
from rt import Seq, Set, Map, Some, NONE, Unjudged, Disabled, Broken
sys.setrecursionlimit(6000)
SKIP = (Unjudged, RecursionError) + rt.BAD + (KeyError, IndexError, ZeroDivisionError, ValueError)
class M:
    """one state machine"""
    def __init__(s, w, path):
        s.w, s.path = w, path
        s.info = w.mods[path]["machine"]; s.name = s.info["name"]
        s.State, s.T, s.Step = s.info["State"], s.info["transitions"], s.info["Step"]
        lab = w.lookup(path, "Label"); lab = w.alias(lab)
        s.Label = {v: w.G[w.mang(lab[1], lab[2]) + "__" + v] for v, _ in w.mods[lab[1]]["items"][lab[2]][2]} if lab else {}
        s.lab = lab
        s.params = {}           # parameter -> function(pre, post, lbl) of candidates, for State::next
    def label(s, v, **kw):
        c = s.Label[v]; return c(**kw)
    def names(s, t): return [p for p, _ in s.T[t][1]]
    def go(s, t, pre, *a):
        """-> ("to", post) | ("no", why) | ("?", why) | ("broken", why)"""
        kind, ps, f, tn = s.T[t]
        try:
            r = f(*((pre,) if kind != "init" else ()), *a)
            return ("to", pre if kind == "readonly" else r)
        except Disabled: return ("no", "")
        except Broken as e: return ("broken", str(e))
        except SKIP as e: return ("?", "%s %s" % (type(e).__name__, e))
    def next(s, pre, post, lbl):
        """is there a step? the candidates come from params"""
        unj = None
        for t, (kind, ps, f, tn) in s.T.items():
            if kind != "transition": continue
            names = [p for p, _ in ps]; first = bool(ps) and names[0] in ("lbl", "label")
            def rec(i, acc):
                if i == len(names): yield acc; return
                for c in s.cand(names[i], pre, post, lbl, t, acc): yield from rec(i + 1, acc + [c])
            for a in rec(1 if first else 0, [lbl] if first else []):
                try:
                    if f(pre, *a) == post: return (t, a)
                except (Disabled, Broken): pass
                except SKIP as e: unj = "%s: %s %s" % (t, type(e).__name__, e)
        if unj: raise Unjudged("next of %s (%s)" % (s.name, unj))
        return None
    def starts(s, post):
        """is this an initial state?"""
        unj = None
        for t, (kind, ps, f, tn) in s.T.items():
            if kind != "init": continue
            if ps: unj = "%s has parameters" % t; continue
            try:
                if f() == post: return True
            except (Disabled, Broken): pass
            except SKIP as e: unj = "%s: %s %s" % (t, type(e).__name__, e)
        if unj: raise Unjudged("init of %s (%s)" % (s.name, unj))
        return False
    def cand(s, n, pre, post, lbl, t, acc):
        for k in ((t, n), n):
            if k in s.params: return list(s.params[k](pre, post, lbl, acc))
        raise Unjudged("no candidates for %s of %s" % (n, s.name))
class Run:
    def __init__(s, repo, rng, limit=None, dirs=()):
        s.w = gen.world(repo, gen.DIRS + tuple(dirs)); s.rng = rng
        s.m = {}
        for p, m in s.w.mods.items():
            if "machine" in m: k = M(s.w, p); s.m[k.name] = k
        s.byinfo = {id(k.info): k for k in s.m.values()}
        rt.U.by["#next"] = lambda info, pre, post, lbl: s.byinfo[id(info)].next(pre, post, lbl) is not None
        rt.U.by["#init"] = lambda info, post: s.byinfo[id(info)].starts(post)
        s.cls = {}
    def T(s, mod, name):
        """class of a type"""
        return s.w.G[mod + "__" + name]
    def fn(s, mod, name): return s.w.G[mod + "__" + name]
def judge(f, *a):
    """value of a specification, or the reason why it has none"""
    try: return ("is", f(*a))
    except SKIP as e: return ("?", "%s %s" % (type(e).__name__, str(e)[:120]))

def edges(dv, rec):
    """addresses a record of a disk view points to"""
    if hasattr(rec, "m_cropped_prior"):
        p = rec.m_cropped_prior(dv.boundary_lsn); return [p._0] if p._v == "Some" else []
    out = []
    def walk(x):
        if isinstance(x, rt.Option):
            if x._v == "Some": walk(x._0)
        elif x.__class__.__name__.endswith("Address"): out.append(x)
        elif isinstance(x, tuple):
            for y in x: walk(y)
    for f in ("children",):
        if hasattr(rec, f): walk(getattr(rec, f))
    return out
def ranking(dv):
    """ranks of the entries by the longest path below them; None with a cycle"""
    rank, busy = {}, set()
    def go(a):
        if a in rank: return rank[a]
        if a in busy: raise RecursionError
        busy.add(a); r = 0
        for b in edges(dv, dv.entries.d[a]):
            if b in dv.entries.d: r = max(r, go(b) + 1)
        busy.discard(a); rank[a] = r
        return r
    for a in dv.entries.d: go(a)
    return Map(rank)
def wit_ranking(recv, args, pos):
    dv = recv.dv if hasattr(recv, "dv") else recv.disk_view if hasattr(recv, "disk_view") else recv
    try: return [ranking(dv)]
    except RecursionError: return []
rt.U.wit["valid_ranking"] = wit_ranking
