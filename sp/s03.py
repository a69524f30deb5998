"""Reference counts of the tree: LikesBetree (pages) and AllocationBetree (allocation units) in step with LinkedBetree."""
import s02, rt
from mon import judge
from rt import Multiset, Map
def ms(xs):
    d = {}
    for x in xs: d[x] = d.get(x, 0) + 1
    return Multiset(d)
def n_in(v): return v is not None
class B3(s02.B):
    def __init__(s, repo, seed, report):
        super().__init__(repo, seed, report)
        s.lk, s.al = s.r.m["LikesBetree"], s.r.m["AllocationBetree"]
        s.memo_i = {}
    def refs(s, lb):
        """how often each node and each buffer is referred to"""
        ns, bs, todo = [], [], [lb.root]
        while todo:
            p = todo.pop()
            if p._v == "None": continue
            if len(ns) > 200: raise s02.Bad("more references than nodes")
            ns.append(p._0); n = lb.dv.entries.d[p._0]
            todo += list(n.children); bs += list(n.buffers.addrs)
        return ms(ns), ms(bs)
    def view(s, lb, h=False):
        """the same tree on a disk that has lost allocation units, which nothing uses"""
        if h: return super().view(lb, h)
        ns, bs = s.reach(lb); q = s.rng.choice([0, .3, .7])
        def lose(d, live):
            au = {a.au for a in live}; kept = {a: x for a, x in d.items() if a.au in au}
            for u in sorted({a.au for a in d} - au):
                if s.rng.random() < q: kept.update({a: x for a, x in d.items() if a.au == u})
            return kept
        dv = lose(lb.dv.entries.d, ns)
        while True:
            more = {c._0 for x in dv.values() for c in x.children if c._v == "Some"} - set(dv)
            if not more: break
            au = {a.au for a in more}
            dv.update({a: x for a, x in lb.dv.entries.d.items() if a.au in au})
        return s.LB(root=lb.root, dv=s.DV(entries=Map(dv)), buffer_dv=s.BD(entries=Map(lose(lb.buffer_dv.entries.d, bs))))
    def began(s, st):
        s.x = {}
        for m in (s.lk, s.al):
            f = m.State._fields
            z = m.State(**{f[0]: st, f[1]: Multiset(), f[2]: Multiset()})
            k = m.go("initialize", None, z.betree)
            if k[0] == "?": s.note("%s initialize %s" % (m.name, k[1])); return False
            if k[0] != "to": s.report("%s cannot start from the empty tree" % m.name); return False
            s.x[m.name] = k[1]
            if not s.judge_likes(m, k[1], st, "initialize", "initialize"): return False
        return True
    def judge_likes(s, m, z, st, t, show):
        ns, bs = s.refs(st.linked)
        if m is s.al: ns, bs = (ms(a.au for a, n in x.d.items() for _ in range(n)) for x in (ns, bs))
        f = m.State._fields
        if z.betree != st: s.report("%s.%s leads to another tree than LinkedBetree; %s" % (m.name, t, show)); return False
        for g, want, what in ((f[1], ns, "nodes"), (f[2], bs, "buffers")):
            got = getattr(z, g)
            if got != want: s.report("%s.%s counts the references to %s as %r, there are %r; %s" % (m.name, t, what, got, want, show)); return False
        s.count("counts compared")
        k = judge(z.m_inv)
        if k[0] == "is" and k[1] is not True: s.report("%s.%s does not keep the invariant; %s" % (m.name, t, show)); return False
        if k[0] == "?": s.note("%s inv %s" % (m.name, k[1]))
        s.count("counts:" + ("judged" if k[0] == "is" else "open"))
        return True
    def refine(s, t, args, st, post, now, show, proper):
        arg = dict(zip(s.L.names(t), args)); lbl = args[0]
        nx = {}
        for m in (s.lk, s.al):
            u = t if t in m.T else {"internal_compact": "internal_compact_complete"}.get(t) if "internal_compact_complete" in m.T else None
            if u is None or u not in m.T: u = [n for n in m.T if n.endswith("likes_noop")][0]
            vals = {"lbl": m.label("Label", linked_lbl=lbl), "new_betree": post, **{k: v for k, v in arg.items() if k != "lbl"}}
            try: a = [vals[n] for n in m.names(u)]
            except KeyError as e: s.note("%s.%s takes %s" % (m.name, u, e)); return "undo"
            if u.endswith("likes_noop"):
                s.L.params = {n: (lambda *q, v=arg.get(n): [v] if n_in(v) else []) for q in s.L.T for n in s.L.names(q)}
            k = m.go(u, s.x[m.name], *a)
            if k[0] == "?": s.count("likes:open"); s.note("%s.%s %s" % (m.name, u, k[1])); return "undo"
            if k[0] == "broken": s.report("an assertion of %s.%s fails; %s" % (m.name, u, show)); return None
            if k[0] == "no":
                if proper: s.report("%s.%s is not possible; %s" % (m.name, u, show)); return None
                s.count("hostile:refused by " + m.name); return "undo"
            if not s.judge_likes(m, k[1], post, u, show): return None
            s.count("%s:%s" % (m.name, u)); nx[m.name] = k[1]
        if not t.endswith("noop") and t not in ("put", "query", "freeze_as"):
            z = nx[s.al.name]
            for was_, is_, au, what in ((st.linked.dv, post.linked.dv, z.betree_aus, "node"), (st.linked.buffer_dv, post.linked.buffer_dv, z.buffer_aus, "buffer")):
                for a in was_.entries.d:
                    if a.au in au.d and a not in is_.entries.d: s.report("AllocationBetree.%s loses the %s %r, whose unit is in use; %s" % (t, what, a, show)); return None
        s.x = nx
        s.count("most references:%d" % min(4, max([0] + list(nx[s.lk.name].buffer_likes.d.values()))))
        return True
def make(repo, seed, report): return B3(repo, seed, report)
if __name__ == "__main__":
    import sys, time
    def rep(m): print("VIOL", m[:3000]); sys.exit(1)
    t = time.time(); j = make(sys.argv[1], int(sys.argv[2]), rep); n = 0
    print("load", time.time() - t)
    while time.time() - t < float(sys.argv[3]): j.episode(n); n += 1
    for k, v in sorted(j.stat.items()): print(v, k)
    print(n, "episodes")
