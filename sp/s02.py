"""The b-epsilon-tree machines: LinkedBetree over simple buffers, with its refinements to FilteredBetree, PivotBetree, PagedBetree and AbstractMap."""
import random
import mon, rt
from mon import judge
from rt import Seq, Set, Map, Some, NONE
ADDR = "spec__AsyncDisk_t__Address"
class Bad(Exception): pass
def memo(cls, *names):
    for n in names:
        f = getattr(cls, "__dict__", {}).get(n)
        if f is None: continue
        def g(*a, f=f, c={}):
            try: return c[a]
            except KeyError: pass
            except TypeError: return f(*a)
            if len(c) > 3000: c.clear()
            r = c[a] = f(*a)
            return r
        setattr(cls, n, g)
class B:
    KEYS = 5
    def __init__(s, repo, seed, report):
        s.rng = random.Random(seed); s.r = mon.Run(repo, s.rng); s.report = report
        g = s.g = s.r.w.G
        s.L, s.F, s.P, s.G, s.A = (s.r.m[n] for n in ("LinkedBetreeVars", "FilteredBetree", "PivotBetree", "PagedBetree", "AbstractMap"))
        lb = "betree__LinkedBetree_v__"
        s.LB, s.DV, s.NODE, s.TWO, s.SPL, s.PATH, s.QR, s.QL = (g[lb + n] for n in ("LinkedBetree", "DiskView", "BetreeNode", "TwoAddrs", "SplitAddrs", "Path", "QueryReceipt", "QueryReceiptLine"))
        s.BD = g["betree__BufferDisk_v__BufferDisk"]; s.SB = g["betree__Buffer_v__SimpleBuffer"]; s.MT = g["betree__Memtable_v__Memtable"]
        s.Addr = g[ADDR]; s.KM = g["abstract_system__MsgHistory_v__KeyedMessage"]; s.MH = g["abstract_system__MsgHistory_v__MsgHistory"]
        s.Key = g["spec__KeyType_t__Key"]; s.Def = g["spec__Messages_t__Message__Define"]; s.Val = g["spec__Messages_t__Value"]; s.Upd = g["spec__Messages_t__Message__Update"]; s.Delta = g["spec__Messages_t__Delta"]
        s.SL = g["betree__SplitRequest_v__SplitRequest__SplitLeaf"]; s.SI = g["betree__SplitRequest_v__SplitRequest__SplitIndex"]
        s.Stamped = g["abstract_system__StampedMap_v__Stamped"]
        s.keys = [s.Key(i) for i in range(s.KEYS)]
        s.univ = []
        rt.U.by["spec__KeyType_t__Key"] = s.keys
        rt.U.by[ADDR] = lambda: s.univ
        rt.U.by["#ints"] = lambda: s.window
        s.window = list(range(-1, 9))
        g["spec__AsyncDisk_t__page_count"] = lambda: 3
        g["spec__AsyncDisk_t__au_count"] = lambda: 60
        memo(s.DV, "m_wf", "m_valid_ranking")
        memo(s.LB, "m_acyclic", "m_the_ranking", "m_reachable_betree_addrs", "m_reachable_betree_addrs_using_ranking", "m_i", "m_inv", "m_reachable_buffer_addrs")
        for n in ("betree__FilteredBetree_v__BetreeNode", "betree__PivotBetree_v__BetreeNode", "betree__PagedBetree_v__BetreeNode"):
            for c in [g[n]] + [g[k] for k in g if k.startswith(n + "__")]: memo(c, "m_wf", "m_i")
        s.n = 0; s.stat = {}; s.seen = set(); s.samples = []
        # values that refined steps use
        s.up = {}
        def par(m, name, val): m.params[name] = lambda *a: s.up.get((m.name, name), [])
        for m in (s.F, s.P, s.G):
            for p in ("path", "request", "child_idx", "buffer_gc", "start", "end", "compacted_buffer", "receipt", "left_keys", "right_keys", "down_keys"): par(m, p, None)
    def judged(s): return s.stat.get("steps judged", 0)
    def count(s, k): s.stat[k] = s.stat.get(k, 0) + 1
    def note(s, t): s.count("why:" + t[:160])
    # ---- oracle
    def el(s, e): return 10 ** 9 if e._v == "Max" else e.e
    def route(s, node, key):
        p = [s.el(x) for x in node.pivots.pivots]
        if p != sorted(set(p)): raise Bad("pivots %r are not in order" % (p,))
        for i in range(len(p) - 1):
            if p[i] <= key._0 < p[i + 1]: return i
        raise Bad("key %r is outside the node's pivots %r" % (key, p))
    def chain(s, lb, key, top=None):
        """the nodes on the way to a key's leaf"""
        out, p, dom = [], lb.root if top is None else top, None
        while p._v == "Some":
            a = p._0
            if a not in lb.dv.entries.d: raise Bad("node %r is missing" % (a,))
            if a in out: raise Bad("cycle through %r" % (a,))
            n = lb.dv.entries.d[a]; out.append(a)
            pv = [s.el(x) for x in n.pivots.pivots]
            if dom is not None and (pv[0], pv[-1]) != dom: raise Bad("node %r covers [%s,%s), its parent says %r" % (a, pv[0], pv[-1], dom))
            i = s.route(n, key); dom = (pv[i], pv[i + 1]); p = n.children[i]
        return out
    def fold(s, msgs):
        """messages from the newest to the oldest"""
        for m in msgs:
            if m._v == "Define": return m.value._0
        return 0
    def messages(s, lb, key):
        out = []
        for a in s.chain(lb, key):
            n = lb.dv.entries.d[a]; i = s.route(n, key)
            for b in reversed(range(n.flushed.offsets[i], len(n.buffers.addrs))):
                x = n.buffers.addrs[b]
                if x not in lb.buffer_dv.entries.d: raise Bad("buffer %r of node %r is missing" % (x, a))
                m = lb.buffer_dv.entries.d[x].map.d.get(key)
                if m is not None: out.append(m)
        return out
    def tree(s, lb): return {k._0: s.fold(s.messages(lb, k)) for k in s.keys}
    def contents(s, st):
        out = {}
        for k in s.keys:
            m = st.memtable.buffer.map.d.get(k)
            out[k._0] = s.fold(([m] if m is not None else []) + s.messages(st.linked, k))
        return out
    def reach(s, lb):
        """(nodes, buffers) that can be reached"""
        ns, bs, todo = set(), set(), [lb.root]
        while todo:
            p = todo.pop()
            if p._v == "None" or p._0 in ns: continue
            ns.add(p._0); n = lb.dv.entries.d[p._0]
            todo += n.children; bs |= set(n.buffers.addrs)
        return ns, bs
    # ---- inputs
    def msg(s):
        s.n += 1
        return s.Def(value=s.Val(s.n)) if s.rng.random() < .7 else s.Upd(delta=s.Delta(s.rng.choice([0, s.n])))
    def puts(s, at, n): return s.MH(msgs=Map({at + i: s.KM(key=s.rng.choice(s.keys), message=s.msg()) for i in range(n)}), seq_start=at, seq_end=at + n)
    def fresh(s, lb, n, h=False):
        used = set(lb.dv.entries.d) | set(lb.buffer_dv.entries.d)
        free = [s.Addr(au=a, page=p) for a in range(20) for p in range(3)]
        out = s.rng.sample([a for a in free if a not in used], n)
        if h and used and s.rng.random() < .5: out[s.rng.randrange(n)] = s.rng.choice(sorted(used, key=repr))
        if h and n > 1 and s.rng.random() < .3: out[0] = out[1]
        return out
    def view(s, lb, h=False):
        """the same tree on a disk that has lost some garbage"""
        ns, bs = s.reach(lb); q = s.rng.choice([0, .3, .7])
        dv = {a: x for a, x in lb.dv.entries.d.items() if a in ns or s.rng.random() < q}
        while True:
            drop = [a for a, x in dv.items() if a not in ns and any(c._v == "Some" and c._0 not in dv for c in x.children)]
            if not drop: break
            for a in drop: del dv[a]
        bd = {a: x for a, x in lb.buffer_dv.entries.d.items() if a in bs or s.rng.random() < q}
        if h and s.rng.random() < .5 and bs: bd.pop(s.rng.choice(sorted(bs, key=repr)), None)
        elif h and s.rng.random() < .5 and ns:
            a = s.rng.choice(sorted(ns, key=repr)); dv.pop(a, None)
        return s.LB(root=lb.root, dv=s.DV(entries=Map(dv)), buffer_dv=s.BD(entries=Map(bd)))
    def see(s, *sts):
        u = set()
        for st in sts:
            lb = st.linked
            u |= set(lb.dv.entries.d) | set(lb.buffer_dv.entries.d)
            for n in lb.dv.entries.d.values():
                u |= set(n.buffers.addrs); u |= {c._0 for c in n.children if c._v == "Some"}
        s.univ = sorted(u, key=repr)
    def compacted(s, lb, node, a, b):
        """what compacting the buffers [a,b) of a node gives"""
        out = {}
        for k in s.keys:
            try: i = s.route(node, k)
            except Bad: continue
            fl = node.flushed.offsets[i]
            if fl > b: continue
            m = None; found = False
            for x in range(max(a, fl), b):
                e = lb.buffer_dv.entries.d[node.buffers.addrs[x]].map.d.get(k)
                if e is None: continue
                found = True
                if m is None or e._v == "Define": m = e
                elif m._v == "Update": m = e if e.delta._0 else m
            if found: out[k] = m
        return s.SB(map=Map(out))
    def receipt(s, lb, key):
        ch = s.chain(lb, key); res = 0; lines = []
        last = lb.dv.entries.d[ch[-1]] if ch else None
        end = last.children[s.route(last, key)] if last else lb.root
        out = [s.QL(linked=s.LB(root=end, dv=lb.dv, buffer_dv=lb.buffer_dv), result=s.Def(value=s.Val(0)))]
        for j in reversed(range(len(ch))):
            sub = s.LB(root=Some(ch[j]), dv=lb.dv, buffer_dv=lb.buffer_dv)
            out.insert(0, s.QL(linked=sub, result=s.Def(value=s.Val(s.fold(s.messages(sub, key))))))
        return s.QR(key=key, linked=lb, lines=Seq(out))
    # ---- steps
    def episode(s, n):
        st = s.L.State(memtable=s.MT(buffer=s.SB(map=Map({})), seq_end=0), linked=s.LB(root=NONE, dv=s.DV(entries=Map({})), buffer_dv=s.BD(entries=Map({}))))
        s.see(st)
        st = s.L.State(memtable=st.memtable, linked=st.linked)
        k = s.L.go("initialize", None, st)
        if not s.must("initialize", k, "an empty tree"): return
        st = k[1]
        if not s.began(st): return
        for i in range(40):
            st = s.step(st)
            if st is None: return
            s.count("states")
    def began(s, st): return True
    def must(s, what, k, why):
        if k[0] == "to": return True
        if k[0] == "?": s.count("proper:open"); s.note(what + " " + k[1])
        else: s.report("LinkedBetree.%s is not possible: %s" % (what, why[:1500]))
        return False
    def depth(s, lb, p=None):
        p = lb.root if p is None else p
        return 0 if p._v == "None" else 1 + max(s.depth(lb, c) for c in lb.dv.entries.d[p._0].children)
    def choose(s, st, h):
        """(transition, arguments, step arguments, proper)"""
        rng, lb, mt = s.rng, st.linked, st.memtable
        I = s.L.label("Internal")
        acts = ["put", "put", "query", "query", "freeze", "flushmem", "flushmem", "flushmem", "grow", "split", "split", "split", "flush", "flush", "flush", "flush", "compact", "compact", "noop", "buffernoop"]
        act = rng.choice(acts)
        if act == "put":
            p = s.puts(mt.seq_end + (rng.choice([-1, 1]) if h and mt.seq_end else 0), rng.choice([0, 1, 1, 2, 3]))
            return "put", [s.L.label("Put", puts=p)], p.seq_start == mt.seq_end
        if act == "query":
            k = rng.choice(s.keys); v = s.contents(st)[k._0]; r = s.receipt(lb, k); e = mt.seq_end; ok = True
            if h:
                q = rng.random(); ok = False
                if q < .25: v += 1
                elif q < .4: e += 1
                elif q < .6: k = rng.choice(s.keys); 
                elif len(r.lines) > 2 and q < .8:
                    ls = list(r.lines); del ls[rng.randrange(1, len(ls) - 1)]; r = s.QR(key=r.key, linked=lb, lines=Seq(ls))
                else:
                    ls = list(r.lines); j = rng.randrange(len(ls)); ls[j] = s.QL(linked=ls[j].linked, result=s.Def(value=s.Val(rng.randrange(s.n + 2)))); r = s.QR(key=r.key, linked=lb, lines=Seq(ls)); v = rng.choice([v, ls[0].result.value._0])
            return "query", [s.L.label("Query", end_lsn=e, key=k, value=s.Val(v)), r], ok
        if act == "freeze":
            v = lb; e = mt.seq_end
            if h: e = rng.choice([e, e + 1]); v = s.view(lb) if e == mt.seq_end else v
            return "freeze_as", [s.L.label("FreezeAs", stamped_betree=s.Stamped(value=v, seq_end=e))], not mt.buffer.map.d and not h
        if act == "flushmem":
            a = s.TWO(*s.fresh(lb, 2, h)); b = mt.buffer
            if h and b.map.d and rng.random() < .4: d = dict(b.map.d); d.pop(rng.choice(sorted(d, key=repr))); b = s.SB(map=Map(d))
            k = judge(lb.m_push_memtable, b, a)
            if k[0] == "?": s.note(k[1]); return None
            try: nl = s.view(k[1], h)
            except KeyError: nl = k[1]
            return "internal_flush_memtable", [I, b, nl, a], not h
        if act == "grow":
            if s.depth(lb) >= 3 and not h: return None
            a = s.fresh(lb, 1, h)[0]
            return "internal_grow", [I, a], not h
        if act == "noop": return "internal_noop", [I], True
        if act == "buffernoop": return "internal_buffer_noop", [I, s.view(lb, h)], not h
        if lb.root._v == "None": return None
        # a path
        k = rng.choice(s.keys); ch = s.chain(lb, k)
        idx = [j for j in range(len(ch)) if all(c._v == "Some" for x in ch[:j] for c in lb.dv.entries.d[x].children)]
        d = rng.choice(idx)
        wide = [j for j in idx if len(lb.dv.entries.d[ch[j]].children) > 1 and len(lb.dv.entries.d[ch[j]].buffers.addrs) > min(lb.dv.entries.d[ch[j]].flushed.offsets)]
        early = bool(wide) and rng.random() < .15    # collect buffers that some child has not received
        if early: act = "flush"; h = False; d = rng.choice(wide)
        node = lb.dv.entries.d[ch[d]]
        if h and rng.random() < .15: d += rng.choice([1, -1]); d = max(0, d)
        path = s.PATH(linked=lb, key=k, depth=d)
        if h and rng.random() < .1: path = s.PATH(linked=s.view(lb), key=k, depth=d)
        n2 = {"split": 3, "flush": 2, "compact": 2}[act]
        f = s.fresh(lb, n2 + d, h)
        na, pa = f[:n2], Seq(f[n2:])
        if h and rng.random() < .1: pa = Seq(list(pa) + [f[0]])
        sub = s.LB(root=Some(ch[min(d, len(ch) - 1)]), dv=lb.dv, buffer_dv=lb.buffer_dv)
        if act == "split":
            ok = not h; ci = rng.randrange(len(node.children)); c = node.children[ci]
            kid = lb.dv.entries.d.get(c._0) if c._v == "Some" else None
            leaf = kid is not None and len(kid.children) == 1 and kid.children[0]._v == "None"
            if kid is None or leaf and tuple(kid.flushed.offsets) != (0,): ok = False
            if leaf:
                pv = [s.el(x) for x in kid.pivots.pivots]; lo, hi = pv[0], pv[-1]
                can = [x for x in s.keys if lo < x._0 < hi]
                if not can: ok = False
                kk = rng.choice(can or s.keys)
                if h and rng.random() < .5: kk = rng.choice(s.keys); ok = False
                req = s.SL(child_idx=ci, split_key=kk)
            else:
                n = len(kid.children) if kid is not None else 1
                if n < 2: ok = False
                if kid is not None and not all(x._v == "Some" for x in kid.children): ok = False
                pi = rng.randrange(1, n) if n > 1 else 1
                if h and rng.random() < .5: pi = rng.choice([0, n]); ok = False
                req = s.SI(child_idx=ci, child_pivot_idx=pi)
            if h and rng.random() < .15: req = s.SI(child_idx=ci + rng.randrange(2), child_pivot_idx=rng.randrange(3))
            if not ok and not h: return None
            a = s.SPL(left=na[0], right=na[1], parent=na[2])
            k2 = judge(s.L.State.m_post_split, path, req, a, pa)
            rest = lambda nl: [I, nl, path, req, a, pa]
        elif act == "flush":
            kids = [j for j, c in enumerate(node.children) if c._v == "Some"]
            if not kids and not h: return None
            ci = rng.choice(kids) if kids else 0
            if h and rng.random() < .3: ci = rng.randrange(len(node.children) + 1)
            fl = list(node.flushed.offsets)
            if ci < len(fl): fl[ci] = len(node.buffers.addrs)
            if early and min(fl) >= len(node.buffers.addrs): early = False
            gc = rng.randrange(min(fl) + 1, len(node.buffers.addrs) + 1) if early else rng.randrange(0, min(fl) + 1)
            if h and rng.random() < .6: gc = min(fl) + 1
            a = s.TWO(*na)
            s.lax = gc > min(fl); rt.LAX[0] = s.lax
            k2 = judge(s.L.State.m_post_flush, path, ci, gc, a, pa)
            rest = lambda nl: [I, nl, path, ci, gc, a, pa]
        else:
            nb = len(node.buffers.addrs)
            if nb == 0: return None
            x = rng.randrange(nb); y = rng.randrange(x + 1, nb + 1)
            if h and rng.random() < .2: y = rng.choice([x, nb + 1])
            try: cb = s.compacted(lb, node, x, y)
            except IndexError: cb = s.SB(map=Map({}))
            except rt.Unjudged: cb = s.SB(map=Map({}))
            if h and rng.random() < .6:
                dd = dict(cb.map.d); kk = rng.choice(s.keys)
                if kk in dd and rng.random() < .5: del dd[kk]
                else: dd[kk] = s.msg()
                cb = s.SB(map=Map(dd))
            a = s.TWO(*na)
            k2 = judge(s.L.State.m_post_compact, path, x, y, cb, a, pa)
            rest = lambda nl: [I, nl, path, x, y, cb, a, pa]
        if k2[0] == "?":
            if not h: s.note("post of %s: %s" % (act, k2[1]))
            return None
        try: nl = s.view(k2[1], h and rng.random() < .4)
        except (KeyError, AttributeError): nl = k2[1]
        return "internal_" + act, rest(nl), not h and not early
    def step(s, st):
        s.lax = False
        try: return s.step1(st)
        finally: rt.LAX[0] = False
    def step1(s, st):
        h = s.rng.random() < .3
        s.see(st)
        c = s.choose(st, h)
        if c is None: return st
        t, args, proper = c
        show = "LinkedBetree.%s%r from %r" % (t, tuple(args), st)
        was = s.contents(st)
        extra = [x for x in args if x.__class__ is s.LB]
        s.see(st, *[s.L.State(memtable=st.memtable, linked=x) for x in extra])
        for f in ("addr1", "addr2", "left", "right", "parent"):
            for x in args:
                if hasattr(x, f): s.univ.append(getattr(x, f))
        s.univ = sorted(set(s.univ), key=repr)
        k = s.L.go(t, st, *args)
        if proper and not s.must(t, k, show): return None
        if k[0] == "broken": s.report("an assertion fails in " + show); return None
        if k[0] == "?": s.count("hostile:open"); return st
        if k[0] == "no": s.count("hostile:refused"); (s.count("hostile:early collection refused") if s.lax else None); return st
        post = k[1]
        if s.lax: s.count("hostile:early collection taken")
        # steps on addresses in use are excluded by the layer above
        step = s.L.Step.get(t)
        if step is not None:
            try: k = judge(st.m_strong_step, step(*args[1:]))
            except TypeError: k = ("?", "step")
            if k[0] == "?" or k[1] is not True:
                if proper and k[0] == "is": s.report("strong_step refuses %s" % show); return None
                if proper: s.note("strong_step of %s: %s" % (t, k[1]))
                else: s.count("hostile:not strong"); return st
        if not proper: s.count("hostile:taken")
        s.count("step:" + t); s.count("depth:%d" % s.depth(st.linked))
        if t == "internal_split": s.count("split:" + args[3]._v)
        s.see(st, post)
        try: s.seen.add(hash((t, post)))
        except TypeError: pass
        if len(s.seen) in (8, 90) and len(s.samples) < 6: s.samples.append("%s -> %s" % (t, repr(post)[:300]))
        try: now = s.contents(post)
        except Bad as x: s.report("LinkedBetree.%s leaves a damaged tree: %s; %s" % (t, x, show)); return None
        except (rt.Unjudged, KeyError, AttributeError) as x: s.report("LinkedBetree.%s leaves a tree that cannot be read (%r); %s" % (t, x, show)); return None
        x = s.expect(t, args, st, post, was, now)
        if x: s.report("LinkedBetree.%s: %s; %s" % (t, x, show)); return None
        s.count("steps judged")
        k = judge(post.m_inv)
        if k[0] == "is" and k[1] is not True: s.report("LinkedBetree.%s does not keep the invariant; %s" % (t, show)); return None
        s.count("spec:" + ("judged" if k[0] == "is" else "open"))
        if k[0] == "?": s.note("inv " + k[1])
        k = s.refine(t, args, st, post, now, show, proper)
        return st if k == "undo" else post if k else None
    def expect(s, t, args, st, post, was, now):
        if t == "put":
            p = args[0].puts; want = dict(was)
            if p.seq_start != st.memtable.seq_end: return "messages from %s put at %s" % (p.seq_start, st.memtable.seq_end)
            for l in range(p.seq_start, p.seq_end):
                m = p.msgs.d[l]
                if m.message._v == "Define": want[m.key._0] = m.message.value._0
            if post.memtable.seq_end != p.seq_end: return "the memtable ends at %s after %r" % (post.memtable.seq_end, p)
            if post.linked != st.linked: return "the put changed the tree"
            return None if now == want else "the contents are %r, not %r" % (now, want)
        if post.memtable.seq_end != st.memtable.seq_end: return "the end went from %s to %s" % (st.memtable.seq_end, post.memtable.seq_end)
        if now != was: return "the contents went from %r to %r" % (was, now)
        if t == "query":
            l = args[0]
            if l.end_lsn != st.memtable.seq_end: return "answered for the end %s at %s" % (l.end_lsn, st.memtable.seq_end)
            if l.value._0 != was[l.key._0]: return "answered %r for %r, the contents are %r" % (l.value, l.key, was)
        if t == "freeze_as":
            z = args[0].stamped_betree
            if z.seq_end != st.memtable.seq_end: return "froze the end %s at %s" % (z.seq_end, st.memtable.seq_end)
            if s.tree(z.value) != was: return "froze %r, the contents are %r" % (s.tree(z.value), was)
        if t in ("query", "freeze_as", "internal_noop") and post != st: return "the state changed"
        E0, E1 = st.linked, post.linked
        for a, b in ((E0.dv.entries.d, E1.dv.entries.d), (E0.buffer_dv.entries.d, E1.buffer_dv.entries.d)):
            for x in b:
                if x in a and a[x] != b[x]: return "the page %r was overwritten" % (x,)
        nl = dict(zip(s.L.names(t), args)).get("new_linked")
        if nl is not None and post.linked != nl: return "the tree is not the one the step leads to"
        if t == "internal_flush_memtable" and post.memtable.buffer.map.d: return "the memtable keeps %r" % (post.memtable.buffer,)
        return None
    # ---- refinement
    def refine(s, t, args, st, post, now, show, proper):
        low, a, b, l = "LinkedBetree." + t, st, post, args[0]
        names = s.L.names(t); arg = dict(zip(names, args)); s.up = up = {}
        for m, src in ((s.F, s.L), (s.P, s.F), (s.G, s.P), (s.A, s.G)):
            x, y, lb = judge(a.m_i), judge(b.m_i), judge(l.m_i)
            for p in ("path", "receipt"):
                if p in arg and hasattr(arg[p], "m_i"):
                    k = judge(arg[p].m_i)
                    if k[0] == "is": up[(m.name, p)] = [k[1]]
                    elif x[0] == "is": x = ("?", p + " " + k[1])
            if "?" in (x[0], y[0], lb[0]): s.count("refine:open"); s.note("%s to %s: %s" % (t, m.name, [z[1] for z in (x, y, lb) if z[0] == "?"])); return True
            for p in ("request", "child_idx", "buffer_gc", "start", "end", "compacted_buffer"):
                if p in arg: up[(m.name, p)] = [arg[p]]
            if m is s.G:
                if t == "internal_split":
                    k = judge(lambda: arg["path"].m_target().m_split_keys(arg["request"]))
                    if k[0] == "is": up[(m.name, "left_keys")] = [k[1][0]]; up[(m.name, "right_keys")] = [k[1][1]]
                if t == "internal_flush":
                    k = judge(lambda: arg["path"].m_target().m_child_domain(arg["child_idx"]).m_key_set())
                    if k[0] == "is": up[(m.name, "down_keys")] = [k[1]]
            k = judge(m.next, x[1], y[1], lb[1])
            if k[0] == "?": s.count("refine:open"); s.note("%s to %s: %s" % (t, m.name, k[1])); return True
            if k[1] is None: s.report("%s: the step is no step of %s: %s -> %s under %s; %s" % (low, m.name, repr(x[1])[:400], repr(y[1])[:400], repr(lb[1])[:200], show)); return False
            s.count("refined:" + m.name)
            for p in ("path", "receipt"):
                if p in arg and (m.name, p) in up: arg[p] = up[(m.name, p)][0]
            a, b, l = x[1], y[1], lb[1]
        got = {k._0: v.value._0 for k, v in b.stamped_map.value._0.d.items()}
        if got != now or b.stamped_map.seq_end != post.memtable.seq_end: s.report("%s: the abstract map is %r up to %s, the tree holds %r up to %s; %s" % (low, got, b.stamped_map.seq_end, now, post.memtable.seq_end, show)); return False
        s.count("abstract maps compared")
        return True
def make(repo, seed, report): return B(repo, seed, report)
if __name__ == "__main__":
    import sys, time
    def rep(m): print("VIOL", m[:3000]); sys.exit(1)
    t = time.time(); j = make(sys.argv[1], int(sys.argv[2]), rep); n = 0
    print("load", time.time() - t)
    while time.time() - t < float(sys.argv[3]): j.episode(n); n += 1
    for k, v in sorted(j.stat.items()): print(v, k)
    print(n, "episodes")
