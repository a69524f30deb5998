"""B+tree branches: LinkedBranch (pages on disk) in step with PivotBranch, and AllocationBranch (the allocation units a branch owns while it is built and sealed)."""
import random
import mon, rt
from mon import judge
from rt import Seq, Set, Map, Some, NONE
from s02 import memo, ADDR
LB = "betree__LinkedBranch_v__"; PB = "betree__PivotBranch_v__"; AB = "allocation_layer__AllocationBranch_v__"
PAGES, AUS, KEYS = 3, 10, 14
class Bad(Exception): pass
class T7:
    def __init__(s, repo, seed, report):
        s.rng = random.Random(seed); s.r = mon.Run(repo, s.rng); s.report = report
        g = s.g = s.r.w.G
        s.L, s.DV, s.PATH = (g[LB + n] for n in ("LinkedBranch", "DiskView", "Path"))
        s.LEAF, s.INDEX = g[LB + "Node__Leaf"], g[LB + "Node__Index"]
        s.SL, s.SI, s.PSL, s.PSI = g[LB + "SplitArg__SplitLeaf"], g[LB + "SplitArg__SplitIndex"], g[PB + "SplitArg__SplitLeaf"], g[PB + "SplitArg__SplitIndex"]
        s.PLEAF, s.PPATH = g[PB + "Node__Leaf"], g[PB + "Path"]
        s.A, s.E = g[AB + "AllocationBranch"], {n: g[AB + "BuildEvent__" + n] for n in ("Initialize", "Append", "Split", "AllocFill", "Seal")}
        s.BD = g["betree__BufferDisk_v__BufferDisk"]
        s.Key, s.Addr = g["spec__KeyType_t__Key"], g[ADDR]
        s.Def, s.Upd, s.Val, s.Delta = g["spec__Messages_t__Message__Define"], g["spec__Messages_t__Message__Update"], g["spec__Messages_t__Value"], g["spec__Messages_t__Delta"]
        s.nop = s.Upd(delta=s.Delta(0))
        s.keys = [s.Key(i) for i in range(KEYS)]
        g["spec__AsyncDisk_t__page_count"] = lambda: PAGES
        g["spec__AsyncDisk_t__au_count"] = lambda: 60
        s.pool = 0
        rt.U.by["spec__KeyType_t__Key"] = s.keys
        s.univ = [s.Addr(au=a, page=p) for a in range(2 * AUS + 1) for p in range(PAGES)]
        rt.U.by[ADDR] = lambda: s.univ
        ints = list(range(-1, 22)); rt.U.by["#ints"] = lambda: ints
        memo(s.DV, "m_wf", "m_valid_ranking")
        memo(s.L, "m_acyclic", "m_the_ranking", "m_all_keys", "m_valid_ranking", "m_i", "m_inv", "m_wf", "m_reachable_addrs_using_ranking")
        for c in [g[PB + "Node"]] + [g[k] for k in list(g) if k.startswith(PB + "Node__")]: memo(c, "m_wf", "m_i", "m_all_keys")
        s.n = 0; s.stat = {}; s.seen = set(); s.samples = []; s.sealed = {}
    def judged(s): return s.stat.get("steps judged", 0)
    def count(s, k): s.stat[k] = s.stat.get(k, 0) + 1
    def note(s, t): s.count("why:" + t[:160])
    # ---- oracle
    def walk(s, lb, sealed=False):
        """(contents, pages) of the tree, or Bad"""
        d = lb.disk_view.entries.d; out, pages = {}, []
        def go(a, lo, hi, top):
            if a not in d: raise Bad("page %r is missing" % (a,))
            if a in pages: raise Bad("page %r is used twice" % (a,))
            pages.append(a); n = d[a]
            if n._v == "Leaf":
                k = [x._0 for x in n.keys]
                if not k: raise Bad("empty leaf %r" % (a,))
                if len(k) != len(n.msgs): raise Bad("leaf %r has %d keys and %d messages" % (a, len(k), len(n.msgs)))
                if k != sorted(set(k)): raise Bad("keys of leaf %r are not in order: %r" % (a, k))
                if not (lo <= k[0] and k[-1] < hi): raise Bad("leaf %r has the keys %r, outside [%r,%r)" % (a, k, lo, hi))
                out.update(zip(k, n.msgs))
            elif n._v == "Index":
                p = [x._0 for x in n.pivots]
                if len(p) != len(n.children) - 1: raise Bad("node %r has %d pivots for %d children" % (a, len(p), len(n.children)))
                if p != sorted(set(p)): raise Bad("pivots of node %r are not in order: %r" % (a, p))
                if p and not (lo <= p[0] and p[-1] < hi): raise Bad("node %r has the pivots %r, outside [%r,%r)" % (a, p, lo, hi))
                e = [lo] + p + [hi]
                for i, c in enumerate(n.children): go(c, e[i], e[i + 1], False)
                if top and sealed:
                    if n.aux_ptr._v != "Some" or n.aux_ptr._0 not in d or d[n.aux_ptr._0]._v != "Auxiliary": raise Bad("the root of the sealed branch has no summary")
                    if n.aux_ptr._0 in pages: raise Bad("the summary is in the tree")
                    pages.append(n.aux_ptr._0)
            else: raise Bad("page %r of the tree is a summary" % (a,))
        go(lb.root, -10 ** 9, 10 ** 9, True)
        if set(pages) != set(d): raise Bad("pages %r are not part of the tree" % (sorted(set(d) - set(pages), key=repr),))
        return out, pages
    def nodes(s, lb):
        """(address, node, depth, lo, hi) of every node"""
        d = lb.disk_view.entries.d; out = []
        def go(a, k, lo, hi):
            n = d[a]; out.append((a, n, k, lo, hi))
            if n._v == "Index":
                e = [lo] + [x._0 for x in n.pivots] + [hi]
                for i, c in enumerate(n.children): go(c, k + 1, e[i], e[i + 1])
        go(lb.root, 0, -10 ** 9, 10 ** 9)
        return out
    # ---- values
    def msg(s):
        s.n += 1; q = s.rng.random()
        return s.Def(value=s.Val(s.n)) if q < .7 else s.Upd(delta=s.Delta(s.n)) if q < .9 else s.nop
    def run(s, lo, hi, n):
        """strictly sorted keys in [lo, hi)"""
        c = [k for k in s.keys if lo <= k._0 < hi]
        k = sorted(s.rng.sample(c, min(n, len(c))), key=lambda x: x._0)
        return Seq(k), Seq(s.msg() for _ in k)
    def free(s, ab):
        return [s.Addr(au=u, page=p) for u, x in ab.mini_allocator.allocs.d.items() for p in range(PAGES) if s.Addr(au=u, page=p) not in x.reserved.s and s.Addr(au=u, page=p) not in x.observed.s]
    def addr(s, ab, h=False):
        f = s.free(ab)
        if h and s.rng.random() < .7:
            q = s.rng.random(); used = [a for x in ab.mini_allocator.allocs.d.values() for a in x.reserved.s]
            if q < .5 and used: return s.rng.choice(sorted(used, key=repr))
            if q < .8: return s.Addr(au=s.pool + AUS - 1, page=s.rng.randrange(PAGES))
            return s.Addr(au=s.rng.choice(sorted(ab.mini_allocator.allocs.d) or [0]), page=PAGES + s.rng.randrange(2))
        return s.rng.choice(f) if f else None
    def path(s, lb, key, depth): return s.PATH(branch=lb, key=key, depth=depth)
    # ---- an episode
    def episode(s, n):
        s.pool = AUS * (n % 2); rng = s.rng
        own = set(rng.sample(range(s.pool, s.pool + AUS - 1), rng.randrange(0, 4)))
        k = judge(s.A.m_new, Set(own))
        if k[0] != "is": s.note("new " + k[1]); return
        ab, pv, model = k[1], None, {}
        if not s.owner(ab, own, "AllocationBranch.new", {}): return
        for i in range(45):
            z = s.step(ab, pv, model, own)
            if z is None: return
            ab, pv, model, own = z
            if i == 40 or ab.sealed and rng.random() < .3: break
        if ab.branch._v == "Some" and not ab.sealed:
            z = s.step(ab, pv, model, own, "seal")
            if z is None: return
            ab = z[0]
        if ab.sealed: s.sealed[s.pool] = ab.branch._0.disk_view.entries.d
    def step(s, ab, pv, model, own, act=None):
        rng = s.rng; h = act is None and rng.random() < .35; same = (ab, pv, model, own)
        if ab.branch._v == "None":
            act = act or rng.choice(["fill", "initialize", "initialize", "initialize", "fill"] + (["append", "seal"] if h else []))
        else:
            act = act or rng.choice(["append"] * 3 + ["insert"] * 3 + ["split"] * 6 + ["grow"] * 2 + ["fill"] * 2 + (["seal", "initialize"] if h else ["seal"] if rng.random() < .15 else ["insert"]))
            if ab.sealed: h = True
        lb = ab.branch._0 if ab.branch._v == "Some" else None
        f = getattr(s, "c_" + act)(ab, lb, h, own)
        if f is None: return same
        # event, allocs, deallocs, linked guard, linked effect, pivot effect, whole effect, changes, proper
        ev, al, de, guard, eff, pe, whole, new, may, proper = f
        if ab.sealed: proper = False
        show = "%s%r%s from %r" % (act, ev if ev is not None else may, " with units %r, returning %r" % (al, de) if al or de else "", ab)
        # the branch alone
        linked = None
        if guard is not None and not ab.sealed:
            k = judge(guard)
            if k[0] == "?": s.note("can_%s %s" % (act, k[1])); s.count("hostile:open" if not proper else "unjudged"); linked = None
            elif k[1] is True:
                k = judge(eff)
                if k[0] == "?":
                    s.note("%s %s" % (act, k[1])); s.count("unjudged" if proper else "hostile:open")
                else: linked = k[1]
            elif proper: s.report("LinkedBranch.can_%s refuses %s" % (act, show)); return None
            else: s.count("hostile:refused")
            if linked is not None:
                if not s.tree(act, lb, linked, {**model, **new}, may, show): return None
                if not proper: s.count("hostile:taken")
                s.count("linked:" + act)
        # with its units
        post = None
        if ev is not None:
            k = judge(whole)
            if k[0] == "is":
                p = k[1]; k = judge(s.A.m_build_next, ab, p, ev, Set(al), Set(de))
                if k[0] == "is" and k[1] is True: post = p
                elif k[0] == "is" and proper: s.report("AllocationBranch does not allow %s" % show); return None
                elif k[0] == "is": s.count("hostile:refused")
            if k[0] == "?": s.note("build %s %s" % (act, k[1])); s.count("unjudged" if proper else "hostile:open")
        elif linked is not None and proper:
            # inserting and growing are no building steps yet: the units follow by hand
            ma = ab.mini_allocator
            if act == "grow":
                k = judge(ma.m_allocate, linked.root)
                if k[0] == "?": s.note("allocate " + k[1]); return same
                ma = k[1]
            post = s.A(sealed=False, branch=Some(linked), mini_allocator=ma)
        if post is None: return same
        if ev is not None and not proper: s.count("hostile:taken")
        if ab.sealed: s.report("a sealed branch is changed: %s" % show); return None
        if al & own: s.report("units %r are given to a branch that has them: %s" % (al & own, show)); return None
        if de - own: s.report("units %r are returned by a branch that does not have them: %s" % (de - own, show)); return None
        own2 = (own | al) - de; m2 = {**model, **new}
        if post.branch._v == "Some":
            if lb is None or act in ("append", "split", "initialize") and linked is None:
                if not s.tree("AllocationBranch." + act, lb, post.branch._0, m2, may, show): return None
            elif linked is not None and post.branch._0 != linked: s.report("AllocationBranch.%s leads to another tree than LinkedBranch.%s: %r; %s" % (act, act, post.branch._0, show)); return None
            elif act == "fill" and post.branch._0 != lb: s.report("filling the allocator changes the tree: %s" % show); return None
        elif lb is not None: s.report("the tree is lost: %s" % show); return None
        if not s.owner(post, own2, act, m2, show): return None
        if ev is not None: s.count("built:" + act)
        if post.sealed:
            if not s.use(post, m2, show): return None
        pv2 = pv
        if act == "initialize": pv2 = s.PLEAF(keys=ev.keys, msgs=ev.msgs)
        elif pe is not None and pv is not None:
            k = judge(pe, pv)
            if k[0] == "?": s.note("PivotBranch %s %s" % (act, k[1])); return None
            pv2 = k[1]
            k = judge(pv2.m_wf)
            if k[0] == "is" and k[1] is not True: s.report("PivotBranch.%s: the tree is not well-formed: %r; %s" % (act, pv2, show)); return None
        if post.branch._v == "Some" and pv2 is not None and act not in ("fill",):
            k = judge(post.branch._0.m_i)
            if k[0] == "is":
                if k[1] != pv2: s.report("%s: the tree stands for %r, PivotBranch leads to %r; %s" % (act, k[1], pv2, show)); return None
                s.count("refined:PivotBranch")
            else: s.note("i %s" % k[1])
            k = judge(pv2.m_i)
            if k[0] == "is":
                got = {a._0: m for a, m in k[1].map.d.items()}
                if got != m2: s.report("PivotBranch.%s stands for %r, the contents are %r; %s" % (act, got, m2, show)); return None
                s.count("refined:SimpleBuffer")
            else: s.note("PivotBranch i %s" % k[1])
            for a in s.keys:
                k = judge(pv2.m_query, a)
                if k[0] == "is" and k[1] != m2.get(a._0, s.nop): s.report("PivotBranch: %r is answered with %r, it is %r; %s" % (a, k[1], m2.get(a._0), show)); return None
        s.seen.add(hash((act, repr(post))))
        if len(s.seen) in (5, 60, 400) and len(s.samples) < 6: s.samples.append("%s -> %s" % (act, repr(post)[:300]))
        s.count("depth:%d" % min(4, max([x[2] for x in s.nodes(post.branch._0)] + [0]) if post.branch._v == "Some" else 0))
        return post, pv2, m2, own2
    def tree(s, act, pre, post, model, may, show):
        """the tree after a step holds what it should, and other pages stay as they were"""
        try: got, pages = s.walk(post)
        except Bad as x: s.report("%s: %s; %s leads to %r" % (act, x, show, post)); return False
        if got != model: s.report("%s: the tree holds %r, not %r; %s" % (act, got, model, show)); return False
        was = pre.disk_view.entries.d if pre is not None else {}
        for a, n in was.items():
            if a not in post.disk_view.entries.d: s.report("%s: page %r is gone; %s" % (act, a, show)); return False
        if act == "grow" and post.root in was: s.report("grow: the new root is put on page %r, which is in use; %s" % (post.root, show)); return False
        diff = [a for a, n in post.disk_view.entries.d.items() if was.get(a) != n]
        if len([a for a in diff if a not in was]) > (act in ("grow", "split", "initialize", "AllocationBranch.initialize", "AllocationBranch.split")): s.report("%s: writes the new pages %r; %s" % (act, diff, show)); return False
        for k in s.keys:
            q = judge(post.m_query, k); want = model.get(k._0, s.nop)
            if q[0] == "?": s.note("query " + q[1]); break
            if q[1] != want: s.report("%s: query %r answers %r, it is %r; %s" % (act, k, q[1], want, show)); return False
        for f in ("m_inv", "m_tight_disk_view"):
            if not hasattr(post, f): continue
            q = judge(getattr(post, f))
            if q[0] == "is" and q[1] is not True: s.report("%s does not keep %s; %s" % (act, f[2:], show)); return False
            if q[0] == "?": s.note("%s %s" % (f, q[1]))
            s.count("spec:" + ("judged" if q[0] == "is" else "open"))
        s.count("steps judged")
        return True
    def owner(s, ab, own, act, model, show=""):
        """the units: the branch has those it was given, its pages are the reserved ones"""
        al = ab.mini_allocator.allocs.d
        if set(al) != own: s.report("%s: the branch has the units %r, it was given %r; %s" % (act, sorted(al), sorted(own), show)); return False
        res = set()
        for u, x in al.items():
            if x.au != u or any(a.au != u or a.page >= PAGES for a in x.reserved.s): s.report("%s: unit %r is %r; %s" % (act, u, x, show)); return False
            res |= set(x.reserved.s)
        c = ab.mini_allocator.curr
        if c._v == "Some" and c._0 not in al: s.report("%s: allocates from unit %r, which the branch does not have; %s" % (act, c._0, show)); return False
        if ab.branch._v == "Some":
            lb = ab.branch._0
            try: got, pages = s.walk(lb, ab.sealed)
            except Bad as x: s.report("%s: %s; %s" % (act, x, show)); return False
            if got != model: s.report("%s: the tree holds %r, not %r; %s" % (act, got, model, show)); return False
            if set(pages) != res: s.report("%s: the pages of the tree are %r, reserved are %r; %s" % (act, sorted(pages, key=repr), sorted(res, key=repr), show)); return False
            if ab.sealed:
                aus = {a.au for a in pages}
                if aus != own: s.report("%s: the sealed branch keeps the units %r, its pages are in %r; %s" % (act, sorted(own), sorted(aus), show)); return False
                root = lb.disk_view.entries.d[lb.root]
                if root._v == "Index" and set(lb.disk_view.entries.d[root.aux_ptr._0]._0.s) != aus: s.report("%s: the summary says %r, the pages are in %r; %s" % (act, lb.disk_view.entries.d[root.aux_ptr._0], sorted(aus), show)); return False
                q = judge(lb.m_get_summary)
                if q[0] == "is" and set(q[1].s) != aus: s.report("%s: get_summary is %r, the pages are in %r; %s" % (act, q[1], sorted(aus), show)); return False
                s.count("sealed with a summary" if root._v == "Index" else "sealed leaf")
        elif res: s.report("%s: pages %r are reserved without a tree; %s" % (act, res, show)); return False
        q = judge(ab.m_inv)
        if q[0] == "is" and q[1] is not True: s.report("%s does not keep the invariant of AllocationBranch; %s leads to %r" % (act, show, ab)); return False
        if q[0] == "?": s.note("AllocationBranch inv " + q[1])
        s.count("spec:" + ("judged" if q[0] == "is" else "open"))
        return True
    def use(s, ab, model, show):
        """a sealed branch as a buffer among others"""
        lb = ab.branch._0; d = dict(s.sealed.get(AUS - s.pool, {})); d.update(lb.disk_view.entries.d)
        dv = s.BD(entries=Map(d)); root = d[lb.root]
        for k in s.keys:
            want = model.get(k._0, s.nop)
            q = judge(root.m_linked_query, dv, lb.root, k)
            if q[0] == "is" and q[1] != want: s.report("as a buffer the branch answers %r with %r, it is %r; %s" % (k, q[1], want, show)); return False
            if q[0] == "?": s.note("linked_query " + q[1])
            q = judge(root.m_linked_contains, dv, lb.root, k)
            if k._0 not in model and q == ("is", True): s.report("as a buffer the branch claims to contain %r, which it does not; %s" % (k, show)); return False
            if want != s.nop and q == ("is", False): s.report("as a buffer the branch denies to contain %r; %s" % (k, show)); return False
            if q[0] == "?": s.note("linked_contains " + q[1])
            else: s.count("buffer queries")
        q = judge(root.m_i, dv, lb.root)
        if q[0] == "is" and {a._0: m for a, m in q[1].map.d.items()} != model: s.report("as a buffer the branch stands for %r, it holds %r; %s" % (q[1], model, show)); return False
        s.count("buffers " + ("compared" if q[0] == "is" else "open"))
        return True
    # ---- what to do: (event, allocs, deallocs, guard, effect, pivot effect, whole effect, new contents, what, proper)
    def c_fill(s, ab, lb, h, own):
        rest = [u for u in range(s.pool, s.pool + AUS - 1) if u not in own]
        al = set(s.rng.sample(rest, min(len(rest), s.rng.randrange(0, 3)))); de = set()
        if h:
            if s.rng.random() < .6 and own: al.add(s.rng.choice(sorted(own)))
            elif own: de = {s.rng.choice(sorted(own))}
            else: h = False
        return (s.E["AllocFill"](), al, de, None, None, None, lambda: ab.m_mini_allocator_fill(Set(al)), {}, None, not h)
    def c_initialize(s, ab, lb, h, own):
        a = s.addr(ab, h)
        if a is None: return None
        ks, ms = s.run(0, KEYS, s.rng.randrange(1, 5)); al, de = set(), set()
        if h:
            q = s.rng.random()
            if q < .2: ks = Seq(reversed(ks))
            elif q < .3: ks, ms = Seq(), Seq()
            elif q < .4: ms = Seq(list(ms) + [s.msg()])
            elif q < .5: al = {s.pool + AUS - 1}
            elif q < .6 and own: de = {s.rng.choice(sorted(own))}
        proper = not h and lb is None
        return (s.E["Initialize"](addr=a, keys=ks, msgs=ms), al, de, None, None, None, lambda: ab.m_branch_initialize(a, ks, ms), {k._0: m for k, m in zip(ks, ms)}, None, proper)
    def other(s, lb):
        """the same tree with other messages"""
        d = {}
        for a, n in lb.disk_view.entries.d.items(): d[a] = s.LEAF(keys=n.keys, msgs=Seq(s.msg() for _ in n.msgs)) if n._v == "Leaf" else n
        return s.L(root=lb.root, disk_view=s.DV(entries=Map(d)))
    def c_insert(s, ab, lb, h, own):
        if lb is None: return None
        k, m = s.rng.choice(s.keys), s.msg()
        dep = [x[2] for x in s.nodes(lb) if x[1]._v == "Leaf" and x[3] <= k._0 < x[4]][0]
        pk, pb, d = k, lb, dep
        if h:
            q = s.rng.random()
            if q < .4: pk = s.rng.choice(s.keys)
            elif q < .7: d = max(0, dep + s.rng.choice([-1, 1]))
            else: pb = s.other(lb)
        p = s.path(pb, pk, d)
        return (None, set(), set(), lambda: lb.m_can_insert(k, m, p), lambda: lb.m_insert(k, m, p), lambda v: v.m_insert(k, m, s.PPATH(node=v, key=k, depth=dep)), None, {k._0: m}, (k, m, p), not h)
    def c_grow(s, ab, lb, h, own):
        if lb is None: return None
        a = s.addr(ab, h)
        if a is None: return None
        if h and a not in lb.disk_view.entries.d: return None
        if not h and max(x[2] for x in s.nodes(lb)) > 3: return None
        return (None, set(), set(), lambda: lb.m_can_grow(a), lambda: lb.m_grow(a), lambda v: v.m_grow(), None, {}, (a,), not h)
    def c_append(s, ab, lb, h, own):
        if lb is None:
            ks, ms = s.run(0, KEYS, 2)
            return (s.E["Append"](keys=ks, msgs=ms, path=s.path(s.L(root=s.univ[0], disk_view=s.DV(entries=Map({}))), ks[0], 0)), set(), set(), None, None, None, lambda: ab.m_branch_append(ks, ms, None), {}, None, False)
        c = [x for x in s.nodes(lb) if x[1]._v == "Leaf" and max(x[3], tuple(x[1].keys)[-1]._0 + 1) < min(x[4], KEYS)]
        if not c:
            if not h: return None
            c = [x for x in s.nodes(lb) if x[1]._v == "Leaf"]
        a, n, d, lo, hi = s.rng.choice(c); first = tuple(n.keys)[-1]._0 + 1
        ks, ms = s.run(first, min(hi, KEYS), s.rng.randrange(1, 4)); al, de = set(), set()
        pk, pb, dep = None, lb, d
        if h:
            q = s.rng.random()
            if q < .2: ks, ms = s.run(first, KEYS, 3)
            elif q < .35: ks, ms = s.run(max(0, first - 2), min(hi, KEYS), 3)
            elif q < .45: ks = Seq(reversed(ks))
            elif q < .55: ms = Seq(list(ms) + [s.msg()])
            elif q < .65: pk = s.rng.choice(s.keys)
            elif q < .75: dep = max(0, d + s.rng.choice([-1, 1]))
            elif q < .85: pb = s.other(lb)
            elif q < .92: al = {s.pool + AUS - 1}
            elif own: de = {s.rng.choice(sorted(own))}
        if not ks: return None
        p = s.path(pb, pk or ks[0], dep)
        w = lambda v: v.m_append(ks, ms, s.PPATH(node=v, key=ks[0], depth=d))
        if not h:
            x, y = judge(lb.m_append_via_insert, ks, ms, p), judge(lb.m_append, ks, ms, p)
            if x[0] == y[0] == "is":
                s.count("appends compared with inserts")
                if x[1] != y[1]: s.report("append leads to %r, inserting one by one to %r; %r from %r" % (y[1], x[1], (ks, ms, p), lb)); return None
            else: s.note("append_via_insert %s" % (x if x[0] == "?" else y)[1])
        g = (lambda: lb.m_can_append(ks, ms, p)) if not al and not de else None
        return (s.E["Append"](keys=ks, msgs=ms, path=p), al, de, g, lambda: lb.m_append(ks, ms, p), w, lambda: ab.m_branch_append(ks, ms, p), {k._0: m for k, m in zip(ks, ms)}, None, not h)
    def c_split(s, ab, lb, h, own):
        if lb is None: return None
        cs = []
        ns = s.nodes(lb)
        for a, n, d, lo, hi in ns:
            if n._v != "Index": continue
            for c in n.children:
                x = lb.disk_view.entries.d[c]
                if x._v == "Leaf" and len(x.keys) > 1:
                    i = s.rng.randrange(1, len(x.keys)); cs.append((d, s.Key(s.rng.randrange(x.keys[i - 1]._0 + 1, x.keys[i]._0 + 1)), None))
                elif x._v == "Index" and len(x.pivots) > 0:
                    i = s.rng.randrange(len(x.pivots)); cs.append((d, x.pivots[i], i))
        a = s.addr(ab, h)
        if a is None or not cs and not h: return None
        d, pv, i = s.rng.choice(cs) if cs else (0, s.rng.choice(s.keys), s.rng.choice([None, 0]))
        pk, pb, al, de = pv, lb, set(), set()
        if h:
            q = s.rng.random()
            if q < .15: pk = s.rng.choice(s.keys)
            elif q < .35: pk = pv = s.rng.choice(s.keys)
            elif q < .5 and i is not None: i = s.rng.choice([-1, i + 1, i - 1, 9])
            elif q < .6: i = 0 if i is None else None
            elif q < .7: d = max(0, d + s.rng.choice([-1, 1]))
            elif q < .8: pb = s.other(lb)
            elif q < .85: al = {s.pool + AUS - 1}
            elif q < .9 and own: de = {s.rng.choice(sorted(own))}
        arg = s.SL(pivot=pv) if i is None else s.SI(pivot=pv, pivot_index=i); parg = s.PSL(pivot=pv) if i is None else s.PSI(pivot=pv, pivot_index=i)
        p = s.path(pb, pk, d)
        g = (lambda: lb.m_can_split(a, p, arg)) if not al and not de and (not h or a in lb.disk_view.entries.d or a in s.free(ab)) else None
        if not h: s.count("split of " + ("a leaf" if i is None else "an index"))
        return (s.E["Split"](addr=a, path=p, split_arg=arg), al, de, g, lambda: lb.m_split(a, p, arg), lambda v: v.m_split(s.PPATH(node=v, key=pv, depth=d), parg), lambda: ab.m_branch_split(a, p, arg), {}, None, not h)
    def c_seal(s, ab, lb, h, own):
        al = ab.mini_allocator.allocs.d
        de = {u for u, x in al.items() if not x.reserved.s}
        idx = lb is not None and lb.disk_view.entries.d[lb.root]._v == "Index"
        ptr, give = NONE, set()
        if idx:
            f = [a for a in s.free(ab) if a.au not in de]
            if not f: return None
            ptr = Some(s.rng.choice(f))
        if h:
            q = s.rng.random()
            if q < .3: a = s.addr(ab, True); ptr = Some(a) if a is not None else NONE
            elif q < .45 and de and idx: u = s.rng.choice(sorted(de)); ptr = Some(s.Addr(au=u, page=0))
            elif q < .6 and de: de = set(list(sorted(de))[1:])
            elif q < .7 and own: de = de | {s.rng.choice(sorted(own))}
            elif q < .8 and idx: ptr = NONE
            elif q < .9: give = {s.pool + AUS - 1}
        return (s.E["Seal"](aux_ptr=ptr), give, de, None, None, None, lambda: ab.m_branch_seal(ptr, Set(de)), {}, None, not h and lb is not None)
def make(repo, seed, report): return T7(repo, seed, report)
if __name__ == "__main__":
    import sys, time
    def rep(m): print("VIOL", m[:3000]); sys.exit(1)
    t = time.time(); j = make(sys.argv[1], int(sys.argv[2]), rep); n = 0
    print("load", time.time() - t)
    while time.time() - t < float(sys.argv[3]): j.episode(n); n += 1
    for k, v in sorted(j.stat.items()): print(v, k)
    print(n, "episodes")
