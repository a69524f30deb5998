import sys, random, time
import mon, rt, journal
from journal import *
from mon import judge, SKIP
class J:
    """random steps of the journal machines under the rules of journal.expect"""
    def __init__(s, repo, seed, report):
        s.rng = random.Random(seed); s.r = mon.Run(repo, s.rng); s.e = Env(s.r); s.report = report
        g = s.r.w.G
        s.TJ = g["journal__LinkedJournal_v__TruncatedJournal"]; s.DV = g["journal__LinkedJournal_v__DiskView"]; s.REC = g["journal__LinkedJournal_v__JournalRecord"]
        s.L, s.P, s.A, s.K, s.AJ = (s.r.m[n] for n in ("LinkedJournal", "PagedJournal", "AbstractJournal", "LikesJournal", "AllocationJournal"))
        deps = lambda *a: range(0, 8)
        for m in (s.L, s.P, s.K, s.AJ): m.params["depth"] = deps
        new = lambda pre, post: [a for a in post.truncated_journal.disk_view.entries.d if a not in pre.truncated_journal.disk_view.entries.d]
        s.L.params.update(new_tj=lambda pre, post, l, a: [post.truncated_journal], cut=lambda pre, post, l, a: [post.unmarshalled_tail.seq_start], addr=lambda pre, post, l, a: new(pre, post))
        s.P.params.update(cut=lambda pre, post, l, a: [post.unmarshalled_tail.seq_start])
        s.K.params.update(new_journal=lambda pre, post, l, a: [post.journal], cut=lambda pre, post, l, a: [post.journal.unmarshalled_tail.seq_start], addr=lambda pre, post, l, a: new(pre.journal, post.journal))
        s.stat = {}; s.seen = set(); s.samples = []
    def judged(s): return s.stat.get("steps judged", 0)
    def episode(s, n): (s.linked if n % 3 == 1 else s.alloc)(40)
    def saw(s, what, st):
        try: s.seen.add(hash((what, st)))
        except TypeError: s.seen.add(hash((what, repr(st))))
        if len(s.seen) in (5, 60, 400) and len(s.samples) < 6: s.samples.append("%s -> %s" % (what, repr(st)[:300]))
    def count(s, k): s.stat[k] = s.stat.get(k, 0) + 1
    # ---- values
    def subdisk(s, dv, tight, extra=.5):
        """a disk view between the tight one and dv"""
        keep = {a: r for a, r in dv.entries.d.items() if a in tight or s.rng.random() < extra}
        return s.DV(boundary_lsn=dv.boundary_lsn, entries=Map(keep))
    def reach(s, tj, to=None):
        """addresses on the way from the freshest record down to the boundary"""
        out, p, b = [], tj.freshest_rec, tj.disk_view.boundary_lsn if to is None else to
        ents = tj.disk_view.entries.d
        while p._v == "Some" and p._0 in ents and p._0 not in out:
            out.append(p._0); r = ents[p._0]
            if r.message_seq.seq_start <= b: break
            p = r.prior_rec
        return out
    def crop(s, tj, depth):
        r = s.reach(tj)
        if depth > len(r): return None
        return s.TJ(freshest_rec=Some(r[depth]) if depth < len(r) else NONE, disk_view=tj.disk_view)
    def discarded(s, tj, to, extra=.5, hostile=False):
        """a journal that starts at `to`, with some garbage left"""
        end = walk(tj).end
        fr = NONE if end == to else tj.freshest_rec
        dv = s.DV(boundary_lsn=to, entries=tj.disk_view.entries)
        t = set(s.reach(s.TJ(freshest_rec=fr, disk_view=dv)))
        if hostile and t and s.rng.random() < .7: t.discard(s.rng.choice(sorted(t, key=repr)))
        keep = {a: r for a, r in dv.entries.d.items() if a in t or s.rng.random() < extra}
        # garbage must not dangle
        while not hostile:
            drop = [a for a, r in keep.items() if r.message_seq.seq_start > to and not (r.prior_rec._v == "Some" and r.prior_rec._0 in keep)]
            if not drop: break
            for a in drop: del keep[a]
        if s.rng.random() < .1: fr2 = s.rng.choice([NONE] + [Some(a) for a in keep]); fr = fr2 if hostile else fr
        return s.TJ(freshest_rec=fr, disk_view=s.DV(boundary_lsn=to, entries=Map(keep)))
    def some(s, xs): return s.rng.choice(list(xs))
    # ---- LinkedJournal
    def linked(s, steps):
        tj = s.TJ(freshest_rec=NONE, disk_view=s.DV(boundary_lsn=0, entries=Map({})))
        k = s.L.go("initialize", None, tj)
        if not s.must(s.L, "initialize", k, "an empty journal"): return
        st = k[1]
        for i in range(steps):
            st = s.lstep(st)
            if st is None: return
            s.count("linked:states")
    def must(s, m, what, k, why):
        if k[0] == "to": return True
        s.count("unjudged" if k[0] == "?" else "refused")
        if k[0] == "?": s.why = k[1]; s.stat.setdefault("why:" + m.name + "." + what + " " + k[1][:100], 0); s.stat["why:" + m.name + "." + what + " " + k[1][:100]] += 1
        else: s.report("%s.%s is not possible: %s" % (m.name, what, why))
        return False
    def lchoose(s, st, a, h):
        """(transition, args, kind, argument, proper)"""
        L, rng, e = s.L, s.rng, s.e
        tj = st.truncated_journal; w = walk(tj)
        act = rng.choice(["put", "put", "put", "marshal", "marshal", "marshal", "discard", "freeze", "read", "end", "noop"])
        if act == "put":
            n = rng.choice([0, 1, 1, 2, 3])
            if h: at = max(0, a.end + rng.choice([-1, 1, 2])); x = e.msgs(at, n)
            else: x = e.msgs(a.end, n)
            if h and rng.random() < .3: d = dict(x.msgs.d); d.pop(at, None); x = s.e.MH(msgs=Map(d), seq_start=a.end, seq_end=x.seq_end)
            return ("put", [L.label("Put", messages=x)], "put", x, not h)
        if act == "marshal":
            t = st.unmarshalled_tail
            c = rng.randrange(t.seq_start + 1, t.seq_end + 1) if t.seq_end > t.seq_start else t.seq_start
            free = [x for x in e.addrs if x not in tj.disk_view.entries.d]
            ad = rng.choice(free) if free else e.addrs[0]
            ok = t.seq_end > t.seq_start and bool(free)
            if h:
                ok = False
                q = rng.random()
                if q < .35 and tj.disk_view.entries.d: ad = s.some(tj.disk_view.entries.d)
                else: c = rng.choice([max(0, t.seq_start - 1), t.seq_start, t.seq_end + 1])
            return ("internal_journal_marshal", [L.label("Internal"), c, ad], "same", None, ok)
        if act == "discard":
            to = rng.randrange(a.start, w.end + 1); end = a.end
            if h:
                q = rng.random()
                if q < .3: end = max(0, end + rng.choice([-1, 1]))
                elif q < .6: to = rng.choice([max(0, a.start - 1), w.end + 1, a.end, a.end + 1])
            new = s.discarded(tj, to, rng.choice([0, .5, 1]), h)
            return ("discard_old", [L.label("DiscardOld", start_lsn=to, require_end=end), new], "discard", (to, end), not h)
        if act == "freeze":
            r = s.reach(tj); d = rng.randrange(0, len(r) + 1)
            c = s.crop(tj, d)
            try: end = walk(c).end
            except Bad: end = a.start
            b = rng.randrange(a.start, end + 1) if end >= a.start else a.start
            if h:
                q = rng.random()
                if q < .4: b = rng.choice([max(0, a.start - 1), end + 1])
                elif q < .6: d += rng.choice([-1, 1])
            f = s.discarded(c, b, rng.choice([0, .5, 1]), h)
            return ("freeze_for_commit", [L.label("FreezeForCommit", frozen_journal=f), max(0, d)], "freeze", f, not h)
        if act == "read":
            r = s.reach(tj)
            if not r: return None
            d = rng.randrange(len(r)); m = tj.disk_view.entries.d[r[d]].message_seq
            x = cut(hist(m), max(m.seq_start, a.start), m.seq_end)
            if h:
                q = rng.random()
                if q < .3: x = hist(m)
                elif q < .6 and x.msgs: l = s.some(x.msgs); x.msgs[l] = e.msg()
                elif x.msgs: x = cut(x, x.start + 1, x.end)
            return ("read_for_recovery", [L.label("ReadForRecovery", messages=e.mh(x)), d if not h or rng.random() < .5 else rng.randrange(5)], "read", e.mh(x), not h)
        if act == "end": return ("query_end_lsn", [L.label("QueryEndLsn", end_lsn=a.end if not h else max(0, a.end + rng.choice([-1, 1])))], "end", None, not h)
        return ("internal_no_op", [L.label("Internal")], "same", None, True)
    def ask(s, what, st, kind, arg, a, post, show):
        """judges one step that was taken"""
        try: b = absj(post)
        except Bad as x: s.report("%s leaves a damaged journal: %s; %s" % (what, x, show)); return None
        if kind in ("freeze",):
            try: arg = walk(arg)
            except Bad as x: s.report("%s froze a damaged journal: %s; %s" % (what, x, show)); return None
        if kind == "read": arg = hist(arg)
        try: x = expect(kind, arg, a, b)
        except Bad as x2: x = str(x2)
        if x: s.report("%s: %s; %s" % (what, x, show)); return None
        s.count("steps judged")
        return b
    def spec(s, what, st, fs, show):
        """specification predicates that must hold of the state"""
        for f in fs:
            k = judge(getattr(st, f)) if hasattr(st, f) else ("?", "absent")
            if k[0] == "is" and k[1] is not True: s.report("%s does not keep %s; %s" % (what, f[2:], show)); return False
            s.count("spec:" + ("judged" if k[0] == "is" else "open"))
            if k[0] == "?": s.note(f + " " + k[1])
        return True
    def note(s, t): s.stat["why:" + t] = s.stat.get("why:" + t, 0) + 1
    def refine(s, low, up, pre, post, lbl, ilbl, show, ipre=None):
        """the step, seen through the interpretation, must be a step of the machine above"""
        a, b = judge(pre.m_i), judge(post.m_i); l = judge(ilbl)
        if a[0] == "?" or b[0] == "?" or l[0] == "?": s.count("refine:open"); s.note("%s to %s: %s" % (low, up.name, [x[1] for x in (a, b, l) if x[0] == "?"])); return None
        k = judge(up.next, a[1], b[1], l[1])
        if k[0] == "?": s.count("refine:open"); s.note("%s to %s: %s" % (low, up.name, k[1])); return None
        if k[1] is None: s.report("%s: the step is no step of %s: %s -> %s under %s; %s" % (low, up.name, a[1], b[1], l[1], show)); return None
        s.count("refined:%s" % up.name)
        return a[1], b[1], l[1]
    def lstep(s, st):
        L = s.L; a = absj(st); h = s.rng.random() < .35
        s.window(a)
        c = s.lchoose(st, a, h)
        if c is None: return st
        t, args, kind, arg, proper = c
        if t == "query_end_lsn": arg = args[0].end_lsn
        show = "LinkedJournal.%s%r from %r" % (t, tuple(args), st)
        k = L.go(t, st, *args)
        if proper and not s.must(L, t, k, show): return None
        if k[0] == "broken": s.report("an assertion fails in " + show); return None
        if k[0] == "?": s.count("hostile:open"); return st
        if k[0] == "no": s.count("hostile:refused"); return st
        post = k[1]
        if not proper: s.count("hostile:taken")
        s.count("linked:" + t); s.saw("LinkedJournal." + t, post)
        if s.ask("LinkedJournal." + t, st, kind, arg, a, post, show) is None: return None
        gone = [x for x, r in post.truncated_journal.disk_view.entries.d.items() if x in st.truncated_journal.disk_view.entries.d and st.truncated_journal.disk_view.entries.d[x] != r]
        if gone: s.report("LinkedJournal.%s overwrote the record at %r; %s" % (t, gone[0], show)); return None
        if not s.spec("LinkedJournal." + t, post, ["m_inv"], show): return None
        z = s.refine("LinkedJournal." + t, s.P, st, post, args[0], args[0].m_i, show)
        if z:
            s.spec("LinkedJournal.%s (as PagedJournal)" % t, z[1], ["m_wf"], show)
            s.refine("PagedJournal." + t, s.A, z[0], z[1], z[2], z[2].m_i, show)
            x = judge(z[1].m_i)
            if x[0] == "is" and hist(x[1].journal) != absj(post): s.report("the interpretation of the journal is %r; %s" % (hist(x[1].journal), show)); return None
        return post
    def window(s, a):
        s.e.window = list(range(max(-1, a.start - 2), a.end + 4))
    # ---- AllocationJournal
    def alloc(s, steps):
        g = s.r.w.G; s.MA = g["allocation_layer__MiniAllocator_v__MiniAllocator"]; s.IMG = g["allocation_layer__AllocationJournal_v__JournalImage"]
        img = s.IMG.m_empty(); st = s.boot(img)
        frozen = None
        for i in range(steps):
            if st is None: return
            r = s.astep(st)
            if r is None: return
            st, f = r
            if f is not None: frozen = f
            if frozen is not None and s.rng.random() < .06: st = s.boot(frozen); s.count("alloc:restarts"); frozen = None
            s.count("alloc:states")
    def boot(s, img):
        a = walk(img.tj)
        s.window(a)
        j = s.L.go("initialize", None, img.tj)
        if not s.must(s.L, "initialize", j, "a frozen journal %r" % (img,)): return None
        s.AJ.params.update(journal=lambda *a: [j[1]])
        rt.U.by["#init"] = lambda info, post: post == j[1]
        k = s.AJ.go("initialize", None, j[1], img)
        if not s.must(s.AJ, "initialize", k, "a frozen journal %r" % (img,)): return None
        b = absj(k[1].journal)
        if b != a: s.report("a journal restarted from %r holds %r" % (img, b)); return None
        if not s.astate("AllocationJournal.initialize", k[1], b, "image %r" % (img,)): return None
        return k[1]
    def astate(s, what, st, a, show):
        """the index names the unit of every message's record, and the allocator offers no page in use"""
        ents = st.journal.truncated_journal.disk_view.entries.d
        where = {}
        for x in s.reach(st.journal.truncated_journal):
            m = ents[x].message_seq
            for l in range(max(a.start, m.seq_start), m.seq_end): where[l] = x.au
        if st.lsn_au_index.d != where: s.report("%s: the index says %r, the records are at %r; %s" % (what, st.lsn_au_index, where, show)); return False
        for x in ents:
            pa = st.mini_allocator.allocs.d.get(x.au)
            if pa is not None and x not in pa.observed.s and x not in pa.reserved.s: s.report("%s: the allocator offers %r, which holds a record; %s" % (what, x, show)); return False
        return s.spec(what, st, ["m_inv"], show)
    def frozen(s, st, depth, b):
        tj = st.journal.truncated_journal; c = s.crop(tj, depth)
        if c is None: return None
        end = walk(c).end
        fr = NONE if end == b else c.freshest_rec
        aus = {st.lsn_au_index.d[l] for l in range(b, end) if l in st.lsn_au_index.d}
        keep = {a: r for a, r in tj.disk_view.entries.d.items() if a.au in aus and not (fr._v == "Some" and fr._0.au == a.au and a.page > fr._0.page)}
        first = st.lsn_au_index.d.get(b, rt.ARB) if fr._v == "Some" else rt.ARB
        return s.IMG(tj=s.TJ(freshest_rec=fr, disk_view=s.DV(boundary_lsn=b, entries=Map(keep))), first=first)
    def achoose(s, st, a, h):
        A, rng, e = s.AJ, s.rng, s.e
        j = st.journal; tj = j.truncated_journal; w = walk(tj)
        S = lambda *x: Set(x)
        act = rng.choice(["put", "put", "marshal", "marshal", "marshal", "discard", "freeze", "read", "end", "noop", "fill", "prune"])
        if not st.mini_allocator.allocs.d: act = rng.choice([act, "fill"])
        used = set(st.lsn_au_index.d.values()) | {x.au for x in tj.disk_view.entries.d}; mine = set(st.mini_allocator.allocs.d)
        lj = lambda t, ut=None: s.L.State(truncated_journal=t, unmarshalled_tail=j.unmarshalled_tail if ut is None else ut)
        none = A.label("InternalAllocations", allocs=S(), deallocs=S())
        if act in ("put", "end", "read"):
            c = s.lchoose(j, a, h) if act != "read" else None
            for _ in range(40):
                c = s.lchoose(j, a, h)
                if c and c[0] == {"put": "put", "end": "query_end_lsn", "read": "read_for_recovery"}[act]: break
            else: return None
            l = c[1][0]
            lab = A.label(l._v, **{f: getattr(l, f) for f in l._fields})
            if act == "put":
                m = l.messages
                new = lj(tj, s.e.MH(msgs=Map({**j.unmarshalled_tail.msgs.d, **m.msgs.d}), seq_start=j.unmarshalled_tail.seq_start, seq_end=m.seq_end))
                return ("put", [lab, new], "put", m, not h)
            return (c[0], [lab], c[2], c[3] if act == "read" else l.end_lsn, not h)
        if act == "marshal":
            t = j.unmarshalled_tail
            if t.seq_end == t.seq_start and not h: return None
            c = rng.randrange(t.seq_start + 1, t.seq_end + 1) if t.seq_end > t.seq_start else t.seq_start + 1
            ma = st.mini_allocator
            fr = tj.freshest_rec
            if ma.curr._v == "Some" and fr._v == "Some": ad = s.e.Addr(au=fr._0.au, page=fr._0.page + 1)
            else:
                f = [x for x in ma.allocs.d if not ma.allocs.d[x].observed.s and not ma.allocs.d[x].reserved.s]
                if not f and not h: return None
                ad = s.e.Addr(au=rng.choice(f) if f else 0, page=0)
            proper = not h
            if h:
                q = rng.random()
                if q < .4 and tj.disk_view.entries.d: ad = s.some(tj.disk_view.entries.d)
                elif q < .8: ad = rng.choice(e.addrs)
                else: c = rng.choice([t.seq_start, t.seq_end + 1])
            m = {l: x for l, x in t.msgs.d.items() if l < c}
            rec = s.REC(message_seq=e.MH(msgs=Map(m), seq_start=t.seq_start, seq_end=c), prior_rec=fr)
            new = lj(s.TJ(freshest_rec=Some(ad), disk_view=s.DV(boundary_lsn=w.start, entries=Map({**tj.disk_view.entries.d, ad: rec}))),
                     e.MH(msgs=Map({l: x for l, x in t.msgs.d.items() if l >= c}), seq_start=c, seq_end=t.seq_end))
            return ("internal_journal_marshal", [none, c, ad, new], "same", None, proper)
        if act == "discard":
            to = rng.randrange(a.start, w.end + 1); end = a.end
            idx = {l: x for l, x in st.lsn_au_index.d.items() if l >= to}; dead = set(st.lsn_au_index.d.values()) - set(idx.values())
            fr = NONE if w.end == to else tj.freshest_rec
            keep = {x: r for x, r in tj.disk_view.entries.d.items() if x.au in set(idx.values())}
            if h:
                q = rng.random()
                if q < .3: end = max(0, end + rng.choice([-1, 1]))
                elif q < .6: dead = dead ^ {rng.choice(sorted(used) or [0])}
                elif q < .9 and keep: keep.pop(s.some(keep))
                else: to = w.end + 1
            t = j.unmarshalled_tail
            ut = e.MH(msgs=Map({l: x for l, x in t.msgs.d.items() if l >= to}), seq_start=max(to, t.seq_start), seq_end=t.seq_end) if t.seq_start <= to else t
            return ("discard_old", [A.label("DiscardOld", start_lsn=to, require_end=end, deallocs=Set(dead)), lj(s.TJ(freshest_rec=fr, disk_view=s.DV(boundary_lsn=to, entries=Map(keep))), ut)], "discard", (to, end), not h)
        if act == "freeze":
            n = len(s.reach(tj)); d = rng.randrange(0, n + 1)
            c = s.crop(tj, d)
            try: end = walk(c).end
            except Bad: end = a.start
            b = rng.randrange(a.start, max(end, a.start) + 1)
            f = s.frozen(st, d, b)
            if h:
                q = rng.random(); k = dict(f.tj.disk_view.entries.d)
                if q < .3 and k: k.pop(s.some(k)); f = s.IMG(tj=s.TJ(freshest_rec=f.tj.freshest_rec, disk_view=s.DV(boundary_lsn=b, entries=Map(k))), first=f.first)
                elif q < .6: f = s.IMG(tj=f.tj, first=rng.randrange(e.aus))
                elif q < .8: d += 1
                else: f = s.IMG(tj=s.TJ(freshest_rec=f.tj.freshest_rec, disk_view=s.DV(boundary_lsn=b + rng.choice([1, 2]), entries=Map(k))), first=f.first)
            return ("freeze_for_commit", [A.label("FreezeForCommit", frozen_journal=f), d], "freeze", f.tj, not h)
        if act == "fill":
            free = [x for x in range(e.aus) if x not in used and x not in mine]
            al = set(rng.sample(free, min(len(free), rng.randrange(1, 4))))
            if h: al |= {rng.choice(sorted(used | mine))} if used | mine else set()
            return ("internal_mini_allocator_fill", [A.label("InternalAllocations", allocs=Set(al), deallocs=S())], "same", None, not h and bool(al))
        if act == "prune":
            can = [x for x in mine if not st.mini_allocator.allocs.d[x].reserved.s]
            d = set(rng.sample(sorted(can), rng.randrange(0, len(can) + 1)))
            if h: d |= {rng.randrange(e.aus)}
            return ("internal_mini_allocator_prune", [A.label("InternalAllocations", allocs=S(), deallocs=Set(d))], "same", None, not h)
        return ("internal_no_op", [none], "same", None, True)
    def astep(s, st):
        A = s.AJ; a = absj(st.journal); h = s.rng.random() < .35
        s.window(a)
        c = s.achoose(st, a, h)
        if c is None: return st, None
        t, args, kind, arg, proper = c
        show = "AllocationJournal.%s%r from %r" % (t, tuple(args), st)
        k = A.go(t, st, *args)
        if proper and not s.must(A, t, k, show): return None
        if k[0] == "broken": s.report("an assertion fails in " + show); return None
        if k[0] == "?": s.count("hostile:open"); s.note("AllocationJournal.%s %s" % (t, k[1])); return st, None
        if k[0] == "no": s.count("hostile:refused"); return st, None
        post = k[1]
        if not proper: s.count("hostile:taken")
        s.count("alloc:" + t); s.saw("AllocationJournal." + t, post)
        what = "AllocationJournal." + t
        b = s.ask(what, st.journal, kind, arg, a, post.journal, show)
        if b is None: return None
        E0, E1 = (x.journal.truncated_journal.disk_view.entries.d for x in (st, post))
        for x in E1:
            if x in E0 and E0[x] != E1[x]: s.report("%s overwrote the record at %r; %s" % (what, x, show)); return None
        if t == "internal_mini_allocator_fill":
            u = args[0].allocs.s & ({x.au for x in E0} | set(st.mini_allocator.allocs.d))
            if u: s.report("%s took %r, which is in use; %s" % (what, u, show)); return None
            if set(post.mini_allocator.allocs.d) != set(st.mini_allocator.allocs.d) | args[0].allocs.s: s.report("%s: the allocator holds %r; %s" % (what, post.mini_allocator, show)); return None
        if t == "discard_old":
            now = {x.au for x in s.reach(post.journal.truncated_journal)}; was = {x.au for x in s.reach(st.journal.truncated_journal)}
            if args[0].deallocs.s != was - now: s.report("%s freed %r, the units no longer used are %r; %s" % (what, args[0].deallocs, was - now, show)); return None
            if set(post.mini_allocator.allocs.d) & args[0].deallocs.s: s.report("%s: freed units stay with the allocator; %s" % (what, show)); return None
        if not s.astate(what, post, b, show): return None
        z = s.refine(what, s.K, st, post, args[0], args[0].m_i, show)
        if z:
            s.spec(what + " (as LikesJournal)", z[1], ["m_inv"], show)
            y = s.refine("LikesJournal." + t, s.L, z[0], z[1], z[2], lambda: s.K.State.m_lbl_i(z[2]), show)
        f = None
        if t == "freeze_for_commit":
            f = args[0].frozen_journal
            v = judge(f.m_valid_image)
            if v[0] == "is" and not v[1] and f.tj.freshest_rec._v == "Some": s.report("%s froze an image that is not valid; %s" % (what, show)); return None
        return post, f
def make(repo, seed, report): return J(repo, seed, report)
