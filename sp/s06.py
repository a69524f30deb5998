"""The page cache over its disk, and the journal that lives in it: Cache, AsyncDisk, CachedJournal and their composition JournalCoordinationSystem."""
import random
import mon, rt, journal
from mon import judge
from journal import Abs, Bad, hist, cut, expect
from rt import Seq, Set, Map, Some, NONE
DIRS = ("trusted", "implementation")
IM = "implementation__"
class Stop(Exception): pass
class Model:
    """what cache and disk should be: slots, requests under way, contents, and the last value written to each address"""
    def __init__(m, n, content):
        m.n = n; m.slot = {i: None for i in range(n)}; m.reqs = {}; m.q = {}; m.disk = dict(content); m.last = dict(content)
    def at(m): return {x[1]: i for i, x in m.slot.items() if x}
class C:
    def __init__(s, repo, seed, report):
        s.rng = random.Random(seed); s.report0 = report
        s.recs = []; s.jn = 0
        rt.U.over[IM + "JournalCoordinationSystem_v__record_to_raw_page"] = lambda f: lambda r: s.page(r)
        rt.U.over[IM + "JournalCoordinationSystem_v__raw_page_to_record"] = lambda f: lambda p: s.record(p)
        rt.U.over["spec__AsyncDisk_t__page_count"] = lambda f: lambda: 4
        rt.U.over["spec__AsyncDisk_t__au_count"] = lambda f: lambda: 4
        s.r = mon.Run(repo, s.rng, dirs=DIRS)
        m, g = s.r.m, s.r.w.G
        s.g = g; s.K, s.D, s.J, s.S = m["Cache"], m["AsyncDisk"], m["CachedJournal"], m["JournalCoordinationSystem"]
        by = {k.path: k for k in s.r.byinfo.values()}
        s.L = next(k for p, k in by.items() if p.split("::")[-1] == "LikesJournal" and "JournalModel_v" in p)
        s.LJ = m["LinkedJournal"]
        e = lambda n: g[IM + "Cache_v__Entry__" + n]
        s.Empty, s.Res, s.Load, s.Fill = e("Empty__unit"), e("Reserved"), e("Loading"), e("Filled")
        s.ST = {n: g[IM + "Cache_v__Status__%s__unit" % n] for n in ("NotFilled", "Clean", "Dirty", "Writeback")}
        d = lambda n: g["spec__AsyncDisk_t__" + n]
        s.Addr, s.Read, s.Write, s.RResp, s.WResp = d("Address"), d("GenericDiskRequest__ReadReq"), d("GenericDiskRequest__WriteReq"), d("GenericDiskResponse__ReadResp"), d("GenericDiskResponse__WriteResp__unit")
        s.rf = s.Read._fields[0]
        s.JR = g["journal__LinkedJournal_v__JournalRecord"]; s.Snap = g[IM + "CachedJournal_v__JournalSnapShot"]
        s.MH = g["abstract_system__MsgHistory_v__MsgHistory"]; s.KM = g["abstract_system__MsgHistory_v__KeyedMessage"]
        s.Key = g["spec__KeyType_t__Key"]; s.Def = g["spec__Messages_t__Message__Define"]; s.Val = g["spec__Messages_t__Value"]
        s.addrs = [s.Addr(au=a, page=p) for a in range(4) for p in range(3)]
        rt.U.by["spec__AsyncDisk_t__Address"] = s.addrs
        rt.U.by["spec__AsyncDisk_t__GenericDiskRequest"] = lambda: s.reqs
        s.univ(); rt.U.by["#mixed"] = lambda: s.reqs
        rt.U.wit["contains_value"] = lambda m, args, pos: list(m.d.values())
        rt.U.by["i32"] = lambda: range(s.m.n)
        rt.U.by["#ints"] = lambda: s.window
        s.window = list(range(-1, 12)); s.m = Model(0, {})
        def mapping(a, b, l, acc): return [Map({i: b.entries.d[i].addr for i in b.entries.d if a.entries.d.get(i) == s.Empty and b.entries.d[i] != s.Empty})]
        s.K.params = {"new_slots_mapping": mapping, "evicted_slots": lambda a, b, l, acc: [Set(i for i in a.entries.d if a.entries.d[i] != s.Empty and b.entries.d.get(i) == s.Empty)]}
        s.D.params = {"id": lambda a, b, l, acc: sorted(a.requests.d)}
        deps = lambda a, b, l, acc: range(0, 6)
        s.J.params = {"depth": deps, "cut": lambda a, b, l, acc: [b.unmarshalled_tail.seq_start], "addr": lambda a, b, l, acc: sorted(l.writes.d, key=repr) if l._v == "JournalMarshal" else []}
        fresh = lambda a, b, l, acc: [b.truncated_journal.freshest_rec._0] if b.truncated_journal.freshest_rec._v == "Some" else []
        s.LJ.params = {"depth": deps, "new_tj": lambda a, b, l, acc: [b.truncated_journal], "cut": lambda a, b, l, acc: [b.unmarshalled_tail.seq_start], "addr": fresh}
        s.L.params = {"depth": deps, "new_journal": lambda a, b, l, acc: [b.journal], "cut": lambda a, b, l, acc: [b.journal.unmarshalled_tail.seq_start], "addr": lambda a, b, l, acc: fresh(a.journal, b.journal, l, acc)}
        s.stat = {}; s.seen = set(); s.samples = []; s.n = 0; s.id = 0
    def judged(s): return s.stat.get("steps judged", 0)
    def count(s, k, n=1): s.stat[k] = s.stat.get(k, 0) + n
    def note(s, t): s.count("why:" + t[:170])
    def report(s, t): s.report0(t); raise Stop
    # ---- pages: journal records or other data
    def page(s, r):
        for i, x in enumerate(s.recs):
            if x == r: break
        else: i = len(s.recs); s.recs.append(r)
        return Seq([74, i // 256, i % 256])
    def record(s, p):
        t = list(p)
        if len(t) != 3 or t[0] != 74 or t[1] * 256 + t[2] >= len(s.recs): raise rt.Unjudged("not a record")
        return s.recs[t[1] * 256 + t[2]]
    def junk(s): s.jn += 1; return Seq([1, s.jn % 65536])
    def univ(s, lbl=None): s.reqs = [s.rd(a) for a in s.addrs] + (list(lbl.requests.d.values()) if lbl is not None else [])
    def rd(s, a): return s.Read(**{s.rf: a})
    # ---- the model as states of the machines
    def cstate(s, m):
        ent, st = {}, {}
        for i, x in m.slot.items():
            ent[i] = s.Empty if x is None else s.Res(addr=x[1]) if x[0] == "R" else s.Load(addr=x[1]) if x[0] == "L" else s.Fill(addr=x[1], data=x[2])
            st[i] = s.ST[x[3] if x and x[0] == "F" else "NotFilled"]
        return s.K.State(entries=Map(ent), status_map=Map(st), lookup_map=Map(m.at()), outstanding_reqs=Map(m.reqs))
    def dstate(s, m):
        return s.D.State(requests=Map({i: s.rd(x) if k == "read" else s.Write(to=x[0], data=x[1]) for i, (k, x) in m.q.items() if k in ("read", "write")}),
            responses=Map({i: s.RResp(data=x) if k == "data" else s.WResp for i, (k, x) in m.q.items() if k in ("data", "ok")}), content=Map(m.disk))
    def durable(s, m):
        """each address' last value is in the cache, or on the disk when the cache has it not"""
        for a, v in m.last.items():
            i = m.at().get(a); x = m.slot[i] if i is not None else None
            if x and x[0] == "F":
                if x[2] != v: return "the cache has %r for %r, last written was %r" % (x[2], a, v)
                if x[3] == "Clean" and m.disk.get(a) != v: return "the clean page %r is %r on the disk, last written was %r" % (a, m.disk.get(a), v)
            elif not x or x[0] == "L":
                if m.disk.get(a) != v: return "the write of %r to %r is lost, the disk has %r" % (v, a, m.disk.get(a))
        return None
    # ---- plans: (transition of Cache, arguments, legal?, effect on the model)
    def mapping(s, h, loading):
        m = s.m; free = [i for i, x in m.slot.items() if x is None]; out = [a for a in s.addrs if a not in m.at()]
        k = s.rng.choice([1, 1, 1, 2, 3]) if free else 0
        sl = s.rng.sample(free, min(k, len(free))); ad = s.rng.sample(out, min(len(sl), len(out))); mp = dict(zip(sl, ad))
        if h:
            q = s.rng.randrange(5)
            if q == 0 and len(mp) > 1: mp = {i: ad[0] for i in mp}
            elif q == 1 and m.at(): mp[s.rng.choice(free or [0])] = s.rng.choice(sorted(m.at(), key=repr))
            elif q == 2: mp[s.rng.randrange(m.n)] = s.rng.choice(out or s.addrs)
            elif q == 3 and out: mp[m.n + s.rng.randrange(2)] = s.rng.choice(out)
        legal = len(set(mp.values())) == len(mp) and not set(mp.values()) & set(m.at()) and all(i in m.slot and m.slot[i] is None for i in mp)
        return mp, legal
    def p_reserve(s, h):
        mp, legal = s.mapping(h, False)
        if not mp and not h: return None
        def eff():
            for i, a in mp.items(): s.m.slot[i] = ("R", a)
        return "reserve", [s.K.label("Internal"), Map(mp)], legal, eff
    def p_load(s, h):
        mp, legal = s.mapping(h and s.rng.random() < .5, True)
        if not mp: return None
        rq = {}
        for a in mp.values():
            s.id += 1; rq[s.id] = a
        req = {i: s.rd(a) for i, a in rq.items()}
        if h:
            q = s.rng.randrange(5); i = s.rng.choice(sorted(req))
            if q == 0: req[i] = s.Write(to=rq[i], data=s.junk()); legal = False
            elif q == 1: a = s.rng.choice(s.addrs); legal = legal and a == rq[i]; rq[i] = a; req[i] = s.rd(a)
            elif q == 2 and s.m.reqs: j = s.rng.choice(sorted(s.m.reqs)); req[j] = req.pop(i); rq[j] = rq.pop(i); legal = False
            elif q == 3: s.id += 1; req[s.id] = req[i]; rq[s.id] = rq[i]; legal = False
            elif len(req) > 1: del req[i], rq[i]; legal = False
        def eff():
            inv = {a: i for i, a in mp.items()}
            for i, a in mp.items(): s.m.slot[i] = ("L", a)
            for i, a in rq.items(): s.m.reqs[i] = inv[a]; s.m.q[i] = ("read", a)
            s.count("loads started", len(rq))
        return "load_initiate", [s.K.label("DiskOps", requests=Map(req), responses=Map()), Map(mp)], legal, eff
    def some(s, l): l = sorted(l, key=repr); return s.rng.sample(l, s.rng.randrange(1, len(l) + 1)) if l else []
    def p_loaded(s, h):
        m = s.m; ids = s.some([i for i, (k, x) in m.q.items() if k == "data"])
        if not ids and not h: return None
        rs = {i: s.RResp(data=m.q[i][1]) for i in ids}; legal = bool(rs)
        if h:
            q = s.rng.randrange(4)
            if q == 0:
                for i in s.some([i for i in m.reqs if i not in rs])[:1]: rs[i] = s.rng.choice([s.WResp, s.RResp(data=s.junk())]); legal = False
            elif q == 1: s.id += 1; rs[s.id] = s.RResp(data=s.junk()); legal = False
            elif q == 2 and rs: i = s.rng.choice(sorted(rs)); rs[i] = s.RResp(data=s.junk()); legal = False
            elif rs: i = s.rng.choice(sorted(rs)); rs[i] = s.WResp; legal = False
        if not rs: return None
        def eff():
            m = s.m
            for i in ids: sl = m.reqs.pop(i); m.slot[sl] = ("F", m.slot[sl][1], m.q.pop(i)[1], "Clean")
            s.count("loads done", len(ids))
        return "load_complete", [s.K.label("DiskOps", requests=Map(), responses=Map(rs))], legal, eff
    def readable(s): return {x[1]: x[2] for x in s.m.slot.values() if x and x[0] == "F"}
    def writable(s): return {x[1] for x in s.m.slot.values() if x and (x[0] == "R" or x[0] == "F" and x[3] != "Writeback")}
    def p_access(s, h):
        rs = {a: s.readable()[a] for a in s.some(s.readable())} if s.rng.random() < .6 else {}
        ws = {a: s.junk() for a in s.some(s.writable())} if s.rng.random() < .7 else {}
        if h:
            q = s.rng.randrange(3); a = s.rng.choice(s.addrs)
            if q == 0: rs[a] = s.junk()
            elif q == 1: ws[a] = s.junk()
            else: rs[a] = s.m.last[a]
        legal = all(s.readable().get(a) == v for a, v in rs.items()) and set(ws) <= s.writable()
        def eff():
            for a, v in ws.items(): s.m.slot[s.m.at()[a]] = ("F", a, v, "Dirty"); s.m.last[a] = v
            s.count("pages read", len(rs)); s.count("pages written", len(ws))
        return "access", [s.K.label("Access", reads=Map(rs), writes=Map(ws))], legal, eff
    def p_writeback(s, h):
        m = s.m; dirty = {x[1]: x[2] for x in m.slot.values() if x and x[0] == "F" and x[3] == "Dirty"}
        rq = {}
        for a in s.some(dirty): s.id += 1; rq[s.id] = (a, dirty[a])
        if h:
            q = s.rng.randrange(5)
            if q == 0 and rq: i = s.rng.choice(sorted(rq)); s.id += 1; rq[s.id] = rq[i]
            elif q == 1 and s.readable(): a = s.rng.choice(sorted(s.readable(), key=repr)); s.id += 1; rq[s.id] = (a, s.readable()[a])
            elif q == 2 and rq: i = s.rng.choice(sorted(rq)); rq[i] = (rq[i][0], s.junk())
            elif q == 3: s.id += 1; rq[s.id] = (s.rng.choice(s.addrs), s.junk())
            elif rq and m.reqs: i = s.rng.choice(sorted(rq)); rq[s.rng.choice(sorted(m.reqs))] = rq.pop(i)
        if not rq: return None
        legal = all(dirty.get(a) == v for a, v in rq.values()) and len({a for a, v in rq.values()}) == len(rq) and not set(rq) & set(m.reqs)
        req = {i: s.Write(to=a, data=v) for i, (a, v) in rq.items()}
        if h and s.rng.random() < .15: i = s.rng.choice(sorted(rq)); req[i] = s.rd(rq[i][0]); legal = False
        def eff():
            m = s.m
            for i, (a, v) in rq.items(): sl = m.at()[a]; m.reqs[i] = sl; m.q[i] = ("write", (a, v)); m.slot[sl] = ("F", a, v, "Writeback")
            s.count("writebacks started", len(rq))
        return "writeback_initiate", [s.K.label("DiskOps", requests=Map(req), responses=Map())], legal, eff
    def p_written(s, h):
        m = s.m; ids = s.some([i for i, (k, x) in m.q.items() if k == "ok"])
        if not ids and not h: return None
        rs = {i: s.WResp for i in ids}; legal = bool(rs)
        if h:
            q = s.rng.randrange(3)
            if q == 0:
                for i in s.some([i for i in m.reqs if i not in rs])[:1]:
                    rs[i] = s.WResp
                    if m.q[i][0] == "ok": ids.append(i); legal = True
                    else: legal = False
            elif q == 1: s.id += 1; rs[s.id] = s.WResp; legal = False
            elif rs: i = s.rng.choice(sorted(rs)); rs[i] = s.RResp(data=s.junk()); legal = False
        if not rs: return None
        def eff():
            m = s.m
            for i in ids: sl = m.reqs.pop(i); del m.q[i]; m.slot[sl] = m.slot[sl][:3] + ("Clean",)
            s.count("writebacks done", len(ids))
        return "writeback_complete", [s.K.label("DiskOps", requests=Map(), responses=Map(rs))], legal, eff
    def p_evict(s, h):
        m = s.m; ok = [i for i, x in m.slot.items() if x and x[0] == "F" and x[3] == "Clean"]
        ev = s.some(ok)
        if h: ev = sorted(set(ev) | {s.rng.randrange(m.n)})
        elif not ev: return None
        legal = set(ev) <= set(ok)
        def eff():
            m = s.m
            for i in ev: m.slot[i] = None
            s.count("pages evicted", len(ev))
        return "evict", [s.K.label("Internal"), Set(ev)], legal, eff
    def p_evictable(s, h):
        m = s.m; bad = {x[1] for x in m.slot.values() if x and not (x[0] == "F" and x[3] == "Clean")}
        ad = [a for a in s.some(s.addrs)[:s.rng.randrange(1, 6)] if h or a not in bad]
        return "evictable", [s.K.label("EvictableCheck", addrs=Set(ad))], not set(ad) & bad, None
    def p_mixed(s, h):
        """requests and answers at once"""
        if not h: return None
        p = s.rng.choice([s.p_load, s.p_writeback])(False); q = s.rng.choice([s.p_loaded, s.p_written])(False)
        if p is None or q is None: return None
        t = s.rng.choice([p, q]); l = s.K.label("DiskOps", requests=p[1][0].requests, responses=q[1][0].responses)
        return t[0], [l] + t[1][1:], False, t[3]
    def p_noop(s, h): return "noop", [s.K.label("Internal")], True, None
    # ---- Cache over AsyncDisk
    CPLANS = ["reserve"] * 2 + ["load"] * 4 + ["loaded"] * 4 + ["writeback"] * 4 + ["written"] * 4 + ["evict"] * 3
    def episode(s, n):
        try: s.raw() if n % 2 else s.system()
        except Stop: pass
    def check(s, what, cache, disk, show):
        w = s.cstate(s.m)
        for f in w._fields:
            if getattr(cache, f) != getattr(w, f): s.report("%s: %s is %r, should be %r; %s" % (what, f, getattr(cache, f), getattr(w, f), show()))
        w = s.dstate(s.m)
        for f in w._fields:
            if getattr(disk, f) != getattr(w, f): s.report("%s: %s of the disk is %r, should be %r; %s" % (what, f, getattr(disk, f), getattr(w, f), show()))
        x = s.durable(s.m)
        if x: s.report("%s: %s; %s" % (what, x, show()))
        s.count("steps judged")
        try: s.seen.add(hash((what, cache, disk)))
        except TypeError: s.seen.add(hash((what, repr(cache), repr(disk))))
        if len(s.seen) in (30, 300) and len(s.samples) < 4: s.samples.append("%s -> %s" % (what, repr(cache)[:300]))
    def fresh(s):
        n = s.rng.randrange(2, 6)
        s.m = Model(n, {a: s.junk() for a in s.addrs})
    def begin(s, old=None):
        k = s.K.go("initialize", None, s.m.n)
        if k[0] == "?": s.note("initialize " + k[1]); raise Stop
        if k[0] != "to": s.report("Cache cannot start with %s slots" % s.m.n)
        return k[1]
    def raw(s):
        s.fresh(); cache = s.begin(); disk = s.dstate(s.m)
        s.check("Cache.initialize", cache, disk, lambda: "")
        for _ in range(80):
            h = s.rng.random() < .3; q = s.rng.random()
            if q < .2:
                if not s.m.q: continue
                disk = s.process(disk, lambda t, i: s.D.go(t, disk, s.D.label("Internal"), i)); s.check("AsyncDisk", cache, disk, lambda: ""); continue
            if q < .22:
                k = s.D.go("crash", disk, s.D.label("Crash"))
                if k[0] != "to": s.report("AsyncDisk.crash is not possible: %r" % (k,)) if k[0] == "no" else s.note("crash " + k[1]); continue
                disk = k[1]; m = s.m; lost = m.last; s.m = Model(m.n, m.disk); cache = s.begin(); s.count("crashes"); s.count("crashes that lose writes", lost != m.disk)
                s.check("Cache.initialize", cache, disk, lambda: ""); continue
            p = getattr(s, "p_" + s.rng.choice(s.CPLANS + ["access"] * 5 + ["evictable"] * 2 + ["noop", "mixed", "mixed"]))(h)
            if p is None: continue
            t, a, legal, eff = p
            show = lambda: "Cache.%s%r from %r and %r" % (t, tuple(a), cache, disk)
            if s.rng.random() < .04:
                o = {"Access": {"reads": Map(), "writes": Map()}, "EvictableCheck": {"addrs": Set()}, "DiskOps": {"requests": Map({s.id + 1: s.rd(s.addrs[0])}), "responses": Map()}, "Internal": {}}
                v = s.rng.choice(sorted(x for x in o if x != a[0]._v)); k = s.K.go(t, cache, s.K.label(v, **o[v]), *a[1:])
                if k[0] == "to": s.report("Cache.%s is taken under the label %s; %s" % (t, v, show()))
                s.count("hostile:" + ("refused" if k[0] != "?" else "open")); continue
            if a[0]._v == "DiskOps": s.univ(a[0])
            k = s.K.go(t, cache, *a); c2 = k[1]
            d = ("to", disk)
            if a[0]._v == "DiskOps":
                d = s.D.go("disk_ops", disk, s.D.label("DiskOps", requests=a[0].requests, responses=a[0].responses))
            if "?" in (k[0], d[0]): s.count(("proper" if legal else "hostile") + ":open"); s.note("%s %s" % (t, [z[1] for z in (k, d) if z[0] == "?"])); continue
            if "broken" in (k[0], d[0]): s.report("an assertion fails in " + show())
            if t in ("load_complete", "writeback_complete") and k[0] == "to":
                for i, r in a[0].responses.d.items():
                    x = s.m.slot.get(s.m.reqs.get(i)); want = ("L", "ReadResp") if t == "load_complete" else ("F", "WriteResp")
                    if not x or (x[0], r._v) != want or x[0] == "F" and x[3] != "Writeback": s.report("Cache.%s takes the response %r; %s" % (t, r, show()))
            if "no" in (k[0], d[0]):
                if legal: s.report("%s is not possible: %s" % ("Cache." + t if k[0] == "no" else "AsyncDisk.disk_ops", show()))
                s.count("hostile:refused"); continue
            if not legal: s.report("Cache.%s must not happen here: %s" % (t, show()))
            if eff: eff()
            s.check("Cache." + t, c2, d[1], show)
            cache, disk = c2, d[1]; s.count("cache:" + t)
            k = judge(s.K.next, cache, cache, s.K.label("Internal"))
    def process(s, disk, go):
        m = s.m; i = s.rng.choice(sorted(m.q)); k, x = m.q[i]
        t = s.rng.choice(["process_read", "process_write"]) if s.rng.random() < .2 else {"read": "process_read", "write": "process_write"}.get(k, "process_read")
        ok = (k, t) in (("read", "process_read"), ("write", "process_write"))
        r = go(t, i)
        if r[0] == "?": s.note("disk " + r[1]); s.count("disk:open"); return disk
        if r[0] == "no":
            if ok: s.report("AsyncDisk.%s(%s) is not possible in %r" % (t, i, disk))
            s.count("hostile:refused"); return disk
        if not ok: s.report("AsyncDisk.%s(%s) happens in %r" % (t, i, disk))
        if k == "read": m.q[i] = ("data", m.disk[x])
        else: m.disk[x[0]] = x[1]; m.q[i] = ("ok", None)
        s.count("disk:" + t)
        return r[1]
    # ---- the journal over the cache
    def hist(s, a, b, log): return s.MH(msgs=Map({l: log[l] for l in range(a, b)}), seq_start=a, seq_end=b)
    def msg(s): s.n += 1; return s.KM(key=s.Key(s.rng.randrange(4)), message=s.Def(value=s.Val(s.n)))
    def snapof(s, b, f): return s.Snap(boundary_lsn=b, freshest_rec=f)
    def pages(s, recs, b, f):
        """the addresses a walk from f down to b visits, newest first"""
        out = []
        while f._v == "Some":
            a = f._0; r = recs[a]; out.append(a)
            if r.message_seq.seq_start <= b: break
            f = r.prior_rec
        return out
    def jstate(s): return s.J.State(boundary_lsn=s.b, freshest_rec=s.f, unmarshalled_tail=s.hist(s.mend, s.end, s.log), lsn_addr_index=Map(s.index))
    def want(s): return s.S.State(journal=s.jstate(), cache=s.cstate(s.m), disk=s.dstate(s.m))
    def reindex(s):
        s.index = {}
        for a in s.pages(s.rec, s.b, s.f):
            h = s.rec[a].message_seq
            for l in range(max(h.seq_start, s.b), h.seq_end): s.index[l] = a
    def sym(s, x): return s.S.label(x)
    def holds(s, j, cache, disk, b, f, end):
        """the messages a reader finds that follows the records, in the cache where they are there, on the disk otherwise"""
        class V: pass
        ent = dict(disk)
        for i, e in (cache.entries.d if cache is not None else {}).items():
            if e._v == "Filled": ent[e.addr] = e.data
        recs = {}
        for a, p in ent.items():
            try: recs[a] = s.record(p)
            except rt.Unjudged: pass
        tj = V(); tj.freshest_rec = f; tj.disk_view = V(); tj.disk_view.boundary_lsn = b; tj.disk_view.entries = V(); tj.disk_view.entries.d = recs
        try: w = journal.walk(tj)
        except Bad as e: return "the journal cannot be read: %s" % e
        if j is not None:
            t = hist(j.unmarshalled_tail)
            if t.start != w.end: return "the records end at %s, the messages in memory start at %s" % (w.end, t.start)
            w = Abs(w.start, t.end, {**w.msgs, **t.msgs})
        good = Abs(b, end, {l: s.log[l] for l in range(b, end)})
        return None if w == good else "the journal reads as %r, was %r" % (w, good)
    def jcheck(s, what, st, show):
        w = s.want()
        for part in w._fields:
            x, y = getattr(st, part), getattr(w, part)
            for f in y._fields:
                if getattr(x, f) != getattr(y, f): s.report("%s: %s.%s is %r, should be %r; %s" % (what, part, f, getattr(x, f), getattr(y, f), show()))
        x = s.durable(s.m) or s.holds(st.journal, st.cache, st.disk.content.d, s.b, s.f, s.end)
        if not x:
            x = s.holds(None, None, st.disk.content.d, s.pb, s.pf, s.pend)
            if x: x = "after a crash " + x
        if x: s.report("%s: %s; %s" % (what, x, show()))
        s.count("steps judged"); s.count("journals read")
        try: s.seen.add(hash((what, st)))
        except TypeError: s.seen.add(hash((what, repr(st))))
        if len(s.seen) % 400 == 399 and len(s.samples) < 4: s.samples.append("%s -> %s" % (what, repr(st.journal)[:300]))
        s.window = list(range(-1, s.end + 4))
    def boot(s):
        """the system on the disk of the model and the frozen image (pb, pf, pend)"""
        m = s.m; recs = {}
        for a in s.pages_on(m.disk, s.pb, s.pf): recs[a] = s.record(m.disk[a])
        s.rec = recs; s.b, s.f, s.mend, s.end = s.pb, s.pf, s.pend, s.pend; s.reindex()
        sl = s.rng.sample(range(m.n), len(recs))
        for i, a in zip(sl, recs): m.slot[i] = ("F", a, m.disk[a], "Clean")
        for i in range(m.n):
            if m.slot[i] is None and s.rng.random() < .3:
                a = s.rng.choice(s.addrs)
                if a not in m.at(): m.slot[i] = ("F", a, m.disk[a], "Clean")
        s.window = list(range(-1, s.end + 4))
        reads = Map({a: m.disk[a] for a in recs})
        w = s.want(); j = s.J.go("initialize", None, Map(recs), s.snapof(s.pb, s.pf))
        if j[0] == "?": s.note("CachedJournal.initialize " + j[1]); raise Stop
        if j[0] != "to": s.report("CachedJournal cannot start on %r from %s, %r" % (recs, s.pb, s.pf))
        for f in w.journal._fields:
            if getattr(j[1], f) != getattr(w.journal, f): s.report("CachedJournal.initialize: %s is %r, should be %r (records %r, from %s, %r)" % (f, getattr(j[1], f), getattr(w.journal, f), recs, s.pb, s.pf))
        show = lambda: "JournalCoordinationSystem.initialize of %r" % (w,)
        def init(cache=w.cache, disk=w.disk, jn=j[1], snap=s.snapof(s.pb, s.pf), rd=reads): return s.call("initialize", None, disk=disk, cache=cache, journal=jn, snapshot=snap, reads=rd)
        k = init()
        if k[0] == "?": s.note("initialize " + k[1]); raise Stop
        if k[0] != "to": s.report("JournalCoordinationSystem cannot start: " + show())
        s.jcheck("JournalCoordinationSystem.initialize", k[1], show)
        # starts it must refuse
        if s.rng.random() < .5:
            q = s.rng.randrange(6); kw = None; cl = [i for i, x in m.slot.items() if x]
            def slot(i, x):
                z = Model(m.n, m.disk); z.slot = dict(m.slot); z.slot[i] = x; return s.cstate(z)
            if q == 0 and cl: i = s.rng.choice(cl); kw = {"cache": slot(i, m.slot[i][:2] + (s.junk(), "Clean"))}
            elif q == 1 and recs: kw = {"rd": Map({a: p for a, p in reads.d.items() if a != s.pf._0})}
            elif q == 2: kw = {"disk": s.D.State(requests=Map({77: s.rd(s.addrs[0])}), responses=Map(), content=Map(m.disk))}
            elif q == 3:
                fr = [a for a in s.addrs if a not in m.at()]; em = [i for i, x in m.slot.items() if x is None]
                if fr and em: kw = {"cache": slot(em[0], ("F", fr[0], s.junk(), "Dirty"))}
            elif q == 4: kw = {"jn": s.J.State(boundary_lsn=s.b, freshest_rec=s.f, unmarshalled_tail=s.hist(s.mend, s.mend, s.log), lsn_addr_index=Map({**s.index, s.end + 1: s.addrs[0]}))}
            elif recs: kw = {"snap": s.snapof(s.pb, Some(next(a for a in s.addrs if a not in recs)))}
            if kw:
                k = init(**kw)
                if k[0] == "to": s.report("JournalCoordinationSystem starts with %r: %s" % (kw, show()))
                s.count("hostile:" + ("refused" if k[0] != "?" else "open"))
                if k[0] == "?": s.note("hostile initialize " + k[1])
            return init()[1]
        return k[1]
    def pages_on(s, disk, b, f):
        out = []
        while f._v == "Some":
            a = f._0; r = s.record(disk[a]); out.append(a)
            if r.message_seq.seq_start <= b: break
            f = r.prior_rec
        return out
    def call(s, t, pre, **kw):
        ps = [n for n, _ in s.S.T[t][1]]
        if pre is None: return s.S.go(t, None, *[kw[n] for n in ps])
        return s.S.go(t, pre, *[kw[n] for n in ps])
    def system(s):
        rng = s.rng; s.recs.clear()
        disk = {a: s.junk() for a in s.addrs}
        b0 = rng.randrange(0, 4); l = b0; s.log = {}; f = NONE; k = rng.randrange(0, 4)
        ads = rng.sample(s.addrs, k); lo = l
        for a in ads:
            n = rng.randrange(1, 4)
            for i in range(n): s.log[l + i] = s.msg()
            disk[a] = s.page(s.JR(message_seq=s.hist(l, l + n, s.log), prior_rec=f)); f = Some(a); l += n
        s.pb = b0 if not k else rng.randrange(b0, l); s.pf = f; s.pend = l if k else s.pb
        s.m = Model(k + rng.randrange(1, 4), disk)
        st = s.boot()
        for _ in range(70):
            z = s.jstep(st)
            if z is not None: st = z
    def jstep(s, st):
        rng = s.rng; h = rng.random() < .25; m = s.m
        acts = ["put"] * 3 + ["marshal"] * 5 + ["read", "freeze", "freeze", "freeze", "end", "discard", "discard"] + ["internal"] * 5 + ["diskops"] * 10 + ["disk"] * 6
        if rng.random() < .015: return s.crash(st)
        a = rng.choice(acts)
        c = getattr(s, "j_" + a)(st, h)
        if c is None: return None
        t, kw, legal, eff = c
        kw.setdefault("new_journal", st.journal); kw.setdefault("new_cache", st.cache); kw.setdefault("new_disk", st.disk)
        show = lambda: "JournalCoordinationSystem.%s%r from %r" % (t, kw, st)
        if rng.random() < .03: return s.mislabel(t, kw, st, show)
        k = s.call(t, st, **kw)
        if k[0] == "?": s.count(("proper" if legal else "hostile") + ":open"); s.note("%s %s" % (t, k[1])); return None
        if k[0] == "broken": s.report("an assertion fails in " + show())
        if k[0] == "no":
            if legal: s.report("JournalCoordinationSystem.%s is not possible: %s" % (t, show()))
            s.count("hostile:refused"); return None
        if not legal: s.report("JournalCoordinationSystem.%s must not happen here: %s" % (t, show()))
        post = k[1]; s.skip = False
        if eff: eff()
        s.count("step:" + t)
        s.jcheck("JournalCoordinationSystem." + t, post, show)
        if s.skip: s.count("refine:skipped (discard with messages in memory)"); return post
        u, v, l = judge(st.m_i), judge(post.m_i), judge(kw["lbl"].m_i, st)
        if "?" in (u[0], v[0], l[0]): s.count("refine:open"); s.note("i %s %s" % (t, [z[1] for z in (u, v, l) if z[0] == "?"])); return post
        k = judge(s.L.next, u[1], v[1], l[1])
        if k[0] == "?": s.count("refine:open"); s.note("%s to LikesJournal: %s" % (t, k[1])); return post
        if k[1] is None: s.report("JournalCoordinationSystem.%s is no step of LikesJournal: %s -> %s under %r; %s" % (t, repr(u[1])[:600], repr(v[1])[:600], l[1], show()))
        s.count("refined:LikesJournal")
        return post
    LABELS = {"ReadForRecovery", "FreezeForCommit", "QueryEndLsn", "Put", "DiscardOld", "Internal"}
    def mislabel(s, t, kw, st, show):
        """the same step under another request: what the caller sees decides which step may be taken"""
        was = kw["lbl"]._v
        o = {"ReadForRecovery": {"messages": s.hist(s.end, s.end, s.log)}, "FreezeForCommit": {"frozen": s.snapof(s.b, s.f)}, "QueryEndLsn": {"end_lsn": s.end}, "Put": {"messages": s.hist(s.end, s.end, s.log)}, "DiscardOld": {"start_lsn": s.b, "require_end": s.mend}, "Internal": {}}
        v = s.rng.choice(sorted(x for x in o if x != was))
        k = s.call(t, st, **{**kw, "lbl": s.S.label(v, **o[v])})
        if k[0] == "to": s.report("JournalCoordinationSystem.%s is taken under the label %s; %s" % (t, v, show()))
        s.count("hostile:" + ("refused" if k[0] != "?" else "open"))
        if k[0] == "?": s.note("%s under %s: %s" % (t, v, k[1]))
        return None
    def j_put(s, st, h):
        n = s.rng.randrange(0, 4); at = s.end
        if h: at = max(0, at + s.rng.choice([-1, 1]))
        new = [s.msg() for _ in range(n)]
        msgs = s.MH(msgs=Map({at + i: x for i, x in enumerate(new)}), seq_start=at, seq_end=at + n)
        legal = at == s.end
        kw = {"lbl": s.S.label("Put", messages=msgs)}
        k = s.J.go("put", st.journal, s.J.label("Put", messages=msgs))
        if k[0] == "to": kw["new_journal"] = k[1]
        if not h and s.rng.random() < .1 and n: kw["new_journal"] = st.journal; legal = False
        def eff():
            for i, x in enumerate(new): s.log[at + i] = x
            s.end += n; s.count("messages put", n)
        return "put", kw, legal, eff
    def fixed(s): return set(s.pages_on(s.m.disk, s.pb, s.pf))
    def j_marshal(s, st, h):
        if s.end == s.mend and not h: return None
        free = sorted(s.writable() - set(s.index.values()) - s.fixed(), key=repr)
        cut = s.rng.randrange(s.mend + 1, s.end + 1) if s.end > s.mend else s.mend + 1
        if not free and not h: return None
        q = s.rng.randrange(5) if h else 9
        addr = s.rng.choice(free) if free else s.rng.choice(sorted(set(s.addrs) - s.fixed(), key=repr))
        if q == 0: addr = s.rng.choice(sorted(set(s.addrs) - s.fixed(), key=repr))
        if q == 1 and s.index: addr = s.rng.choice(sorted(s.index.values(), key=repr))
        if q == 2: cut = s.rng.choice([s.mend, s.end + 1])
        cut = min(cut, s.end)
        r = s.JR(message_seq=s.hist(s.mend, cut, s.log), prior_rec=s.f)
        if q == 3: r = s.JR(message_seq=r.message_seq, prior_rec=NONE if s.f._v == "Some" else Some(s.rng.choice(s.addrs)))
        legal = addr in s.writable() and addr not in s.index.values() and s.mend < cut <= s.end and r.prior_rec == s.f
        p = s.page(r); z = s.jmodel(cut, addr, r)
        kw = {"lbl": s.sym("Internal"), "new_journal": z, "addr": addr, "record": r}
        w = Model(s.m.n, s.m.disk); w.slot = dict(s.m.slot); w.reqs = s.m.reqs
        if addr in s.m.at(): w.slot[s.m.at()[addr]] = ("F", addr, p, "Dirty")
        kw["new_cache"] = s.cstate(w)
        if q == 4 and legal:
            if s.rng.random() < .5: kw["new_cache"] = st.cache; legal = False
            else: kw["new_journal"] = st.journal; legal = False
        def eff():
            s.m.slot[s.m.at()[addr]] = ("F", addr, p, "Dirty"); s.m.last[addr] = p
            s.rec[addr] = r; s.f = Some(addr); s.mend = cut; s.reindex(); s.count("records marshalled")
        return "journal_marshal", kw, legal, eff
    def jmodel(s, cut, addr, r):
        h = r.message_seq
        return s.J.State(boundary_lsn=s.b, freshest_rec=Some(addr), unmarshalled_tail=s.hist(cut, s.end, s.log), lsn_addr_index=Map({**s.index, **{l: addr for l in range(h.seq_start, h.seq_end)}}))
    def seen_reads(s, must):
        rd = s.readable(); out = {a: rd[a] for a in must if a in rd}
        for a in s.rng.sample(sorted(rd, key=repr), s.rng.randrange(0, min(2, len(rd)) + 1)):
            try: s.record(rd[a])
            except rt.Unjudged: continue
            out[a] = rd[a]
        return out
    def j_read(s, st, h):
        ps = s.pages(s.rec, s.b, s.f)
        if not ps: return None
        a = s.rng.choice(ps); legal = a in s.readable(); rds = s.seen_reads([a]); r = s.rec[a]
        ms = s.hist(max(r.message_seq.seq_start, s.b), r.message_seq.seq_end, s.log)
        if h:
            q = s.rng.randrange(3)
            if q == 0: ms = s.MH(msgs=Map({**ms.msgs.d, ms.seq_start: s.msg()}), seq_start=ms.seq_start, seq_end=ms.seq_end); legal = False
            elif q == 1 and ms.seq_end > s.b + 1 and len(ms.msgs.d) > 1: ms = s.hist(ms.seq_start + 1, ms.seq_end, s.log); legal = False
            else: rds.pop(a, None)
        if h and s.rng.random() < .3: x = s.rng.choice(s.addrs); rds[x] = s.page(r)
        legal = all(s.readable().get(x) == p for x, p in rds.items()) and any(x in rds and s.same(x, ms) for x in ps) and all(s.log.get(l) == x for l, x in ms.msgs.d.items())
        return "read_for_recovery", {"lbl": s.S.label("ReadForRecovery", messages=ms), "reads": Map(rds)}, legal, lambda: s.count("records read for recovery")
    def same(s, a, ms): r = s.rec[a].message_seq; return (max(r.seq_start, s.b), r.seq_end) == (ms.seq_start, ms.seq_end)
    def j_freeze(s, st, h):
        ps = s.pages(s.rec, s.b, s.f); bad = {x[1] for x in s.m.slot.values() if x and not (x[0] == "F" and x[3] == "Clean")}
        i = s.rng.randrange(0, len(ps) + 1) if h else next((i for i, a in enumerate(ps) if s.rng.random() < .7 and not set(ps[i:]) & bad and a in s.readable()), len(ps))
        if i == len(ps): f, e = NONE, s.b
        else: f, e = Some(ps[i]), s.rec[ps[i]].message_seq.seq_end
        if i == len(ps): b = s.b
        else: b = s.rng.randrange(s.b, e)
        if h: b = max(0, b + s.rng.choice([0, 0, -1, 1]))
        dom = {s.index[l] for l in range(b, e) if l in s.index}
        rds = s.seen_reads([] if f is NONE else [f._0])
        legal = s.b <= b and (b < e if f._v == "Some" else b == s.b == e) and (f._v == "None" or f._0 in rds) and not dom & bad
        if f._v == "None" and ps: legal = legal and s.can_none(ps)
        if h and s.rng.random() < .4:
            if s.rng.random() < .5 and dom: dom = dom - {s.rng.choice(sorted(dom, key=repr))}; legal = False
            else:
                x = s.rng.choice(s.addrs)
                if x not in dom: dom = dom | {x}; legal = False
        def eff():
            x = s.holds(None, None, st.disk.content.d, b, f, e)
            if x: s.report("JournalCoordinationSystem.freeze_for_commit of [%s,%s) at %r: on the disk %s; from %r" % (b, e, f, x, st))
            s.count("images frozen")
            if e >= s.pend and s.rng.random() < .8: s.pb, s.pf, s.pend = b, f, e; s.count("images committed")
        return "freeze_for_commit", {"lbl": s.S.label("FreezeForCommit", frozen=s.snapof(b, f)), "frozen_domain": Set(dom), "reads": Map(rds)}, legal, eff
    def can_none(s, ps): return len(ps) <= 5
    def j_end(s, st, h):
        e = s.end + (s.rng.choice([-1, 1]) if h else 0)
        if e < 0: e = 1
        return "query_end_lsn", {"lbl": s.S.label("QueryEndLsn", end_lsn=e)}, e == s.end, None
    def j_discard(s, st, h):
        to = s.rng.randrange(s.b, s.mend + 1); end = s.mend
        if h and s.rng.random() < .4: to = s.rng.choice([s.b - 1, s.mend + 1]) if s.b else s.mend + 1
        if h and s.rng.random() < .3: end = end + s.rng.choice([-1, 1]) if end else 1
        if to < 0: return None
        bad = {x[1] for x in s.m.slot.values() if x and not (x[0] == "F" and x[3] == "Clean")}
        ix = {l: a for l, a in s.index.items() if l >= to}; gone = set(s.index.values()) - set(ix.values())
        if gone & bad and not h: return None
        legal = s.b <= to <= end == s.mend and not gone & bad; tell = set(gone)
        if h and s.rng.random() < .4:
            tell = tell - {s.rng.choice(sorted(tell, key=repr))} if tell and s.rng.random() < .5 else tell | {s.rng.choice(s.addrs)}
            legal = legal and tell == gone
        nj = s.J.State(boundary_lsn=to, freshest_rec=NONE if to == end else s.f, unmarshalled_tail=st.journal.unmarshalled_tail, lsn_addr_index=Map(ix))
        def eff():
            s.skip = s.end > s.mend
            s.b = to; s.f = NONE if to == s.mend else s.f; s.reindex(); s.count("pages discarded", len(gone))
        return "discard_old", {"lbl": s.S.label("DiscardOld", start_lsn=to, require_end=end), "new_journal": nj, "discard_addrs": Set(tell)}, legal, eff
    def applied(s, eff):
        """the cache and disk of the model after eff"""
        was = s.m; m = Model(was.n, was.disk); m.slot, m.reqs, m.q, m.last = dict(was.slot), dict(was.reqs), dict(was.q), dict(was.last)
        st, s.stat = s.stat, {}
        s.m = m
        try:
            if eff: eff()
            return s.cstate(m), s.dstate(m), m
        except (KeyError, TypeError, IndexError): return None
        finally: s.m = was; s.stat = st
    def j_internal(s, st, h):
        p = getattr(s, "p_" + s.rng.choice(["reserve", "reserve", "evict", "evict", "noop"]))(h)
        if p is None: return None
        t, a, legal, eff = p
        z = s.applied(eff)
        if z is None or not legal and (z[0] == st.cache or t == "evict" and all(s.m.slot[i] is None or s.m.slot[i][0] == "F" and s.m.slot[i][3] == "Clean" for i in a[1].s)): return None
        kw = {"lbl": s.sym("Internal"), "new_cache": z[0]}
        if h and legal and s.rng.random() < .4:
            kw["new_cache"] = s.mess(z[0])
            if kw["new_cache"] is None: return None
            legal = False
        return "cache_internal", kw, legal, eff
    def mess(s, c):
        """a cache that no step gives: a page changes, or its state"""
        fill = [i for i, e in c.entries.d.items() if e._v == "Filled"]
        if not fill: return None
        i = s.rng.choice(fill); e = c.entries.d[i]
        if s.rng.random() < .5: return s.K.State(entries=Map({**c.entries.d, i: s.Fill(addr=e.addr, data=s.junk())}), status_map=c.status_map, lookup_map=c.lookup_map, outstanding_reqs=c.outstanding_reqs)
        return s.K.State(entries=c.entries, status_map=Map({**c.status_map.d, i: s.ST["Clean"] if c.status_map.d[i] != s.ST["Clean"] else s.ST["Dirty"]}), lookup_map=c.lookup_map, outstanding_reqs=c.outstanding_reqs)
    def j_diskops(s, st, h):
        p = getattr(s, "p_" + s.rng.choice(["load"] * 2 + ["loaded"] * 3 + ["writeback"] * 4 + ["written"] * 4 + ["mixed"] * 2))(h)
        if p is None: return None
        t, a, legal, eff = p; l = a[0]
        z = s.applied(eff)
        if z is None: return None
        kw = {"lbl": s.sym("Internal"), "new_cache": z[0], "new_disk": z[1], "requests": l.requests, "responses": l.responses}
        s.univ(l)
        if h and legal:
            q = s.rng.randrange(3)
            if q == 0: kw["new_disk"] = st.disk; legal = False
            elif q == 1: kw["new_cache"] = st.cache; legal = False
            else:
                x = s.mess(z[0])
                if x is not None: kw["new_cache"] = x; legal = False
        s.count("tried:" + t)
        return "cache_disk_ops", kw, legal, eff
    def j_disk(s, st, h):
        m = s.m
        if not m.q: return None
        i = s.rng.choice(sorted(m.q)); k, x = m.q[i]
        if k not in ("read", "write"): return None
        def eff():
            if k == "read": s.m.q[i] = ("data", s.m.disk[x])
            else: s.m.disk[x[0]] = x[1]; s.m.q[i] = ("ok", None)
        z = s.applied(eff); nd = z[1]; legal = True
        if h:
            q = s.rng.randrange(3)
            if q == 0: nd = s.D.State(requests=nd.requests, responses=nd.responses, content=Map({**nd.content.d, s.rng.choice(s.addrs): s.junk()}))
            elif q == 1: nd = s.D.State(requests=st.disk.requests, responses=nd.responses, content=nd.content)
            else: nd = s.D.State(requests=nd.requests, responses=st.disk.responses, content=nd.content)
            legal = False
        return "disk_internal", {"lbl": s.sym("Internal"), "new_disk": nd}, legal, eff
    def crash(s, st):
        k = s.D.go("crash", st.disk, s.D.label("Crash"))
        if k[0] == "?": s.note("crash " + k[1]); return None
        if k[0] != "to": s.report("AsyncDisk.crash is not possible: %r" % (st.disk,))
        d = k[1]
        if d.requests.d or d.responses.d or d.content != st.disk.content: s.report("AsyncDisk.crash: %r -> %r" % (st.disk, d))
        s.m = Model(len(s.pages_on(s.m.disk, s.pb, s.pf)) + s.rng.randrange(1, 4), s.m.disk)
        s.log = {l: x for l, x in s.log.items() if l < s.pend}
        s.count("crashes")
        return s.boot()
def make(repo, seed, report): return C(repo, seed, report)
if __name__ == "__main__":
    import sys, time
    def rep(m): print("VIOL", m[:9000]); sys.exit(1)
    t = time.time(); j = make(sys.argv[1], int(sys.argv[2]), rep); n = 0
    print("load", time.time() - t)
    while time.time() - t < float(sys.argv[3]): j.episode(n); n += 1
    for k, v in sorted(j.stat.items()): print(v, k)
    print(n, "episodes")
