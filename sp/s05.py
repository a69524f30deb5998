"""The store with its disk: SystemModel over ConcreteProgramModel (AtomicState) and AsyncDisk, with its refinement to CrashTolerantAsyncMap."""
import random
import mon, rt
from mon import judge
from rt import Seq, Set, Map, Multiset, Some, NONE
DIRS = ("trusted", "implementation")
class Pages:
    """the superblock's byte image: closed functions in the tree (marshall, unmarshall), inverse of each other; here an index in a table"""
    def __init__(s): s.tab = []
    def marsh(s, sb):
        for i, x in enumerate(s.tab):
            if x == sb: break
        else: i = len(s.tab); s.tab.append(sb)
        return Seq([83, 66, i // 256, i % 256])
    def unmarsh(s, p):
        t = list(p)
        if len(t) != 4 or t[:2] != [83, 66] or t[2] * 256 + t[3] >= len(s.tab): raise rt.Unjudged("no superblock")
        return s.tab[t[2] * 256 + t[3]]
class C:
    KEYS = 3
    def __init__(s, repo, seed, report):
        s.rng = random.Random(seed); s.report = report
        s.pg = Pages()
        rt.U.over["implementation__DiskLayout_v__spec_marshall"] = lambda f: lambda sb: s.pg.marsh(sb)
        rt.U.over["implementation__DiskLayout_v__spec_unmarshall"] = lambda f: lambda p: s.pg.unmarsh(p)
        rt.U.over["spec__AsyncDisk_t__page_count"] = lambda f: lambda: 8
        rt.U.over["spec__AsyncDisk_t__au_count"] = lambda f: lambda: 8
        s.r = mon.Run(repo, s.rng, dirs=DIRS)
        m, g = s.r.m, s.r.w.G
        s.g = g
        s.S, s.D, s.T, s.A, s.MS = (m[n] for n in ("SystemModel", "AsyncDisk", "CrashTolerantAsyncMap", "AsyncMap", "MapSpec"))
        q = lambda n: g["spec__MapSpec_t__" + n]
        s.Req, s.Rep, s.QI, s.PI, s.QO, s.PO, s.NI, s.NO, s.PS = (q(n) for n in ("Request", "Reply", "Input__QueryInput", "Input__PutInput", "Output__QueryOutput", "Output__PutOutput__unit", "Input__NoopInput__unit", "Output__NoopOutput__unit", "PersistentState"))
        s.TK = g["spec__TotalKMMap_t__TotalKMMap"]; s.FS = g["spec__FloatingSeq_t__FloatingSeq"]
        s.Key = g["spec__KeyType_t__Key"]; s.Val = g["spec__Messages_t__Value"]; s.Def = g["spec__Messages_t__Message__Define"]
        s.PM = g["implementation__ConcreteProgramModel_v__ConcreteProgramModel"]
        a = lambda n: g["implementation__AtomicState_v__" + n]
        s.AS, s.IF = a("AtomicState"), a("InflightInfo")
        s.BEGIN, s.WAIT, s.DONE = (a("RecoveryState__%s__unit" % n) for n in ("Begin", "AwaitingSuperblock", "RecoveryComplete"))
        s.EV = {n: a("DiskEvent__" + n) for n in ("InitiateRecovery", "CompleteRecovery", "ExecuteSyncBegin")}; s.EVEND = a("DiskEvent__ExecuteSyncEnd__unit")
        s.SB = g["implementation__DiskLayout_v__Superblock"]; s.RP = g["implementation__ModelRefinement_v__RefinementProof"]
        t = lambda n: g["trusted__ProgramModelTrait_t__" + n]
        s.Info, s.Exec, s.AccS, s.DelS = t("ProgramDiskInfo"), t("ProgramUserOp__Execute"), t("ProgramUserOp__AcceptSyncRequest"), t("ProgramUserOp__DeliverSyncReply")
        d = lambda n: g["spec__AsyncDisk_t__" + n]
        s.Addr, s.Read, s.Write, s.RResp, s.WResp = d("Address"), d("GenericDiskRequest__ReadReq"), d("GenericDiskRequest__WriteReq"), d("GenericDiskResponse__ReadResp"), d("GenericDiskResponse__WriteResp__unit")
        s.keys = [s.Key(i) for i in range(s.KEYS)]; s.SBA = s.Addr(au=0, page=0)
        rt.U.by["spec__KeyType_t__Key"] = s.keys
        rt.U.by["implementation__AtomicState_v__DiskEvent"] = lambda: s.events
        rt.U.by["#ints"] = lambda: s.window
        rt.U.by["?K"] = lambda: s.kids
        s.kids = []; s.events = []; s.window = list(range(-1, 10))
        s.D.params = {"id": lambda a, b, l, acc: sorted(a.requests.d)}
        s.T.params = {"new_versions": lambda a, b, l, acc: [b.versions], "new_async_ephemeral": lambda a, b, l, acc: [b.async_ephemeral], "new_stable_index": lambda a, b, l, acc: [b.versions.start]}
        def mlab(a, b, l, acc):
            if l._v != "ExecuteOp": return []
            return [s.MS.label(v, input=l.req.input, output=l.reply.output) for v in ("Query", "Put", "Noop")]
        s.A.params = {"map_label": mlab, "post_persistent": lambda a, b, l, acc: [b.persistent]}
        s.stat = {}; s.seen = set(); s.samples = []; s.n = 0; s.findings = []; s.known_tried = 0
    def judged(s): return s.stat.get("steps judged", 0)
    def count(s, k): s.stat[k] = s.stat.get(k, 0) + 1
    def note(s, t): s.count("why:" + t[:170])
    # ---- values
    def ps(s, d): return s.PS(appv=s.MS.State(kmmap=s.TK(Map({s.Key(k): s.Def(value=s.Val(v)) for k, v in d.items()}))))
    def fs(s, a, l): return s.FS(start=a, entries=Seq([s.ps(d) for d in l]))
    def und(s, ps): return {k._0: v.value._0 for k, v in ps.appv.kmmap._0.d.items()}
    def sb(s, v): return s.SB(store=s.ps(s.vers[v]), version_index=v)
    # ---- the model: vers[v] is the store after v effective operations; landed is the version on disk
    def expected(s):
        """program state and disk as they should be"""
        rq = {}; rs = {}
        for i, (k, x) in s.dq.items():
            if k == "read": rq[i] = s.rd()
            elif k == "write": rq[i] = s.Write(to=s.SBA, data=s.pg.marsh(s.sb(x)))
            elif k == "data": rs[i] = s.RResp(data=s.pg.marsh(s.sb(x)))
            elif k == "ok": rs[i] = s.WResp
        return rq, rs
    def state_bad(s, st):
        p, d = st.program.state, st.disk
        ph = {"begin": s.BEGIN, "wait": s.WAIT, "up": s.DONE}[s.ph]
        if p.recovery_state != ph: return "the recovery state is %r, should be %r" % (p.recovery_state, ph)
        rq, rs = s.expected()
        if d.requests.d != rq: return "disk requests %r, should be %r" % (d.requests, rq)
        if d.responses.d != rs: return "disk responses %r, should be %r" % (d.responses, rs)
        if d.content.d.get(s.SBA) != s.pg.marsh(s.sb(s.landed)): return "the disk's superblock is %r, it should hold version %s" % (d.content, s.landed)
        if s.ph == "up":
            h = p.history
            if (h.start, [s.und(x) for x in h.entries]) != (s.low, s.vers[s.low:]): return "the history in memory is %r, should be versions %s.. of %s" % (h, s.low, s.vers)
            if p.persistent_version != s.low: return "the persistent version is %s, should be %s" % (p.persistent_version, s.low)
            f = None if p.in_flight._v == "None" else (p.in_flight._0.version, p.in_flight._0.req_id)
            if f != s.fly: return "in flight is %s, should be %s" % (f, s.fly)
            if dict(p.sync_req_map.d) != s.syncs: return "syncs to answer %r, should be %r" % (p.sync_req_map, s.syncs)
        if dict(st.requests.d) != {r: 1 for r in s.reqs.values()}: return "requests %r, should be %r" % (st.requests, s.reqs)
        if dict(st.replies.d) != {r: 1 for r in s.reps}: return "replies %r, should be %r" % (st.replies, s.reps)
        if dict(st.sync_requests.d) != {i: 1 for i in s.wants}: return "sync requests %r, should be %r" % (st.sync_requests, s.wants)
        if dict(st.sync_replies.d) != {i: 1 for i in s.sreps}: return "sync replies %r, should be %r" % (st.sync_replies, s.sreps)
        return None
    # ---- episodes
    def episode(s, n):
        s.pg.tab.clear()
        s.vers = [{k._0: 0 for k in s.keys}]; s.landed = s.low = 0; s.ph = "begin"; s.fly = None; s.dq = {}; s.syncs = {}; s.reqs = {}; s.reps = set(); s.wants = set(); s.sreps = set(); s.id = 0; s.acked = 0; s.used = set()
        s.fromname = s.Read._fields[0]
        init = judge(s.MS.w.G["spec__MapSpec_t__my_init"])
        if init[0] == "is": s.vers = [{k._0: s.und(s.PS(appv=init[1]))[k._0] for k in s.keys}]
        pm = s.PM(state=s.AS.m_init())
        dk = s.D.State(requests=Map(), responses=Map(), content=Map({s.SBA: s.pg.marsh(s.SB(store=s.PS(appv=init[1]) if init[0] == "is" else s.ps(s.vers[0]), version_index=0))}))
        if s.rng.random() < .2:
            q = s.rng.randrange(4); bad = dk; bp = pm; o = dict(s.vers[0]); o[1] = 5
            if q == 0: bad = s.D.State(requests=Map({1: s.rd()}), responses=Map(), content=dk.content)
            elif q == 1: bad = s.D.State(requests=Map(), responses=Map({1: s.WResp}), content=dk.content)
            elif q == 2: bad = s.D.State(requests=Map(), responses=Map(), content=Map({s.SBA: s.pg.marsh(s.SB(store=s.ps(o if s.rng.random() < .5 else s.vers[0]), version_index=1))}))
            else: bad = s.D.State(requests=Map(), responses=Map(), content=Map({s.Addr(au=0, page=1): dk.content.d[s.SBA]}))
            k = s.S.go("initialize", None, bp, bad)
            if k[0] == "to": s.report("SystemModel starts on a disk that is not fresh: %r" % (bad,)); return
            s.count("hostile:refused" if k[0] == "no" else "hostile:open")
        k = s.S.go("initialize", None, pm, dk)
        if k[0] == "?": s.note("initialize " + k[1]); return
        if k[0] != "to": s.report("SystemModel cannot start on a disk from mkfs"); return
        st = k[1]
        x = s.state_bad(st)
        if x: s.report("SystemModel.initialize: " + x); return
        u = judge(s.RP.m_i, st)
        if u[0] == "?": s.note("i " + u[1])
        else:
            k = judge(s.T.starts, u[1])
            if k[0] == "is" and not k[1]: s.report("a fresh store is not an empty CrashTolerantAsyncMap: %r" % (u[1],)); return
            s.count("refined:initial" if k[0] == "is" else "refine:open")
        s.calm = s.rng.random() < .6
        st = s.concrete(st)
        for i in range(160 if s.calm else 70):
            st = s.step(st)
            if st is None: return
            s.count("states")
    def concrete(s, st):
        """a program that starts has arbitrary contents: pick some"""
        p = st.program.state
        if s.ph != "begin" or s.rng.random() < .3: return st
        d = {k._0: s.rng.randrange(s.n + 2) for k in s.keys}; v = s.rng.choice([0, s.landed, s.landed + 1])
        x = {"history": s.fs(v, [d]), "persistent_version": v, "in_flight": s.rng.choice([NONE, Some(s.IF(version=v, req_id=3))]), "sync_req_map": Map({i: v for i in s.wants if s.rng.random() < .5})}
        kw = {n: y for n, y in x.items() if getattr(p, n) is rt.ARB}
        if not kw: return st
        s.count("programs started with some contents")
        f = {n: getattr(st, n) for n in st._fields}; f["program"] = s.prog(st, **kw)
        return s.S.State(**f)
    def go(s, t, st, a, proper, eff):
        """one step; -> new state, None after a report"""
        show = lambda: "SystemModel.%s%r from %r" % (t, tuple(a), st)
        k = s.S.go(t, st, *a)
        if k[0] == "broken": s.report("an assertion fails in " + show()[:1600]); return None
        if k[0] == "?": s.count(("proper" if proper else "hostile") + ":open"); s.note(t + " " + k[1]); return st
        if k[0] == "no":
            if proper: s.report("SystemModel.%s is not possible: %s" % (t, show()[:2600])); return None
            s.count("hostile:refused"); return st
        post = k[1]
        if not proper and post == st and eff is None: s.count("hostile:nothing"); return st
        x = eff() if eff else None
        if x: s.report("SystemModel.%s: %s; %s" % (t, x, show())); return None
        s.count("step:" + t)
        if not proper: s.count("hostile:taken")
        if t == "crash" and not post.sync_replies.d: s.sreps = set()
        x = s.state_bad(post)
        if x: s.report("SystemModel.%s: %s; %s" % (t, x, show())); return None
        s.count("steps judged")
        try: s.seen.add(hash((t, post)))
        except TypeError: s.seen.add(hash((t, repr(post))))
        if len(s.seen) in (30, 300) and len(s.samples) < 4: s.samples.append("%s -> %s" % (t, repr(post)[:300]))
        s.window = list(range(-1, len(s.vers) + 2))
        u, v, l = judge(s.RP.m_i, st), judge(s.RP.m_i, post), judge(s.RP.m_i_lbl, st, post, a[0])
        if "?" in (u[0], v[0], l[0]): s.count("refine:open"); s.note("i %s %s" % (t, [z[1] for z in (u, v, l) if z[0] == "?"])); return post
        ver = v[1].versions
        want = (s.landed, s.vers[s.landed:] if s.ph == "up" else s.vers[s.landed:s.landed + 1])
        if (ver.start, [s.und(x) for x in ver.entries]) != want: s.report("SystemModel.%s: the abstract store has the versions %r, should be %s; %s" % (t, ver, want, show())); return None
        s.count("versions compared")
        k = judge(a[0].m_label_correspondence, l[1])
        if k[0] == "is" and k[1] is not True: s.report("SystemModel.%s: %r stands for %r" % (t, a[0], l[1])); return None
        s.count("label:" + ("judged" if k[0] == "is" else "open"))
        k = judge(s.T.next, u[1], v[1], l[1])
        if k[0] == "?": s.count("refine:open"); s.note("%s to CrashTolerantAsyncMap: %s" % (t, k[1])); return post
        if k[1] is None: s.report("SystemModel.%s is no step of CrashTolerantAsyncMap: %s -> %s under %r; %s" % (t, repr(u[1])[:400], repr(v[1])[:400], l[1], show())); return None
        s.count("refined:CrashTolerantAsyncMap")
        return post
    def step(s, st):
        rng = s.rng; h = rng.random() < .3
        acts = ["request"] * 5 + ["execute"] * 12 + ["reply"] * 3 + ["reqsync"] * 2 + ["progsync"] * 3 + ["progreply"] * 3 + ["replysync", "internal", "strange"] + ["read0"] * 2 + ["read1"] * 2 + ["write0"] * 3 + ["write1"] * 3 + ["disk"] * 5 + ["crash"] * (1 if s.calm else 3)
        if s.ph != "up" and not h: acts = ["read0", "read1", "disk", "disk", "request", "crash" if rng.random() < .3 else "disk"]
        c = getattr(s, "do_" + rng.choice(acts))(st, h)
        if c is None: return st
        if h and rng.random() < .15:
            l = s.lab(rng.choice(["Noop", "Crash", "DiskInternal", "ProgramInternal"]))
            if l._v != c[1][0]._v:
                k = s.S.go(c[0], st, l, *c[1][1:])
                if k[0] == "to" and k[1] != st: s.report("SystemModel.%s happens under the label %r: %r -> %r" % (c[0], l, st, k[1])); return None
                s.count("other labels:" + {"to": "no change", "no": "refused"}.get(k[0], "open"))
            return st
        z = s.go(c[0], st, *c[1:])
        return s.concrete(z) if c[0] == "crash" and z is not None else z
    def lab(s, v, **kw): return s.S.label(v, **kw)
    def prog(s, st, **kw):
        """the program state with changed parts"""
        p = st.program.state
        f = {n: getattr(p, n) for n in p._fields}
        f.update(kw); return s.PM(state=s.AS(**f))
    # ---- requests
    def mk(s):
        s.n += 1; q = s.rng.random()
        return s.QI(key=s.rng.choice(s.keys)) if q < .3 else s.NI if q < .38 else s.PI(key=s.rng.choice(s.keys), value=s.Val(s.n if s.rng.random() < .8 else s.rng.randrange(4)))
    def do_request(s, st, h):
        fresh = True
        if h and s.used and s.rng.random() < .6: i = s.rng.choice(sorted(s.used)); fresh = False
        else: s.id += 1; i = s.id
        r = s.Req(input=s.mk(), id=i)
        def eff():
            if not fresh: return "a request was accepted with the used id %s" % i
            s.reqs[i] = r; s.used.add(i)
        return "accept_request", [s.lab("AcceptRequest", req=r)], fresh, eff
    def do_execute(s, st, h):
        if s.reqs and not (h and s.rng.random() < .2): r = s.rng.choice(sorted(s.reqs.values(), key=repr))
        elif h: r = s.Req(input=s.mk(), id=s.rng.randrange(1, s.id + 2))
        else: return None
        cur = s.vers[-1]; new = dict(cur); v = r.input._v
        if v == "QueryInput": out = s.QO(value=s.Val(cur[r.input.key._0]))
        elif v == "PutInput": out = s.PO; new[r.input.key._0] = r.input.value._0
        else: out = s.NO
        i = r.id; l = s.vers[s.low:] + ([new] if v == "PutInput" else []); start = s.low; kw = {}
        if h:
            q = s.rng.randrange(8)
            if q == 0: i += 1
            elif q == 1: out = s.rng.choice([s.QO(value=s.Val(s.rng.randrange(s.n + 1))), s.PO, s.NO])
            elif q == 2: new[s.rng.choice(s.keys)._0] = s.rng.randrange(s.n + 1); l = s.vers[s.low:] + [new]
            elif q == 3: l = l[:-1] or l
            elif q == 4: l = l[1:] or l; start += 1
            elif q == 5: l = l + [new]
            elif q == 6: l = [dict(x) for x in l]; l[s.rng.randrange(len(l))][0] = 777
            else: kw = s.rng.choice([{"persistent_version": s.low + 1}, {"in_flight": Some(s.IF(version=s.low, req_id=0))}, {"sync_req_map": Map({99: 0})}, {"recovery_state": s.BEGIN}])
        p = s.Rep(output=out, id=i)
        up = s.ph == "up"
        post = s.prog(st, history=s.fs(start, l), **kw) if up or h else st.program
        def eff():
            if not up: return "a request was executed before the recovery"
            if s.reqs.get(r.id) != r: return "a request was executed that nobody made"
            if p.id != r.id: return "the reply %r to request %s" % (p, r.id)
            if v == "QueryInput" and out != s.QO(value=s.Val(cur[r.input.key._0])): return "the query is answered %r, the store is %s" % (out, cur)
            if (v == "PutInput") != (out._v == "PutOutput") or (v == "NoopInput") != (out._v == "NoopOutput"): return "%r is answered %r" % (r.input, out)
            old = s.vers[s.low:]
            if start != s.low or l[:len(old)] != old or len(l) > len(old) + 1: return "the history %s from %s becomes %s from %s" % (old, s.low, l, start)
            want = dict(cur)
            if v == "PutInput": want[r.input.key._0] = r.input.value._0
            if l[-1] != want: return "after %r the store is %s, should be %s" % (r.input, l[-1], want)
            s.vers = s.vers[:s.low] + l; del s.reqs[r.id]; s.reps.add(p)
        return "program_execute", [s.lab("ProgramUIOp", op=s.Exec(req=r, reply=p)), post], up and not h, eff
    def do_reply(s, st, h):
        if h: p = s.Rep(output=s.rng.choice([s.PO, s.NO, s.QO(value=s.Val(s.rng.randrange(s.n + 1)))]), id=s.rng.randrange(1, s.id + 2))
        elif s.reps: p = s.rng.choice(sorted(s.reps, key=repr))
        else: return None
        def eff():
            if p not in s.reps: return "the reply %r was delivered, to deliver were %r" % (p, s.reps)
            s.reps.discard(p)
        return "deliver_reply", [s.lab("DeliverReply", reply=p)], p in s.reps, eff
    # ---- syncs
    def do_reqsync(s, st, h):
        if h and s.used: i = s.rng.choice(sorted(s.used)); fresh = False
        else: s.id += 1; i = s.id; fresh = True
        def eff():
            if not fresh: return "a sync was accepted with the used id %s" % i
            s.wants.add(i); s.used.add(i)
        return "accept_sync_request", [s.lab("AcceptSyncRequest", sync_req_id=i)], fresh, eff
    def do_progsync(s, st, h):
        if not s.wants: return None
        i = s.rng.choice(sorted(s.wants)); v = len(s.vers) - 1
        if h: v += s.rng.choice([-1, 1, 0]); v = max(v, 0)
        up = s.ph == "up"
        kw = {"sync_req_map": Map({**s.syncs, i: v})} if up else {}
        if h and s.rng.random() < .3: kw["persistent_version"] = s.low + 1
        post = s.prog(st, **kw)
        def eff():
            if not up: return "a sync was accepted before the recovery"
            if v != len(s.vers) - 1: return "a sync of %s versions covers version %s" % (len(s.vers), v)
            s.wants.discard(i); s.syncs[i] = len(s.vers) - 1
        return "program_accept_sync_request", [s.lab("ProgramUIOp", op=s.AccS(sync_req_id=i)), post], up and not h, eff
    def do_progreply(s, st, h):
        if not s.syncs or s.ph != "up": return None
        i = s.rng.choice(sorted(s.syncs)); v = s.syncs[i]
        m = dict(s.syncs); m.pop(i); kw = {}
        if h and s.rng.random() < .3: m = dict(s.syncs)
        elif h and s.rng.random() < .2: kw = {"history": s.fs(s.low, s.vers[s.low:-1] or s.vers[s.low:])}
        def eff():
            if v > s.landed: return "the sync of version %s was answered, on the disk is %s" % (v, s.landed)
            s.acked = max(s.acked, v); s.syncs.pop(i); s.sreps.add(i); s.count("syncs answered")
        return "program_deliver_sync_reply", [s.lab("ProgramUIOp", op=s.DelS(sync_req_id=i)), s.prog(st, sync_req_map=Map(m), **kw)], not h and v <= s.low, eff
    def do_strange(s, st, h):
        """an answer to a sync nobody asked: a known weakness of AtomicState::deliver_sync_reply"""
        if s.ph != "up" or s.findings or s.known_tried > 40: return None
        s.known_tried += 1
        i = 9000 + s.id
        l = s.lab("ProgramUIOp", op=s.DelS(sync_req_id=i)); k = s.S.go("program_deliver_sync_reply", st, l, st.program)
        s.count("sync answers nobody asked: " + {"to": "taken", "no": "refused"}.get(k[0], "open"))
        if k[0] == "to": s.findings.append("FINDING sync-reply-unasked: SystemModel.program_deliver_sync_reply answers sync %s, outstanding are %s" % (i, sorted(s.syncs)))
        return None
    def do_replysync(s, st, h):
        if h: i = s.rng.randrange(1, s.id + 2)
        elif s.sreps: i = s.rng.choice(sorted(s.sreps))
        else: return None
        def eff():
            if i not in s.sreps: return "a sync reply was delivered that the program did not give"
            s.sreps.discard(i)
        return "deliver_sync_reply", [s.lab("DeliverSyncReply", sync_req_id=i)], i in s.sreps, eff
    # ---- disk traffic of the program
    def msd(s, d): return Multiset({(i, x): 1 for i, x in d.items()})
    def rd(s): return s.Read(**{s.fromname: s.SBA})
    def newid(s): s.id += 1; return 1000 + s.id
    def disk(s, st, h, ev, good, tried, why, apply):
        """a step of the program with the disk: good = what it may do here (requests, responses, changed fields) or None, tried = what it tries"""
        p, d = st.program.state, st.disk
        def args(rq, rs, kw):
            dk = s.D.State(requests=Map({**d.requests.d, **rq}), responses=Map({i: x for i, x in d.responses.d.items() if i not in rs}), content=d.content)
            return [s.lab("ProgramDiskOp", info=s.Info(reqs=s.msd(rq), resps=s.msd(rs))), s.prog(st, **kw), dk]
        rq, rs, kw = tried
        if not h and good is None: return None
        if h:
            q = s.rng.randrange(7)
            if q == 0: rq = {**rq, 500 + s.id: s.Write(to=s.SBA, data=s.pg.marsh(s.sb(s.rng.randrange(len(s.vers)))))}
            elif q == 1: rq = {}
            elif q == 2: rs = {**rs, 600: s.WResp}
            elif q == 3: rs = {}
            elif q == 4: kw = {**kw, **s.rng.choice([{"in_flight": NONE}, {"persistent_version": len(s.vers) - 1}, {"recovery_state": s.DONE}, {"sync_req_map": Map()}, {"history": s.fs(len(s.vers) - 1, s.vers[-1:])}])}
            elif q == 5 and s.dq and rq: i = s.rng.choice(sorted(s.dq)); rq = {i: x for x in rq.values()}
        s.events = [ev] + [s.EVEND]; s.kids = sorted(set(rq) | set(rs) | set(s.dq))
        a = args(rq, rs, kw); ok = good is not None and (not h or judge(lambda: a == args(*good)) == ("is", True))
        def eff():
            if not ok: return why
            apply()
        return "program_disk", a, ok, eff
    def do_read0(s, st, h):
        i = s.newid(); t = ({i: s.rd()}, {}, {"recovery_state": s.WAIT})
        def apply(): s.ph = "wait"; s.dq[i] = ("read", None)
        return s.disk(st, h, s.EV["InitiateRecovery"](req_id=i), t if s.ph == "begin" else None, t, "the recovery starts wrongly", apply)
    def do_read1(s, st, h):
        c = [i for i, (k, x) in s.dq.items() if k == "data"]
        i = c[0] if c else s.newid(); v = w = s.landed
        def t(v, w):
            return {}, {i: s.RResp(data=s.pg.marsh(s.sb(v)))}, {"recovery_state": s.DONE, "history": s.fs(w, [s.vers[w]]), "in_flight": NONE, "persistent_version": w, "sync_req_map": Map()}
        if h and s.rng.random() < .5: v = s.rng.randrange(len(s.vers))
        if h and s.rng.random() < .4: w = s.rng.randrange(len(s.vers))
        def apply(): s.ph = "up"; del s.dq[i]; s.low = s.landed; s.fly = None; s.syncs = {}; del s.vers[s.landed + 1:]; s.count("recoveries")
        return s.disk(st, h, s.EV["CompleteRecovery"](req_id=i, raw_page=s.pg.marsh(s.sb(v))), t(s.landed, s.landed) if s.ph == "wait" and c else None, t(v, w), "the recovery takes version %s while %s is on the disk, or comes in the wrong phase" % (w, s.landed), apply)
    def do_write0(s, st, h):
        i = s.newid(); last = len(s.vers) - 1; v = w = last
        def t(v, w): return {i: s.Write(to=s.SBA, data=s.pg.marsh(s.SB(store=s.ps(s.vers[v]), version_index=w)))}, {}, {"in_flight": Some(s.IF(version=w, req_id=i))}
        if h and s.rng.random() < .5: v = s.rng.randrange(len(s.vers))
        if h and s.rng.random() < .5: w = s.rng.randrange(len(s.vers))
        def apply(): s.fly = (last, i); s.dq[i] = ("write", last); s.count("superblock writes")
        return s.disk(st, h, s.EV["ExecuteSyncBegin"](req_id=i), t(last, last) if s.ph == "up" and not s.fly else None, t(v, w), "the superblock is written wrongly, or while %s is in flight" % (s.fly,), apply)
    def do_write1(s, st, h):
        if s.ph != "up" or not s.fly: return None
        v, i = s.fly; w = a = v
        def t(a, w): return {}, {i: s.WResp}, {"history": s.fs(a, s.vers[a:]), "in_flight": NONE, "persistent_version": w}
        if h and s.rng.random() < .5: w = s.rng.randrange(s.low, len(s.vers))
        if h and s.rng.random() < .3: a = s.rng.randrange(s.low, len(s.vers))
        def apply(): s.low = v; s.fly = None; del s.dq[i]; s.count("superblock writes done")
        return s.disk(st, h, s.EVEND, t(v, v) if s.dq[i][0] == "ok" else None, t(a, w), "the write of version %s leaves versions from %s and persistent %s, or ends before the disk has done it" % (v, a, w), apply)
    # ---- the disk itself
    def do_disk(s, st, h):
        if not s.dq: return None
        i = s.rng.choice(sorted(s.dq)); k, x = s.dq[i]; d = st.disk
        rq, rs, c = dict(d.requests.d), dict(d.responses.d), dict(d.content.d)
        ok = True
        if k == "read": rq.pop(i); rs[i] = s.RResp(data=c[s.SBA]); new = ("data", s.landed)
        elif k == "write": c[s.SBA] = rq.pop(i).data; rs[i] = s.WResp; new = ("ok", None)
        else: ok = False; rs.pop(i); new = None
        if h and ok:
            ok = False; q = s.rng.randrange(5)
            if q == 0: c[s.SBA] = s.pg.marsh(s.sb(s.rng.randrange(len(s.vers)))) if s.rng.random() < .7 else Seq([0])
            elif q == 1: rq[i] = d.requests.d[i]
            elif q == 2: rs = dict(d.responses.d)
            elif q == 3: rs[i] = s.WResp if k == "read" else s.RResp(data=c[s.SBA])
            else: c = dict(d.content.d); ok = k == "read"
        def eff():
            if rq != {j: y for j, y in d.requests.d.items() if j != i} or set(rs) != set(d.responses.d) | {i}: return "the disk loses or repeats a request"
            if k == "read" and (c != d.content.d or rs[i] != s.RResp(data=d.content.d[s.SBA])): return "a read gives or changes something else than the content"
            if k == "write" and (c.get(s.SBA) != d.requests.d[i].data or rs[i] != s.WResp): return "a write leaves %r" % (c,)
            if k == "write": s.landed = x; s.count("superblocks landed")
            if k not in ("read", "write"): return "the disk drops a response"
            s.dq[i] = new
            if s.landed < s.acked: return "version %s landed, version %s was synced" % (s.landed, s.acked)
        return "disk_internal", [s.lab("DiskInternal"), s.D.State(requests=Map(rq), responses=Map(rs), content=Map(c))], ok, eff
    def do_internal(s, st, h):
        if s.ph != "up" and not h: return None
        post = st.program if not h else s.prog(st, persistent_version=s.low + 1 if s.ph == "up" else 0)
        def eff():
            if h or s.ph != "up": return "an internal step changes the program or comes before the recovery"
        return "program_internal", [s.lab("ProgramInternal"), post], s.ph == "up" and not h, eff
    def do_crash(s, st, h):
        pm = s.PM(state=s.AS.m_init()); c = dict(st.disk.content.d); bad = False; rq = {}
        if h:
            q = s.rng.randrange(3); bad = True
            if q == 0: pm = st.program if s.ph != "begin" else pm; bad = s.ph != "begin"
            elif q == 1: c[s.SBA] = s.pg.marsh(s.sb(s.rng.randrange(len(s.vers)))); bad = c != st.disk.content.d
            else: rq = dict(st.disk.requests.d); bad = bool(rq)
        def eff():
            if bad: return "a crash keeps memory or requests, or changes the disk"
            if s.landed < s.acked: return "the crash loses what was synced"
            s.count("crashes" + (" before the recovery" if s.ph != "up" else " with a landed superblock unanswered" if s.fly and s.dq[s.fly[1]][0] == "ok" else " with a superblock in flight" if s.fly else ""))
            if len(s.vers) > s.landed + 1: s.count("crashes that lose operations")
            del s.vers[s.landed + 1:]
            s.ph = "begin"; s.fly = None; s.dq = {}; s.syncs = {}; s.reqs = {}; s.reps = set(); s.wants = set()
        return "crash", [s.lab("Crash"), pm, s.D.State(requests=Map(rq), responses=Map(), content=Map(c))], not bad, eff
def make(repo, seed, report): return C(repo, seed, report)
if __name__ == "__main__":
    import sys, time
    def rep(m): print("VIOL", m[:3000]); sys.exit(1)
    t = time.time(); j = make(sys.argv[1], int(sys.argv[2]), rep); n = 0
    print("load", time.time() - t)
    while time.time() - t < float(sys.argv[3]): j.episode(n); n += 1
    for k, v in sorted(j.stat.items()): print(v, k)
    print(n, "episodes")
