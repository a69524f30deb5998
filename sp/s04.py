"""The crash-tolerant store: CoordinationSystem over CrashTolerantJournal and CrashTolerantMap, with its refinement to CrashTolerantAsyncMap."""
import random
import mon, rt, journal
from mon import judge
from rt import Seq, Set, Map, Some, NONE
class C:
    KEYS = 4
    def __init__(s, repo, seed, report):
        s.rng = random.Random(seed); s.r = mon.Run(repo, s.rng); s.report = report
        m, g = s.r.m, s.r.w.G
        s.g = g
        s.C, s.T, s.A, s.MS, s.J, s.M, s.AJ, s.AM = (m[n] for n in ("CoordinationSystem", "CrashTolerantAsyncMap", "AsyncMap", "MapSpec", "CrashTolerantJournal", "CrashTolerantMap", "AbstractJournal", "AbstractMap"))
        s.Req, s.Rep, s.QI, s.PI, s.QO, s.PO = (g["spec__MapSpec_t__" + n] for n in ("Request", "Reply", "Input__QueryInput", "Input__PutInput", "Output__QueryOutput", "Output__PutOutput__unit"))
        s.NI, s.NO = g["spec__MapSpec_t__Input__NoopInput__unit"], g["spec__MapSpec_t__Output__NoopOutput__unit"]
        s.KM = g["abstract_system__MsgHistory_v__KeyedMessage"]; s.MH = g["abstract_system__MsgHistory_v__MsgHistory"]; s.Stamped = g["abstract_system__StampedMap_v__Stamped"]; s.TK = g["spec__TotalKMMap_t__TotalKMMap"]
        s.Key = g["spec__KeyType_t__Key"]; s.Val = g["spec__Messages_t__Value"]; s.Def = g["spec__Messages_t__Message__Define"]
        s.keys = [s.Key(i) for i in range(s.KEYS)]
        rt.U.by["spec__KeyType_t__Key"] = s.keys
        s.window = list(range(-1, 12)); rt.U.by["#ints"] = lambda: s.window
        kn = lambda z: [z.ephemeral.v] if z.ephemeral._v == "Known" else []
        s.J.params = {"new_journal": lambda a, b, l, acc: kn(b), "frozen_journal": lambda a, b, l, acc: [b.in_flight._0] if b.in_flight._v == "Some" else []}
        s.M.params = {"new_map": lambda a, b, l, acc: kn(b) or kn(a), "frozen_map": lambda a, b, l, acc: [b.in_flight._0] if b.in_flight._v == "Some" else []}
        s.M.params[("query", "new_map")] = lambda a, b, l, acc: kn(a)
        s.T.params = {"new_versions": lambda a, b, l, acc: [b.versions], "new_async_ephemeral": lambda a, b, l, acc: [b.async_ephemeral], "new_stable_index": lambda a, b, l, acc: [b.versions.start]}
        def mlab(a, b, l, acc):
            if l._v != "ExecuteOp": return []
            i, o = l.req.input, l.reply.output
            return [s.MS.label(v, input=i, output=o) for v in ("Query", "Put", "Noop")]
        s.A.params = {"map_label": mlab, "post_persistent": lambda a, b, l, acc: [b.persistent]}
        s.stat = {}; s.seen = set(); s.samples = []; s.n = 0
    def judged(s): return s.stat.get("steps judged", 0)
    def count(s, k): s.stat[k] = s.stat.get(k, 0) + 1
    def note(s, t): s.count("why:" + t[:170])
    # ---- model: log of puts [(key, value)], what is durable, sync requests, requests, replies
    def at(s, n):
        d = {k._0: 0 for k in s.keys}
        for k, v in s.log[:n]: d[k] = v
        return d
    def tk(s, d): return s.TK(Map({s.Key(k): s.Def(value=s.Val(v)) for k, v in d.items()}))
    def stamped(s, n, d=None): return s.Stamped(value=s.tk(d if d is not None else s.at(n)), seq_end=n)
    def hist(s, a, b): return s.MH(msgs=Map({i: s.KM(key=s.Key(s.log[i][0]), message=s.Def(value=s.Val(s.log[i][1]))) for i in range(a, b)}), seq_start=a, seq_end=b)
    def warp(s, h):
        """a damaged history"""
        a, b, d = h.seq_start, h.seq_end, dict(h.msgs.d); k = s.rng.randrange(5)
        if k == 0: b += 1; d[b - 1] = s.KM(key=s.keys[0], message=s.Def(value=s.Val(999)))
        elif k == 1 and b > a: b -= 1; d.pop(b, None)
        elif k == 2 and d: d[s.rng.choice(sorted(d))] = s.KM(key=s.rng.choice(s.keys), message=s.Def(value=s.Val(998)))
        elif k == 3 and a: a -= 1; d[a] = s.KM(key=s.keys[0], message=s.Def(value=s.Val(997)))
        elif b > a: d.pop(a); a += 1
        return s.MH(msgs=Map(d), seq_start=a, seq_end=b)
    def mh(s, h):
        if set(h.msgs.d) != set(range(h.seq_start, h.seq_end)): return None
        try: return h.seq_start, [(m.key._0, m.message.value._0) for _, m in sorted(h.msgs.d.items())]
        except AttributeError: return None
    def sm(s, x): return {k._0: v.value._0 for k, v in x.value._0.d.items()}
    def agree_h(s, h, what):
        x = s.mh(h)
        if x is None: return "%s is damaged: %r" % (what, h)
        a, l = x
        return None if a + len(l) <= len(s.log) and s.log[a:a + len(l)] == l else "%s holds %s from %s, the executed puts are %s" % (what, l, a, s.log)
    def agree_m(s, x, what):
        if x.seq_end > len(s.log): return "%s is stamped %s after %s puts" % (what, x.seq_end, len(s.log))
        return None if s.sm(x) == s.at(x.seq_end) else "%s is %s at %s, it should be %s" % (what, s.sm(x), x.seq_end, s.at(x.seq_end))
    def state_bad(s, st):
        j, m = st.journal, st.mapadt
        x = s.agree_h(j.persistent, "the persistent journal") or s.agree_m(m.persistent, "the persistent map")
        if x: return x
        if not j.persistent.seq_start <= m.persistent.seq_end <= j.persistent.seq_end: return "persistent map at %s, persistent journal [%s,%s)" % (m.persistent.seq_end, j.persistent.seq_start, j.persistent.seq_end)
        if j.persistent.seq_end != s.durable0: return "the persistent journal ends at %s, committed was %s" % (j.persistent.seq_end, s.durable0)
        if m.in_flight._v == "Some":
            x = s.agree_m(m.in_flight._0, "the map in flight")
            if x: return x
        if j.in_flight._v == "Some":
            x = s.agree_h(j.in_flight._0, "the journal in flight")
            if x: return x
            f = j.in_flight._0
            if m.in_flight._v != "Some": return "a journal is in flight without a map"
            if not f.seq_start <= m.in_flight._0.seq_end <= f.seq_end: return "map in flight at %s, journal in flight [%s,%s)" % (m.in_flight._0.seq_end, f.seq_start, f.seq_end)
            if f.seq_end < j.persistent.seq_end: return "the journal in flight ends at %s, before the persistent one" % f.seq_end
        if (st.ephemeral._v == "Some") != s.up: return "the system is %srunning" % ("" if not s.up else "not ")
        if s.up:
            if j.ephemeral._v != "Known" or m.ephemeral._v != "Known": return "running without journal or map"
            ej, em, e = j.ephemeral.v.journal, m.ephemeral.v.stamped_map, st.ephemeral._0
            x = s.agree_h(ej, "the journal in memory") or s.agree_m(em, "the map in memory")
            if x: return x
            if ej.seq_end != len(s.log): return "the journal in memory ends at %s after %s puts" % (ej.seq_end, len(s.log))
            if not ej.seq_start <= m.persistent.seq_end <= em.seq_end <= ej.seq_end: return "in memory: journal [%s,%s), map at %s; persistent map at %s" % (ej.seq_start, ej.seq_end, em.seq_end, m.persistent.seq_end)
            if e.map_lsn != em.seq_end: return "the map's end is noted as %s, it is %s" % (e.map_lsn, em.seq_end)
            if {r.id: r for r in e.progress.requests.s} != s.reqs or len(e.progress.requests.s) != len(s.reqs): return "outstanding requests %r, should be %r" % (e.progress.requests, s.reqs)
            if e.progress.replies.s != frozenset(s.reps): return "replies to deliver %r, should be %r" % (e.progress.replies, s.reps)
            if dict(e.sync_reqs.d) != s.syncs: return "sync requests %r, should be %r" % (e.sync_reqs, s.syncs)
        elif j.ephemeral._v != "Unknown" or m.ephemeral._v != "Unknown": return "state in memory after a crash"
        if st.superblock_in_flight != s.flying: return "superblock in flight: %s, should be %s" % (st.superblock_in_flight, s.flying)
        return None
    # ---- steps
    def episode(s, n):
        s.log = []; s.durable0 = 0; s.landed = 0; s.up = False; s.flying = False; s.reqs = {}; s.reps = set(); s.syncs = {}; s.acked = 0; s.id = 0
        kj = s.J.go("initialize", None); km = s.M.go("initialize", None)
        if kj[0] != "to" or km[0] != "to": s.note("initialize %r %r" % (kj, km)); return
        st = s.C.State(journal=kj[1], mapadt=km[1], ephemeral=NONE, superblock_in_flight=False)
        k = s.C.go("initialize", None, st)
        if k[0] == "?": s.note("initialize " + k[1]); return
        if k[0] != "to": s.report("CoordinationSystem cannot start from empty stores"); return
        st = k[1]
        x = s.state_bad(st)
        if x: s.report("CoordinationSystem.initialize: " + x); return
        s.was = None; s.calm = s.rng.random() < .5; s.hurry = s.rng.random() < .5
        for i in range(150 if s.calm else 60):
            st = s.step(st)
            if st is None: return
            s.count("states")
    def lab(s, v, **kw): return s.C.label("Label", ctam_label=s.T.label(v, **kw))
    def sub(s, m, t, pre, *a):
        k = m.go(t, pre, *a)
        return k[1] if k[0] == "to" else None
    def step(s, st):
        rng = s.rng; h = rng.random() < .25
        j, m = st.journal, st.mapadt
        acts = ["load"] * 4 + ["recover"] * 2 + ["request"] * 5 + ["query"] * 4 + ["put"] * 8 + ["reply"] * 3 + ["jint", "freeze", "freeze", "mint", "reqsync", "reqsync", "replysync", "replysync", "start", "start", "start", "land", "land", "done", "done"] + ["crash"] * (1 if s.calm else 3)
        if s.up and s.C is not None and s.known(st) < len(s.log) and not h: acts += ["recover"] * (20 if s.hurry else 3)
        a = rng.choice(acts)
        if s.up and m.in_flight._v == "Some" and j.in_flight._v == "None" and m.in_flight._0.seq_end < j.persistent.seq_end and rng.random() < .4: a, h = "start", True
        elif s.up and not s.hurry and m.in_flight._v == "None" and s.known(st) < j.persistent.seq_end and rng.random() < .3: a, h = "freeze", False
        if not s.up and not h: a = rng.choice(["load"] * 5 + ["crash"])
        f = getattr(s, "do_" + a)
        c = f(st, j, m, h)
        if c is None: return st
        t, args, proper, eff = c
        show = "CoordinationSystem.%s%r from %r" % (t, tuple(args), st)
        k = s.C.go(t, st, *args)
        if k[0] == "broken": s.report("an assertion fails in " + show[:1600]); return None
        if k[0] == "?": s.count(("proper" if proper else "hostile") + ":open"); s.note(t + " " + k[1]); return st
        if k[0] == "no":
            if proper: s.report("CoordinationSystem.%s is not possible: %s" % (t, show[:1600])); return None
            s.count("hostile:refused"); return st
        post = k[1]
        x = eff() if eff else None       # updates the model; complains where the step must not happen
        if x: s.report("CoordinationSystem.%s: %s; %s" % (t, x, show)); return None
        s.count("step:" + t)
        if not proper: s.count("hostile:taken")
        x = s.state_bad(post)
        if x: s.report("CoordinationSystem.%s: %s; %s" % (t, x, show)); return None
        s.count("steps judged")
        try: s.seen.add(hash((t, post)))
        except TypeError: pass
        if len(s.seen) in (30, 300) and len(s.samples) < 4: s.samples.append("%s -> %s" % (t, repr(post)[:300]))
        s.window = list(range(-1, len(s.log) + 3))
        k = judge(post.m_inv)
        if k[0] == "is" and k[1] is not True: s.report("CoordinationSystem.%s does not keep the invariant; %s" % (t, show)); return None
        s.count("spec:" + ("judged" if k[0] == "is" else "open"))
        if k[0] == "?": s.note("inv " + k[1])
        u, v = judge(st.m_i), judge(post.m_i)
        if "?" in (u[0], v[0]): s.count("refine:open"); s.note("i %s %s" % (t, [z[1] for z in (u, v) if z[0] == "?"])); return post
        ver = v[1].versions
        if s.stable() != ver.start or [({k._0: q.value._0 for k, q in z.appv.kmmap._0.d.items()}) for z in ver.entries] != [s.at(n) for n in range(s.stable(), len(s.log) + 1)]:
            s.report("CoordinationSystem.%s: the abstract store has the versions %r, should be %s..%s of %r; %s" % (t, ver, s.stable(), len(s.log), s.log, show)); return None
        s.count("versions compared")
        l = args[0].ctam_label
        k = judge(s.T.next, u[1], v[1], l)
        if k[0] == "?": s.count("refine:open"); s.note("%s to CrashTolerantAsyncMap: %s" % (t, k[1])); return post
        if k[1] is None: s.report("CoordinationSystem.%s is no step of CrashTolerantAsyncMap: %s -> %s under %r; %s" % (t, repr(u[1])[:400], repr(v[1])[:400], l, show)); return None
        s.count("refined:CrashTolerantAsyncMap")
        return post
    def stable(s): return s.landed
    def known(s, st): return st.ephemeral._0.map_lsn if st.ephemeral._v == "Some" else 0
    def full(s, st): return s.up and s.known(st) == len(s.log)
    def do_load(s, st, j, m, h):
        l = s.lab("Noop")
        img, mp = j.persistent, m.persistent; e = mp.seq_end
        if h:
            q = s.rng.random()
            if q < .3: img = s.warp(img)
            elif q < .6: e += s.rng.choice([-1, 1]); e = max(0, e)
        aj = s.sub(s.AJ, "initialize", None, img)
        if aj is None: return None
        nj = s.sub(s.J, "load_ephemeral_from_persistent", j, s.J.label("LoadEphemeralFromPersistentLabel"), aj)
        nm = s.sub(s.M, "load_ephemeral_from_persistent", m, s.M.label("LoadEphemeralFromPersistentLabel", end_lsn=e))
        if nj is None or nm is None:
            if not h and not s.up: s.report("the persistent state cannot be loaded: %r %r" % (j, m)); return None
            if nj is None: nj = s.J.State(persistent=j.persistent, ephemeral=s.g["abstract_system__AbstractCrashAwareJournal_v__Ephemeral__Known"](v=aj), in_flight=j.in_flight)
            if nm is None: nm = s.M.State(persistent=m.persistent, ephemeral=s.g["abstract_system__AbstractCrashAwareMap_v__Ephemeral__Known"](v=s.AM.State(stamped_map=s.Stamped(value=mp.value, seq_end=e))), in_flight=m.in_flight)
        def eff():
            if s.up: return "the running system is loaded again"
            s.up = True; s.reqs, s.reps, s.syncs = {}, set(), {}
        return "load_ephemeral_from_persistent", [l, nj, nm, e], not h and not s.up, eff
    def do_recover(s, st, j, m, h):
        if not s.up: return None
        k = s.known(st); n = len(s.log)
        if k >= n and not h: return None
        lo, hi = (k, s.rng.randrange(k, n) + 1 if k < n else n)
        if h: lo = max(0, lo + s.rng.choice([-1, 0, 1])); hi = max(lo, hi)
        hi = min(hi, n); lo = min(lo, hi)
        r = s.hist(lo, hi)
        if h and s.rng.random() < .5: r = s.warp(r)
        nm = s.sub(s.M, "put_records", m, s.M.label("PutRecordsLabel", records=r), s.sub(s.AM, "put", m.ephemeral.v, s.AM.label("PutLabel", puts=r)) or m.ephemeral.v) or m
        return "recover", [s.lab("Noop"), j, nm, r], not h, None
    def op(s, **kw): return s.lab("OperateOp", base_op=kw["op"])
    def do_request(s, st, j, m, h):
        q = s.rng.random(); s.id += 1; i = s.id
        if h and s.reqs and s.rng.random() < .5: r = s.rng.choice(list(s.reqs.values()))
        else:
            s.n += 1
            r = s.Req(input=s.QI(key=s.rng.choice(s.keys)) if q < .35 else s.PI(key=s.rng.choice(s.keys), value=s.Val(s.n)), id=i)
        def eff():
            if not s.up: return "a request was accepted before recovery"
            if r.id in s.reqs: return "the request %r was accepted twice" % (r,)
            s.reqs[r.id] = r
        return "accept_request", [s.op(op=s.A.label("RequestOp", req=r))], s.up and r.id not in s.reqs, eff
    def pick(s, h, cls):
        c = [r for r in s.reqs.values() if isinstance(r.input, cls)]
        if c and not (h and s.rng.random() < .2): return s.rng.choice(c)
        if not h: return None
        s.n += 1; return s.Req(input=s.QI(key=s.rng.choice(s.keys)) if cls is s.QI else s.PI(key=s.rng.choice(s.keys), value=s.Val(s.n)), id=s.rng.randrange(1, s.id + 2))
    def do_query(s, st, j, m, h):
        r = s.pick(h, s.QI)
        if r is None or not s.up: return None
        k = r.input.key._0; v = s.sm(m.ephemeral.v.stamped_map)[k]; want = s.at(len(s.log))[k]; i = r.id
        if h and s.rng.random() < .5: v = s.rng.choice([0, s.n, v + 1] + [x for y, x in s.log if y == k])
        if h and s.rng.random() < .2: i += 1
        p = s.Rep(output=s.QO(value=s.Val(v)), id=i)
        def eff():
            if s.reqs.get(r.id) != r: return "a query was executed that nobody asked"
            if p.id != r.id: return "the reply %r to request %s" % (p, r.id)
            if v != want: return "the answer for %s is %s after %s puts, should be %s" % (k, v, len(s.log), want)
            del s.reqs[r.id]; s.reps.add(p)
        return "query", [s.op(op=s.A.label("ExecuteOp", req=r, reply=p)), j, m], not h and s.full(st), eff
    def do_put(s, st, j, m, h):
        r = s.pick(h, s.PI)
        if r is None or not s.up: return None
        i = r.id + (1 if h and s.rng.random() < .2 else 0)
        p = s.Rep(output=s.PO, id=i); n = s.known(st)
        rec = s.MH(msgs=Map({n: s.KM(key=r.input.key, message=s.Def(value=r.input.value))}), seq_start=n, seq_end=n + 1)
        if h and s.rng.random() < .4: rec = s.warp(rec)
        nj = s.sub(s.J, "put", j, s.J.label("PutLabel", records=rec), s.sub(s.AJ, "put", j.ephemeral.v, s.AJ.label("PutLabel", messages=rec)) or j.ephemeral.v)
        nm = s.sub(s.M, "put_records", m, s.M.label("PutRecordsLabel", records=rec), s.sub(s.AM, "put", m.ephemeral.v, s.AM.label("PutLabel", puts=rec)) or m.ephemeral.v)
        if nj is None or h and s.rng.random() < .1: nj = j
        if nm is None or h and s.rng.random() < .1: nm = m
        def eff():
            if s.reqs.get(r.id) != r: return "a put was executed that nobody asked"
            if p.id != r.id: return "the reply %r to request %s" % (p, r.id)
            if n != len(s.log): return "a put was executed before recovery ended"
            s.log.append((r.input.key._0, r.input.value._0)); del s.reqs[r.id]; s.reps.add(p)
        return "put", [s.op(op=s.A.label("ExecuteOp", req=r, reply=p)), nj, nm], not h and s.full(st), eff
    def do_reply(s, st, j, m, h):
        if h: p = s.Rep(output=s.PO if s.rng.random() < .5 else s.QO(value=s.Val(s.rng.randrange(s.n + 1))), id=s.rng.randrange(1, s.id + 2))
        elif s.reps: p = s.rng.choice(sorted(s.reps, key=repr))
        else: return None
        def eff():
            if p not in s.reps: return "the reply %r was delivered, to deliver were %r" % (p, s.reps)
            s.reps.discard(p)
        return "deliver_reply", [s.op(op=s.A.label("ReplyOp", reply=p))], p in s.reps and s.up, eff
    def do_jint(s, st, j, m, h):
        nj = j
        if h and s.up: nj = s.J.State(persistent=j.persistent if s.rng.random() < .6 else s.warp(j.persistent), ephemeral=j.ephemeral, in_flight=j.in_flight if s.rng.random() < .5 else NONE)
        if h and s.up and s.rng.random() < .5 and j.ephemeral._v == "Known": nj = s.J.State(persistent=j.persistent, ephemeral=type(j.ephemeral)(v=s.AJ.State(journal=s.warp(j.ephemeral.v.journal))), in_flight=j.in_flight)
        return "journal_internal", [s.lab("Noop"), nj], s.up and not h, None
    def do_mint(s, st, j, m, h): return "map_internal", [s.lab("Noop"), m], s.up and not h, None
    def do_freeze(s, st, j, m, h):
        if not s.up: return None
        z = m.ephemeral.v.stamped_map
        if h:
            q = s.rng.random()
            if q < .4 and s.log: n = s.rng.randrange(len(s.log) + 1); z = s.stamped(n)
            elif q < .7: z = s.Stamped(value=z.value, seq_end=z.seq_end + s.rng.choice([1, -1]) if z.seq_end else 1)
        nm = s.M.State(persistent=m.persistent, ephemeral=m.ephemeral, in_flight=Some(z))
        return "map_internal", [s.lab("Noop"), nm], not h and m.in_flight._v == "None", None
    def do_reqsync(s, st, j, m, h):
        i = s.rng.randrange(1, 4)
        if not s.up and not h: return None
        def eff():
            if not s.up: return "a sync was requested before recovery"
            if i in s.syncs: return "the sync request %s is outstanding" % i
            s.syncs[i] = len(s.log)
        return "req_sync", [s.lab("ReqSyncOp", sync_req_id=i), j], s.full(st) and i not in s.syncs, eff
    def do_replysync(s, st, j, m, h):
        i = s.rng.randrange(1, 4)
        def eff():
            if i not in s.syncs: return "a sync was answered that nobody asked"
            if s.syncs[i] > s.landed: return "the sync of %s puts was answered, on the disk are %s" % (s.syncs[i], s.landed)
            s.acked = max(s.acked, s.syncs[i]); del s.syncs[i]; s.count("syncs answered")
        return "reply_sync", [s.lab("ReplySyncOp", sync_req_id=i), j], s.up and i in s.syncs and s.syncs[i] <= s.durable0, eff
    def do_start(s, st, j, m, h):
        if not s.up: return None
        b = m.in_flight._0.seq_end if m.in_flight._v == "Some" else 0
        if m.in_flight._v == "None" and not h: return None
        hi = s.rng.randrange(max(b, j.persistent.seq_end), len(s.log) + 1) if max(b, j.persistent.seq_end) <= len(s.log) else len(s.log)
        short = h and m.in_flight._v == "Some" and j.in_flight._v == "None" and b < j.persistent.seq_end and s.rng.random() < .7
        if short: hi = s.rng.randrange(b, j.persistent.seq_end); s.count("hostile: a journal shorter than the disk's offered")
        elif h: b = max(0, min(len(s.log), b + s.rng.choice([-1, 0, 1]))); hi = max(b, min(len(s.log), hi + s.rng.choice([-1, 0, 1])))
        z = s.hist(b, hi) if b <= hi else s.hist(hi, hi)
        if h and not short and s.rng.random() < .4: z = s.warp(z)
        nj = s.sub(s.J, "commit_start", j, s.J.label("CommitStartLabel", new_boundary_lsn=b, max_lsn=s.known(st)), z)
        ok = s.full(st) and nj is not None
        if nj is None or h and not short and s.rng.random() < .2: nj = j
        vals = {"label": s.lab("Noop"), "lbl": s.lab("Noop"), "new_boundary_lsn": b, "new_journal": nj, "new_mapadt": m}
        bytype = {"CrashTolerantJournal": nj, "CrashTolerantMap": m, "LSN": b, "nat": b, "Label": s.lab("Noop")}
        try: a = [vals[n] if n in vals else bytype[ty[1][0]] for n, ty in s.C.T["commit_start"][1]]
        except (KeyError, TypeError, IndexError) as e: s.note("commit_start takes %s" % e); return None
        def eff(): s.flying = True
        return "commit_start", a, ok and not h, eff
    def do_land(s, st, j, m, h):
        def eff():
            if not s.flying: return "a superblock landed that was not written"
            s.flying = False
            if j.in_flight._v == "Some": s.landed = j.in_flight._0.seq_end
            if s.landed < s.acked: return "the superblock that landed holds %s puts, a sync of %s was answered" % (s.landed, s.acked)
        return "superblock_write_lands", [s.lab("SyncOp")], s.flying, eff
    def do_done(s, st, j, m, h):
        if not s.up: return None
        if j.in_flight._v != "Some": nj, nm = j, m
        else:
            b = j.in_flight._0.seq_start
            aj = s.sub(s.AJ, "discard_old", j.ephemeral.v, s.AJ.label("DiscardOldLabel", start_lsn=b, require_end=s.known(st)))
            if h and s.rng.random() < .5: aj = s.AJ.State(journal=s.warp(aj.journal)) if aj is not None else None
            nj = s.sub(s.J, "commit_complete", j, s.J.label("CommitCompleteLabel", require_end=s.known(st)), aj) if aj is not None else None
            nm = s.sub(s.M, "commit_complete", m, s.M.label("CommitCompleteLabel"))
            if nj is None: nj = j
            if nm is None: nm = m
        ok = j.in_flight._v == "Some" and not s.flying and s.full(st)
        def eff():
            if not (j.in_flight._v == "Some" and not s.flying): return "a commit completed whose superblock has not landed"
            s.durable0 = s.landed
        return "commit_complete", [s.lab("Noop"), nm, nj], ok and not h, eff
    def do_crash(s, st, j, m, h):
        keep = j.in_flight._v == "Some" and not st.superblock_in_flight
        k2 = not keep if h else keep
        nj = s.sub(s.J, "crash", j, s.J.label("CrashLabel", keep_in_flight=k2)); nm = s.sub(s.M, "crash", m, s.M.label("CrashLabel", keep_in_flight=k2))
        if nj is None: nj = j
        if nm is None: nm = m
        def eff():
            if s.landed < s.acked: return "the crash loses puts whose sync was answered"
            s.count("crashes" + (" after the superblock landed" if keep else " with a superblock in flight" if s.flying else ""))
            if len(s.log) > s.landed: s.count("crashes that lose puts")
            del s.log[s.landed:]
            s.durable0 = s.landed; s.up = False; s.flying = False; s.reqs, s.reps, s.syncs = {}, set(), {}
        return "crash", [s.lab("CrashOp"), nj, nm], not h, eff
def make(repo, seed, report): return C(repo, seed, report)
if __name__ == "__main__":
    import sys, time
    def rep(m): print("VIOL", m[:3000]); sys.exit(1)
    t = time.time(); j = make(sys.argv[1], int(sys.argv[2]), rep); n = 0
    print("load", time.time() - t)
    while time.time() - t < float(sys.argv[3]): j.episode(n); n += 1
    for k, v in sorted(j.stat.items()): print(v, k)
    print(n, "episodes")
