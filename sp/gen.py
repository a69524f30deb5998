"""Translates the Verus specifications of Splinter/src into Python and loads them."""
import os, sys, keyword
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import parse, rt
BUILTIN = {"Option": "rt.Option", "Some": "rt.Some", "None": "rt.NONE", "Map": "rt.Map", "IMap": "rt.Map", "Set": "rt.Set", "ISet": "rt.Set", "Seq": "rt.Seq", "Vec": "rt.Seq", "Multiset": "rt.Multiset", "HashMapWithView": "rt.Map"}
PRIM = {"int", "nat", "bool", "u8", "u16", "u32", "u64", "u128", "usize", "i64", "i32", "char", "str"}
def kw(n): return n + "_" if keyword.iskeyword(n) else n
class World:
    def __init__(self, root):
        self.root, self.mods, self.G, self.decl, self.bad = root, {}, {"rt": rt}, {}, []
        self.uid = 0; self.special = {}; self.src = []; self.fns = {}; self.tys = {}; self.sms = {}
    # ---- pass 1: files and names
    def load(self, dirs):
        for d in dirs:
            p = os.path.join(self.root, d)
            for r, _, fs in os.walk(p):
                for f in sorted(fs):
                    if f.endswith(".rs"): self.file(os.path.join(r, f))
        self.sig = {}
        for mp, m in self.mods.items():
            def reg(it, selft, mp=mp):
                ps = [x for x in it[3] if x[0] != ("bind", "self")]
                self.sig.setdefault(it[1], []).append((mp, selft, [x[1] for x in ps], it[4][1] if it[4] else None))
            for it in m["items"].values():
                if it[0] == "fn": reg(it, None)
                if it[0] == "trait":
                    for x in it[2]:
                        if x[0] == "fn": reg(x, None)
            for im in m["impls"]:
                for x in im[3]:
                    if x[0] == "fn": reg(x, im[1])
        for m in list(self.mods): self.emit_types(m)
        for m in list(self.mods): self.emit_fns(m)
        return self
    def file(self, p):
        rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, "::")
        if rel.endswith("::mod"): rel = rel[:-5]
        try: its = parse.parse_file(p)
        except parse.PErr as e: self.bad.append(str(e)); return
        self.module("crate::" + rel, its)
    def module(self, path, its):
        m = self.mods[path] = {"items": {}, "uses": [], "globs": [], "impls": [], "path": path, "traits": {}}
        for it in its:
            k = it[0]
            if k == "use":
                pub = it[4] if len(it) > 4 else False
                if it[2] == "*": m["globs"].append((it[1], pub))
                else: m["uses"].append((it[1] + [it[2]], it[3], pub))
            elif k == "mod":
                if it[2] is not None: self.module(path + "::" + it[1], it[2])
            elif k in ("struct", "enum", "type", "fn", "const"): m["items"][it[1]] = it
            elif k == "trait": m["items"][it[1]] = it
            elif k == "impl": m["impls"].append(it)
            elif k == "sm":
                _, n, fs, trs, sub = it
                sp = path + "::" + n
                own = [x for x in sub if x[0] in ("enum", "struct", "type", "use", "const")]
                fns = [x for x in sub if x[0] == "fn"]
                its2 = own + [("use", ["super"], "*", "*"), ("struct", "State", fs, []),
                              ("enum", "Step", [(t[1], [("_%d" % i, x[1]) for i, x in enumerate(y for y in t[2] if y[0] != "lbl" or True)]) for t in trs if t[0] == "transition"]),
                              ("enum", "Config", [(t[1], [("_%d" % i, x[1]) for i, x in enumerate(t[2])]) for t in trs if t[0] == "init"]),
                              ("impl", ("path", ["State"], []), None, fns)]
                self.module(sp, its2)
                self.mods[sp]["sm"] = (n, fs, trs)
                self.sms[sp] = (n, fs, trs)
                m["items"][n] = ("smod", sp)
    def link(self, mp):
        pass
    # ---- names
    def lookup(self, mp, n, seen=None, frm=None):
        """-> ('item', mod, name) | ('mod', path) | ('builtin', text) | None"""
        seen = seen if seen is not None else set()
        if (mp, n) in seen: return None
        seen.add((mp, n))
        m = self.mods.get(mp)
        if m is None: return None
        if n in m["items"]:
            it = m["items"][n]
            return ("mod", it[1]) if it[0] == "smod" else ("item", mp, n)
        if mp + "::" + n in self.mods: return ("mod", mp + "::" + n)
        # private imports are seen by the module itself and by those inside it
        frm = frm or mp
        own = frm == mp or frm.startswith(mp + "::")
        for path, al, pub in m["uses"]:
            if al == n and (own or pub):
                r = self.abs(mp, path, seen)
                if r: return r
        for g, pub in m["globs"]:
            if not (own or pub): continue
            t = self.absmod(mp, g, seen)
            if t is None: continue
            if t[0] == "mod":
                r = self.lookup(t[1], n, seen, frm)
                if r: return r
            elif t[0] == "item" and self.mods[t[1]]["items"][t[2]][0] == "enum":
                for vn, fs in self.mods[t[1]]["items"][t[2]][2]:
                    if vn == n: return ("variant", t[1], t[2], n)
        # items of a file-level module also live at `X` for X_v/X.rs declared by mod
        return None
    def absmod(self, mp, path, seen): return self.abs(mp, path, seen)
    def abs(self, mp, path, seen=None):
        path = list(path)
        cur = None
        if path[0] == "crate": cur = ("mod", "crate"); path = path[1:]
        elif path[0] in ("super", "self"):
            p = mp
            while path and path[0] in ("super", "self"):
                if path[0] == "super": p = p.rsplit("::", 1)[0]
                path = path[1:]
            cur = ("mod", p)
        else:
            cur = self.lookup(mp, path[0], seen); path = path[1:]
        for i, s in enumerate(path):
            if cur is None: return None
            if cur[0] == "mod":
                if cur[1] + "::" + s in self.mods and not (cur[1] in self.mods and s in self.mods[cur[1]]["items"] and self.mods[cur[1]]["items"][s][0] != "smod"): cur = ("mod", cur[1] + "::" + s)
                elif cur[1] in self.mods: cur = self.lookup(cur[1], s, seen)
                else: cur = ("mod", cur[1] + "::" + s) if any(k.startswith(cur[1] + "::" + s) for k in self.mods) else None
            elif cur[0] == "item":
                it = self.alias(cur)
                if it and it[0] == "item" and self.mods[it[1]]["items"][it[2]][0] == "enum" and any(v == s for v, _ in self.mods[it[1]]["items"][it[2]][2]): cur = ("variant", it[1], it[2], s)
                else: cur = ("member", it, s)
            else: return None
        return cur
    def alias(self, r, d=0):
        """follows type aliases"""
        if r and r[0] == "item" and d < 10:
            it = self.mods[r[1]]["items"][r[2]]
            if it[0] == "type" and it[2] and it[2][0] == "path":
                segs = it[2][1]
                n = self.abs(r[1], segs)
                if n: return self.alias(n, d + 1)
                if segs[-1] in BUILTIN: return ("builtin", BUILTIN[segs[-1]])
                if segs[-1] in PRIM: return ("prim", segs[-1])
            if it[0] == "type": return ("other", it[2])
        return r
    def expand(self, o):
        """a type through its aliases"""
        mp, t = o
        for _ in range(8):
            if t is not None and t[0] == "abs": mp, t = t[1], t[2]
            if t is None or t[0] != "path": return None
            r = self.abs(mp, t[1])
            if r and r[0] == "item" and self.mods[r[1]]["items"][r[2]][0] == "type" and self.mods[r[1]]["items"][r[2]][2]: mp, t = r[1], self.mods[r[1]]["items"][r[2]][2]; continue
            break
        return (mp, t)
    def mang(self, mp, n): return mp.replace("crate::", "").replace("::", "__") + "__" + n
    # ---- types
    def tyname(self, mp, t, self_t=None):
        """name under which values of a type are registered, or None"""
        if t is None: return None
        if t[0] == "abs": return self.tyname(t[1], t[2])
        if t[0] == "tuple" or t[0] == "fn": return "#" + repr(t)[:0] + "tuple"
        segs = t[1]
        if segs == ["Self"]: return self_t
        if len(segs) == 1 and segs[0] in PRIM: return segs[0]
        if segs[-1] in ("Box", "Ghost", "Tracked", "Rc", "Arc") and t[2]: return self.tyname(mp, t[2][0], self_t)
        r = self.alias(self.abs(mp, segs))
        if r is None:
            if segs[-1] in BUILTIN: return BUILTIN[segs[-1]].split(".")[1] + "<" + ",".join(str(self.tyname(mp, x, self_t)) for x in t[2]) + ">"
            return "?" + segs[-1]
        if r[0] == "prim": return r[1]
        if r[0] == "item": return self.mang(r[1], r[2])
        if r[0] == "builtin":
            # alias of a builtin: take the alias's own arguments
            q = self.abs(mp, segs)
            while q and q[0] == "item" and self.mods[q[1]]["items"][q[2]][0] == "type":
                tt = self.mods[q[1]]["items"][q[2]][2]
                if tt[1][-1] in BUILTIN: return self.tyname(q[1], tt)
                q = self.abs(q[1], tt[1])
            return r[1]
        return "?" + segs[-1]
    def emit_types(self, mp):
        for n, it in self.mods[mp]["items"].items():
            if it[0] == "struct":
                self.mk_class(mp, n, [kw(f) for f, _ in it[2]])
            elif it[0] == "enum":
                base = self.mang(mp, n)
                c = type(base, (rt.V,), {"__slots__": (), "_variants": tuple(v for v, _ in it[2]), "_fields": ()})
                self.G[base] = c
                for v, fs in it[2]:
                    names = tuple(kw(f) for f, _ in fs)
                    k = type(base + "__" + v, (c,), {"__slots__": names, "_fields": names, "_v": v, "__init__": rt.mk_init(names)})
                    self.G[base + "__" + v] = k
                    if not names: self.G[base + "__" + v + "__unit"] = k()
    def mk_class(self, mp, n, fields):
        self.G[self.mang(mp, n)] = type(self.mang(mp, n), (rt.V,), {"__slots__": tuple(fields), "_fields": tuple(fields), "__init__": rt.mk_init(tuple(fields))})
    def cls_of(self, mp, t):
        """python class for the target type of an impl"""
        if t[0] != "path": return None
        r = self.alias(self.abs(mp, t[1]))
        if r is None:
            b = BUILTIN.get(t[1][-1])
            return getattr(rt, b.split(".")[1]) if b and b != "rt.NONE" else None
        if r[0] == "builtin": return getattr(rt, r[1].split(".")[1])
        if r[0] == "item": return self.G.get(self.mang(r[1], r[2]))
        return None
    def emit_fns(self, mp):
        m = self.mods[mp]
        for n, it in list(m["items"].items()):
            if it[0] == "fn": self.fn(mp, None, it, self.mang(mp, n))
            elif it[0] == "const" and it[2] is not None:
                self.deflate(self.mang(mp, n), "def %s():\n return %s\n" % (self.mang(mp, n), self.safe(mp, None, it[2], {})))
        for im in m["impls"]: self.impl(mp, im)
        if "sm" in m: self.machine(mp)
    def impl(self, mp, im):
        _, t, tr, its = im
        c = self.cls_of(mp, t)
        if c is None: return
        tn = self.tyname(mp, t)
        for it in its:
            if it[0] == "fn": 
                f = self.fn(mp, t, it, (tn or "x").replace("<", "_").replace(">", "_").replace(",", "_").replace("?", "_").replace("#", "_") + "__" + it[1], tr)
                if f is not None:
                    # impls for different type arguments: the plain name goes to simple buffers, the others get a suffix
                    k = "m_" + it[1]; arg = self.targ(t); had = self.special.get((c, k))
                    if had is not None and arg and had != arg:
                        if arg != "SimpleBuffer": k += "__" + arg
                        else: self.attach(c, k + "__" + had, c.__dict__[k]); self.special[(c, k)] = arg
                    elif arg: self.special[(c, k)] = arg
                    self.attach(c, k, f)
        if tr is not None:
            r = self.abs(mp, tr[1])
            if r and r[0] == "item" and self.mods[r[1]]["items"][r[2]][0] == "trait":
                for it in self.mods[r[1]]["items"][r[2]][2]:
                    if it[0] == "fn" and it[6] and not ("m_" + it[1]) in c.__dict__:
                        f = self.fn(r[1], t, it, (tn or "x") + "__" + it[1], tr, selfmod=mp)
                        if f is not None: self.attach(c, "m_" + it[1], f)
    def targ(self, t):
        """the concrete type argument of an impl's target"""
        a = t[2] if len(t) > 2 and t[2] else None
        if a and len(a) == 1 and a[0][0] == "path" and len(a[0][1][-1]) > 1: return a[0][1][-1]
        return None
    def attach(self, c, n, f):
        try: setattr(c, n, f)
        except Exception: pass
    def viatrait(self, at, f):
        """T::f for a type parameter T: the only type whose implementation of a trait seen from that module has f"""
        if not hasattr(self, "_via"):
            self._via = {}
            for mp, m in self.mods.items():
                for _, t, tr, its in m["impls"]:
                    if tr is None or t[0] != "path": continue
                    r = self.alias(self.abs(mp, t[1])); q = self.abs(mp, tr[1])
                    if r is None or r[0] != "item" or q is None: continue
                    for it in its:
                        if it[0] == "fn": self._via.setdefault(it[1], set()).add((tuple(q), self.mang(r[1], r[2]) + ".m_" + it[1]))
        c = self._via.get(f, ())
        if len(c) > 1: c = [z for z in c if z[0][0] == "item" and self.lookup(at, z[0][2]) == z[0]]
        return next(iter(c))[1] if len(c) == 1 else None
    # ---- functions
    def fn(self, mp, selft, it, name, trait=None, selfmod=None):
        _, n, mode, ps, ret, cl, body, at, line = it
        if mode == "exec": return None
        self.uid += 1
        pyname = "f%d_%s" % (self.uid, n)
        cx = Cx(self, mp, selft, selfmod)
        names = []
        for p, t in ps:
            if p[0] == "bind": names.append(cx.bind(p[1]))
            else: names.append("_a%d" % len(names)); cx.err = "pattern parameter"
            if p[0] == "bind" and t: cx.pt[p[1]] = (mp, t)
        full = (name, n)
        info = {"name": name, "mod": mp, "mode": mode, "params": [(p[1] if p[0] == "bind" else "?", t, cx.tname(t) if t else (self.tyname(selfmod or mp, selft) if selft else None)) for p, t in ps], "file": mp, "ret": ret is not None, "line": line, "at": at, "static": not (ps and ps[0][0] == ("bind", "self")), "self": selft, "clauses": cl, "rett": cx.tname(ret[1]) if ret else None, "body": body}
        src = ""
        out = None
        if mode == "spec":
            if body is None: b = "rt.unsupported(%r)" % ("uninterpreted " + n)
            else: b = self.safe2(cx, cx.hint(body, (mp, ret[1]) if ret and ret[1] else None))
            w = cl.get("when")
            if w and body is not None: b = "(%s) if (%s) else rt.arb()" % (b, self.safe2(cx, w[0]))
            src = "def %s(%s):\n return %s\n" % (pyname, ", ".join(names), b)
            f = self.deflate(pyname, src)
            key = name
            if key in rt.U.over: f = rt.U.over[key](f)
            info["fn"] = f; out = f
        else:
            for k in ("requires", "ensures"):
                c2 = Cx(self, mp, selft, selfmod); ns = [c2.bind(p[1]) if p[0] == "bind" else "_a" for p, t in ps]
                if k == "ensures" and ret and ret[0] is not None and ret[0][0] == "bind": ns.append(c2.bind(ret[0][1]))
                elif k == "ensures" and ret: ns.append("_r")
                es = cl.get(k, [])
                s = "[" + ", ".join("lambda: (%s)" % self.safe2(c2, e) for e in es) + "]"
                info[k] = self.deflate(pyname + "_" + k, "def %s_%s(%s):\n return %s\n" % (pyname, k, ", ".join(ns), s))
            if body is not None and body[0] == "block":
                c2 = Cx(self, mp, selft, selfmod); c2.proof = True; ns = [c2.bind(p[1]) if p[0] == "bind" else "_a" for p, t in ps]
                info["run"] = lambda self=self, c2=c2, ns=ns, body=body, pyname=pyname: self.deflate(pyname + "_body", "def %s_body(%s):\n return %s\n" % (pyname, ", ".join(ns), self.safe2(c2, body)))
            def lemma(*a, info=info):
                h = rt.U.by.get("#lemma")
                return h(info, a) if h else None
            out = lemma
            info["fn"] = lemma
        self.fns.setdefault(name, []).append(info)
        if selft is None: self.G[name] = out
        return out
    def safe(self, mp, selft, e, env): return self.safe2(Cx(self, mp, selft), e)
    def safe2(self, cx, e):
        try: return cx.ex(e)
        except Untranslated as x:
            self.bad.append("%s: %s" % (cx.mp, x)); return "rt.unsupported(%r)" % str(x)
    def deflate(self, name, src):
        try: exec(compile(src, "<%s>" % name, "exec"), self.G)
        except (SyntaxError, RecursionError, MemoryError) as e:
            self.bad.append("%s: %s" % (name, e))
            args = src[src.index("(") + 1:src.index(")")]
            exec("def %s(%s):\n return rt.unsupported(%r)\n" % (name, args, str(e)), self.G)
        return self.G[name]
    # ---- state machines
    def machine(self, mp):
        n, fs, trs = self.mods[mp]["sm"]
        st = self.G[self.mang(mp, "State")]
        info = {"path": mp, "name": n, "fields": fs, "transitions": {}, "State": st}
        for kind, tn, ps, body in trs:
            cx = Cx(self, mp, ("path", ["State"], []))
            pre = cx.bind("pre")
            ns = [cx.bind(p) for p, _ in ps]
            L = []
            self.uid += 1; fn = "t%d_%s" % (self.uid, tn)
            isinit = kind == "init"
            L.append("def %s(%s):" % (fn, ", ".join(([] if isinit else [pre]) + ns)))
            if isinit: L += [" u_%s = None" % f for f, _ in fs]
            else: L += [" u_%s = %s.%s" % (f, pre, f) for f, _ in fs]
            try: self.tstmts(cx, body, L, 1)
            except Untranslated as x:
                self.bad.append("%s::%s: %s" % (mp, tn, x)); L.append(" rt.unsupported(%r)" % str(x))
            L.append(" return %s(%s)" % (self.mang(mp, "State"), ", ".join("u_" + f for f, _ in fs)) if kind != "readonly" else " return None")
            f = self.deflate2(fn, "\n".join(L) + "\n", ", ".join(([] if isinit else [pre]) + ns))
            info["transitions"][tn] = (kind, ps, f, [cx.tname(t) for _, t in ps])
            if isinit:
                def rel(post, *a, f=f):
                    try: return f(*a) == post
                    except rt.Disabled: return False
            else:
                def rel(pre, post, *a, f=f):
                    try: return f(pre, *a) == post
                    except rt.Disabled: return False
            self.attach(st, "m_" + tn, rel)
        T = info["transitions"]
        def next_by(pre, post, lbl, step):
            h = rt.U.by.get("#next_by")
            if h: h(info, pre, post, lbl, step)
            kind, ps, f, tn = T[step._v]
            a = [getattr(step, x) for x in step._fields]
            try: return f(pre, *([lbl] + a if ps and ps[0][0] in ("lbl", "label") else a)) == post
            except rt.Disabled: return False
        def next_(pre, post, lbl):
            h = rt.U.by.get("#next")
            if h: return h(info, pre, post, lbl)
            raise rt.Unjudged("next")
        def init(post, *a):
            h = rt.U.by.get("#init")
            if h: return h(info, post)
            raise rt.Unjudged("init")
        def init_by(post, config):
            kind, ps, f, tn = T[config._v]
            try: return f(*[getattr(config, x) for x in config._fields]) == post
            except rt.Disabled: return False
        st.m_next_by, st.m_next, st.m_init, st.m_init_by = next_by, next_, init, init_by
        # Step variants do not carry the label
        step = self.mang(mp, "Step")
        for kind, tn, ps, body in trs:
            if kind == "transition":
                names = tuple("_%d" % i for i, p in enumerate([p for p in ps if not (p[0] in ("lbl", "label") and p is ps[0])]))
                c = self.G[step]
                k = type(step + "__" + tn, (c,), {"__slots__": names, "_fields": names, "_v": tn, "__init__": rt.mk_init(names)})
                self.G[step + "__" + tn] = k
                if not names: self.G[step + "__" + tn + "__unit"] = k()
        info["Step"] = {t[1]: self.G[step + "__" + t[1]] for t in trs if t[0] == "transition"}
        self.mods[mp]["machine"] = info
    def deflate2(self, name, src, args):
        try: exec(compile(src, "<%s>" % name, "exec"), self.G)
        except SyntaxError as e:
            self.bad.append("%s: %s" % (name, e)); exec("def %s(%s):\n return rt.unsupported(%r)\n" % (name, args, str(e)), self.G)
        return self.G[name]
    def tstmts(self, cx, ss, L, ind):
        I = " " * ind
        if not ss: L.append(I + "pass")
        for s in ss:
            k = s[0]
            if k == "require": L.append(I + "rt.require(%s)" % cx.ex(s[1]))
            elif k == "tassert": L.append(I + "rt.tassert(%s)" % cx.ex(s[1]))
            elif k == "let": L.append(I + "(%s)" % cx.let(s[1], s[2]))
            elif k == "rlet": L.append(I + "rt.require(%s)" % cx.ex(("matches", s[2], s[1])))
            elif k == "update":
                if s[2]: raise Untranslated("indexed update")
                L.append(I + "u_%s = %s" % (s[1], cx.ex(s[3])))
            elif k == "tif":
                L.append(I + "if %s:" % cx.ex(s[1])); self.tstmts(cx, s[2], L, ind + 1)
                if s[3]: L.append(I + "else:"); self.tstmts(cx, s[3], L, ind + 1)
            elif k == "tmatch":
                v = cx.fresh("m"); L.append(I + "%s = %s" % (v, cx.ex(s[1]))); kw = "if"
                for p, b in s[2]:
                    sc = dict(cx.sc); L.append(I + "%s %s:" % (kw, cx.test(p, v) or "True")); self.tstmts(cx, b, L, ind + 1); cx.sc = sc; kw = "elif"
                L.append(I + "else: rt.arb()")
            else: raise Untranslated(k)
class Untranslated(Exception): pass
class Cx:
    def __init__(self, w, mp, selft=None, selfmod=None):
        self.w, self.mp, self.selft, self.selfmod, self.sc, self.proof = w, mp, selft, selfmod or mp, {}, False
        self.pt = {}
    def fresh(self, n): self.w.uid += 1; return "%s_%d" % (n if n.isidentifier() and not keyword.iskeyword(n) else "v", self.w.uid)
    def bind(self, n): v = self.fresh("v_" + n); self.sc[n] = v; return v
    def tname(self, t):
        if t is None: return None
        st = self.w.tyname(self.selfmod, self.selft) if self.selft else None
        return self.w.tyname(self.mp, t, st)
    # static types, as far as they are evident: (module, type)
    def styp(self, x):
        w = self.w
        if x[0] == "path" and len(x[1]) == 1:
            if x[1][0] == "self": return (self.selfmod, self.selft) if self.selft else None
            return self.pt.get(x[1][0])
        if x[0] == "as": return (self.mp, x[2]) if isinstance(x[2], tuple) else None
        if x[0] == "field" and isinstance(x[2], str):
            o = self.styp(x[1])
            r = w.alias(w.abs(o[0], o[1][1])) if o and o[1][0] == "path" else None
            it = w.mods[r[1]]["items"].get(r[2]) if r and r[0] == "item" else None
            if it and it[0] == "struct":
                for f, ft in it[2]:
                    if f == x[2]: return (r[1], ft)
            return None
        if x[0] == "call":
            if x[2] in ("dom", "subrange", "push", "update", "insert", "remove", "restrict", "spec_index", "index"):
                o = self.styp(x[1]); o = w.expand(o) if o else None
                if o is None: return None
                if x[2] == "dom" and o[1][1][-1] in ("Map", "IMap") and o[1][2]: return (o[0], ("path", ["Set"], [o[1][2][0]]))
                if o[1][1][-1] in ("Seq", "Set", "Map") and x[2] in ("subrange", "push", "update", "insert", "remove", "restrict"): return o
            return self.sigret(x[2], len(x[3]))
        if x[0] == "idx":
            o = self.styp(x[1]); o = w.expand(o) if o else None
            if o and o[1][0] == "path" and o[1][2] and o[1][1][-1] in ("Seq", "Map", "Vec"): return (o[0], o[1][2][-1])
        return None
    def sigret(self, n, k):
        s = [x for x in self.w.sig.get(n, []) if len(x[2]) == k and x[3] is not None]
        ts = {self.w.tyname(mp, t, self.w.tyname(mp, st) if st else None) for mp, st, ps, t in s}
        return (s[0][0], s[0][3]) if len(ts) == 1 and s[0][3] != ("path", ["Self"], []) else None
    def infer(self, n, body):
        """type name of an undeclared binder, from how the body uses it"""
        w = self.w; found = set()
        isv = lambda x: x == ("path", [n], [])
        def use(o, t): found.add(w.tyname(o, t))
        def walk(x):
            if isinstance(x, list):
                for y in x: walk(y)
                return
            if not isinstance(x, tuple): return
            if x and x[0] == "call" and len(x) > 3:
                for i, a in enumerate(x[3]):
                    if not isv(a): continue
                    if x[2] in ("contains", "contains_key", "has", "insert", "remove", "count") and i == 0:
                        o = self.styp(x[1]); o = w.expand(o) if o else None
                        if o and o[1][0] == "path" and o[1][2] and o[1][1][-1] in ("Set", "Map", "Seq", "Multiset") and not (o[1][1][-1] == "Seq" and x[2] != "contains"): use(o[0], o[1][2][0]); continue
                    s = [z for z in w.sig.get(x[2], []) if len(z[2]) == len(x[3])]
                    ts = {w.tyname(mp, ps[i], w.tyname(mp, st) if st else None) for mp, st, ps, _ in s}
                    o = self.styp(x[1])
                    if len(ts) > 1 and o:
                        tn = w.tyname(*o)
                        ts = {w.tyname(mp, ps[i], w.tyname(mp, st)) for mp, st, ps, _ in s if st and w.tyname(mp, st) == tn}
                    if len(ts) == 1: found.update(ts)
            elif x and x[0] == "app" and len(x) > 2 and x[1][0] == "path":
                for i, a in enumerate(x[2]):
                    if not isv(a): continue
                    s = [z for z in w.sig.get(x[1][1][-1], []) if len(z[2]) == len(x[2])]
                    ts = {w.tyname(mp, ps[i], w.tyname(mp, st) if st else None) for mp, st, ps, _ in s}
                    if len(ts) == 1: found.update(ts)
            elif x and x[0] == "idx" and isv(x[2]):
                o = self.styp(x[1]); o = w.expand(o) if o else None
                if o and o[1][0] == "path" and o[1][1][-1] == "Map" and o[1][2]: use(o[0], o[1][2][0])
            for y in x: walk(y)
        walk(body)
        found = {f for f in found if f and "?" not in f and "#" not in f}
        if found <= {"int", "nat", "u64", "usize"} and "nat" in found: return "nat"
        return found.pop() if len(found) == 1 else None
    # paths
    def resolve(self, segs):
        w = self.w
        if segs[0] == "Self":
            if self.selft is None: raise Untranslated("Self")
            if len(segs) == 1: r = w.alias(w.abs(self.selfmod, self.selft[1])) if self.selft[0] == "path" else None
            else: r = w.abs(self.selfmod, list(self.selft[1]) ) if self.selft[0] == "path" else None
            r = w.alias(r)
            if r is None and self.selft[0] == "path" and self.selft[1][-1] in BUILTIN: r = ("builtin", BUILTIN[self.selft[1][-1]])
            for s in segs[1:]:
                if r and r[0] == "item" and w.mods[r[1]]["items"][r[2]][0] == "enum" and any(v == s for v, _ in w.mods[r[1]]["items"][r[2]][2]): r = ("variant", r[1], r[2], s)
                else: r = ("member", r, s)
            return r
        r = w.abs(self.mp, segs)
        if r is None:
            if segs[0] in BUILTIN and len(segs) == 1: return ("builtin", BUILTIN[segs[0]])
            if segs[-1] in ("Some", "None") and len(segs) == 2: return ("builtin", BUILTIN[segs[-1]])
            if segs[0] in BUILTIN and len(segs) == 2: return ("member", ("builtin", BUILTIN[segs[0]]), segs[1])
            if segs[0] in ("Option_t", "option") : return ("builtin", BUILTIN.get(segs[-1], "rt.Option"))
        return r
    def pyref(self, r, segs):
        w = self.w
        if r is None:
            n = segs[-1]
            if n in ("arbitrary",): return "rt.arb"
            if len(segs) == 2 and segs[0] in PRIM:
                return {"MAX": "rt.unsupported('MAX')"}.get(n, "rt.unsupported('prim')")
            if segs[-1] in ("max", "min"): return "rt.%s_" % segs[-1]
            if len(segs) == 2: return w.viatrait(self.mp, segs[1])
            return None
        if r[0] == "builtin": return r[1]
        if r[0] == "variant": return w.mang(r[1], r[2]) + "__" + r[3]
        if r[0] == "item":
            it = w.mods[r[1]]["items"][r[2]]
            if it[0] == "type":
                a = w.alias(r)
                if a and a[0] == "item": return w.mang(a[1], a[2])
                if a and a[0] == "builtin": return a[1]
                return None
            return w.mang(r[1], r[2])
        if r[0] == "member":
            b = self.pyref(r[1], []) if r[1] else None
            return (b + ".m_" + r[2]) if b else None
        return None
    # expressions
    def ex(self, e):
        k = e[0]
        return getattr(self, "x_" + k)(e)
    def x_num(self, e): return str(e[1])
    def x_bool(self, e): return str(e[1])
    def x_str(self, e): return repr(e[1])
    def x_ghost(self, e): return "None"
    def x_path(self, e):
        segs = e[1]
        if len(segs) == 1 and segs[0] in self.sc: return self.sc[segs[0]]
        r = self.resolve(segs)
        p = self.pyref(r, segs)
        if p is None: raise Untranslated("name " + "::".join(segs))
        if r and r[0] == "variant":
            fs = [f for v, f in self.w.mods[r[1]]["items"][r[2]][2] if v == r[3]][0]
            if r[2] == "Step": fs = []
            if not fs and r[2] != "Step": return p + "__unit"
            return p
        if r and r[0] == "item":
            it = self.w.mods[r[1]]["items"][r[2]]
            if it[0] == "const": return p + "()"
            if it[0] == "struct" and not it[2]: return p + "()"
        return p
    def x_qpath(self, e):
        t = self.x_path(("path", e[1][1], [])) if e[1][0] == "path" else None
        if t is None: raise Untranslated("qualified path")
        return t + ".m_" + e[2]
    def x_tup(self, e): return "(" + ", ".join(self.ex(x) for x in e[1]) + ("," if len(e[1]) == 1 else "") + ")" if e[1] else "None"
    def x_seqlit(self, e): return "rt.Seq((%s))" % "".join(self.ex(x) + ", " for x in e[1])
    def x_setlit(self, e): return "rt.Set((%s))" % "".join(self.ex(x) + ", " for x in e[1])
    def x_maplit(self, e): return "rt.Map({%s})" % ", ".join("%s: %s" % (self.ex(a), self.ex(b)) for a, b in e[1])
    def x_and(self, e): return "(" + " and ".join(self.ex(x) for x in e[1]) + ")"
    def x_or(self, e): return "(" + " or ".join(self.ex(x) for x in e[1]) + ")"
    def x_not(self, e): return "(not %s)" % self.ex(e[1])
    def x_neg(self, e): return "(-%s)" % self.ex(e[1])
    def x_imp(self, e): return "(%s if %s else True)" % (self.after(e[1], e[2]))
    def after(self, a, b):
        x = self.ex(a); y = self.ex(b); return (y, x)
    def x_cmp(self, e):
        a, rest = e[1], e[2]
        vs = [self.ex(a)] + [self.ex(b) for _, b in rest]
        if len(rest) == 1:
            op = rest[0][0]
            if op in ("==", "===", "=~=", "=~~="): return "rt.eq(%s, %s)" % (vs[0], vs[1])
            if op in ("!=", "!==", "!~=", "!~~="): return "(not rt.eq(%s, %s))" % (vs[0], vs[1])
            return "(%s %s %s)" % (vs[0], op, vs[1])
        return "(" + vs[0] + "".join(" %s %s" % ("==" if op in ("===", "=~=", "=~~=") else "!=" if op in ("!==", "!~=") else op, v) for (op, _), v in zip(rest, vs[1:])) + ")"
    def x_bin(self, e):
        a, b = self.ex(e[2]), self.ex(e[3])
        if e[1] == "/": return "rt.div(%s, %s)" % (a, b)
        if e[1] == "%": return "rt.mod(%s, %s)" % (a, b)
        return "(%s %s %s)" % (a, e[1], b)
    def x_as(self, e):
        t = e[2]
        if t[0] == "path" and len(t[1]) == 1 and t[1][0] in ("nat", "usize", "u64", "u32", "u8"): return "rt.nat(%s)" % self.ex(e[1])
        return self.ex(e[1])
    def x_is(self, e): return "rt.is_(%s, %r)" % (self.ex(e[1]), e[2])
    def x_matches(self, e):
        v = self.fresh("m")
        s = "(%s := %s)" % (v, self.ex(e[1]))
        t = self.test(e[2], v)
        return "((%s, True)[1] and %s)" % (s, t or "True")
    def x_field(self, e):
        b = self.ex(e[1])
        if e[2].startswith("_") and e[2][1:].isdigit(): return "rt.fld(%s, %r)" % (b, e[2])
        return "%s.%s" % (b, kw(e[2]))
    def x_arrow(self, e): return "rt.arrow(%s, %r)" % (self.ex(e[1]), kw(e[2]))
    def x_idx(self, e): return "%s[%s]" % (self.ex(e[1]), self.ex(e[2]))
    def x_call(self, e):
        b, m, a = self.ex(e[1]), e[2], [self.ex(x) for x in e[3]]
        if m in ("view", "clone") or m.startswith(("is_", "get_", "arrow_")) or m in ("abs", "ext_equal", "deref"):
            self.w.uid += 1; v = "r_%d" % self.w.uid
            return "(%s.m_%s(%s) if hasattr(%s := %s, 'm_%s') else rt.call(%s, %r%s))" % (v, m, ", ".join(a), v, b, m, v, m, "".join(", " + x for x in a))
        return "%s.m_%s(%s)" % (b, m, ", ".join(a))
    def x_app(self, e):
        f, a = e[1], e[2]
        if f[0] == "path" and not (len(f[1]) == 1 and f[1][0] in self.sc):
            segs = f[1]
            if segs[-1] in ("Box", "Ghost", "Tracked") or (len(segs) == 2 and segs[0] in ("Box", "Ghost", "Tracked") and segs[1] == "new"): return self.ex(a[0])
            if segs == ["Map", "new"] and len(a) == 2 and self.resolve(["Map"]) in (None, ("builtin", "rt.Map")):
                return "rt.map_new(%s, %s, %s)" % (self.fnx(a[0]), self.fnx(a[1]), self.lamspec(a[0], a[1]))
            if segs == ["Set", "new"] and len(a) == 1: return "rt.set_new(%s, %s)" % (self.fnx(a[0]), self.lamspec(a[0]))
            if segs == ["Seq", "new"] and len(a) == 2: return "rt.Seq.m_new(%s, %s)" % (self.ex(a[0]), self.fnx(a[1]))
            if segs[0] in ("Seq", "Map", "Set", "Multiset") and len(segs) == 2 and self.resolve([segs[0]]) in (None, ("builtin", BUILTIN[segs[0]])): return "rt.%s.m_%s(%s)" % (segs[0], segs[1], ", ".join(self.ex(x) for x in a))
            if segs[-1] == "arbitrary": return "rt.arb()"
            if segs[-1] in ("recommends_by", "reveal", "reveal_with_fuel", "hide"): return "None"
            if segs[-1] == "spec_affirm": return "None"
            if segs[-1] == "Some" and len(segs) <= 2 and self.resolve(segs)in (None, ("builtin", "rt.Some")): return "rt.Some(%s)" % self.ex(a[0])
            if len(segs) == 1 and segs[0] in ("ext_equal", "spec_eq"): return "rt.eq(%s)" % ", ".join(self.ex(x) for x in a)
            if len(segs) == 1 and segs[0] in PRIM: return self.ex(a[0])
        return "%s(%s)" % (self.ex(f), ", ".join(self.ex(x) for x in a))
    def x_struct(self, e):
        segs, fs, base = e[1], e[2], e[3]
        r = self.resolve(segs)
        if r and r[0] == "item": r = self.w.alias(r)
        if r and r[0] == "mod": r = None
        p = self.pyref(r, segs)
        if p is None: raise Untranslated("struct " + "::".join(segs))
        ft = self.ftypes(r)
        if ft: fs = [(n, self.hint(v, (ft[0], ft[1][n])) if n in ft[1] else v) for n, v in fs]
        if base is not None: return "rt.upd(%s%s)" % (self.ex(base), "".join(", %s=%s" % (kw(n), self.ex(v)) for n, v in fs))
        if not fs and r[0] == "variant" and r[2] != "Step": return p + "__unit"
        return "%s(%s)" % (p, ", ".join("%s=%s" % (kw("_" + n if n.isdigit() else n), self.ex(v)) for n, v in fs))
    def x_if(self, e):
        sc = dict(self.sc)
        c = self.ex(e[1]); t = self.ex(e[2]); self.sc = dict(sc)
        f = self.ex(e[3]) if e[3] is not None else "None"
        self.sc = sc
        return "(%s if %s else %s)" % (t, c, f)
    def x_block(self, e):
        sc = dict(self.sc); pt = dict(self.pt); parts = []
        for i, s in enumerate(e[1]):
            if s[0] == "let" and s[1][0] == "bind" and s[2] is not None and s[2][0] == "app":
                s = (s[0], s[1], self.hint(s[2], self.letuse(s[1][1], [e[1][i + 1:], e[2]]))) + tuple(s[3:])
            if s[0] == "let":
                if s[2] is not None: parts.append(self.let(s[1], s[2]))
                else: raise Untranslated("uninitialised let")
            elif s[0] == "do":
                if self.proof:
                    try: parts.append("hook(lambda: %s)" % self.ex(s[1]) if not self.lets(s[1]) else self.ex(s[1]))
                    except Untranslated: pass
            elif s[0] == "set": raise Untranslated("assignment")
        last = self.ex(e[2]) if e[2] is not None else "None"
        self.sc = sc; self.pt = pt
        return "(%s)[-1]" % ", ".join(parts + [last]) if parts else last
    def lets(self, e): return False
    def x_assert(self, e): return self.ex(e[1])
    def x_assume(self, e): return "None"
    def x_match(self, e):
        v = self.fresh("m"); s = self.ex(e[1]); out = ""
        n = 0
        for p, g, b in e[2]:
            sc = dict(self.sc)
            t = self.test(p, v) or "True"
            if g is not None: t = "(%s and %s)" % (t, self.ex(g))
            out += "%s if %s else " % (self.paren(self.ex(b)), t); self.sc = sc
        return "((%s := %s), (%srt.arb()))[1]" % (v, s, out)
    def paren(self, s): return "(" + s + ")"
    def let(self, p, e):
        st = self.styp(e)
        r = self.let_(p, e)
        if p[0] == "bind":
            if st: self.pt[p[1]] = st
            else: self.pt.pop(p[1], None)
        return r
    def let_(self, p, e):
        x = self.ex(e)
        if p[0] == "bind": v = self.bind(p[1]); return "(%s := %s)" % (v, x)
        v = self.fresh("m")
        a = "(%s := %s)" % (v, x)
        t = self.test(p, v)
        return a + (", " + t if t else "")
    def test(self, p, v):
        """boolean expression testing a pattern against variable v, binding its names"""
        k = p[0]
        if k in ("wild", "rest"): return ""
        if k == "bind":
            if p[1][0].isupper():
                r = self.resolve([p[1]])
                if r == ("builtin", "rt.NONE") or r and r[0] == "variant": return "rt.is_(%s, %r)" % (v, p[1])
            return "((%s := %s), True)[1]" % (self.bind(p[1]), v)
        if k == "lit": return "rt.eq(%s, %r)" % (v, p[1])
        if k == "alt":
            return "(" + " or ".join(self.test(q, v) or "True" for q in p[1]) + ")"
        if k == "as":
            t = self.test(p[2], v); return "(((%s := %s), True)[1]%s)" % (self.bind(p[1]), v, " and " + t if t else "")
        if k == "ptuple": return self.fields([("[%d]" % i, q) for i, q in enumerate(p[1])], v)
        if k == "pctor":
            if p[2] is not None:
                r = self.resolve(p[1])
                isstruct = r and r[0] == "item"
                t = "" if isstruct else "rt.is_(%s, %r)" % (v, p[1][-1])
                s = self.fields([("._%d" % i, q) for i, q in enumerate(p[2]) if q[0] != "rest"], v)
                return " and ".join(x for x in (t, s) if x)
        if k == "pstruct":
            r = self.resolve(p[1])
            isstruct = r and r[0] == "item"
            t = "" if isstruct else "rt.is_(%s, %r)" % (v, p[1][-1])
            s = self.fields([("." + ("_" + n if n.isdigit() else kw(n)), q) for n, q in p[2]], v)
            return " and ".join(x for x in (t, s) if x)
        raise Untranslated("pattern " + k)
    def fields(self, fs, v):
        out = []
        for acc, q in fs:
            if q[0] in ("wild", "rest"): continue
            if q[0] == "bind" and not q[1][0].isupper():
                out.append("((%s := %s%s), True)[1]" % (self.bind(q[1]), v, acc)); continue
            w = self.fresh("m")
            t = self.test(q, w)
            out.append("((%s := %s%s), True)[1]%s" % (w, v, acc, " and " + t if t else ""))
        return "(" + " and ".join(out) + ")" if out else ""
    def ftypes(self, r):
        """(module, {field: type}) of a struct or variant"""
        if not r or r[0] not in ("item", "variant"): return None
        it = self.w.mods[r[1]]["items"].get(r[2])
        if it is None: return None
        if r[0] == "item" and it[0] == "struct": return (r[1], dict(it[2]))
        if r[0] == "variant" and it[0] == "enum":
            for v, fs in it[2]:
                if v == r[3]: return (r[1], dict(fs))
        return None
    def hint(self, e, o):
        """annotates the undeclared binder of a Map::new or Set::new of a known type"""
        o = self.w.expand(o) if o else None
        if o is None or o[1][0] != "path" or o[1][1][-1] not in ("Map", "Set", "IMap", "ISet") or not o[1][2]: return e
        if e[0] == "app" and e[1][0] == "path" and e[1][1] in (["Map", "new"], ["Set", "new"]) and e[2] and e[2][0][0] == "lambda" and len(e[2][0][1]) == 1 and e[2][0][1][0][1] is None:
            l = e[2][0]; l = (l[0], [(l[1][0][0], ("abs", o[0], o[1][2][0]))]) + tuple(l[2:])
            return (e[0], e[1], [l] + list(e[2][1:])) + tuple(e[3:])
        if e[0] == "block" and e[2] is not None: return (e[0], e[1], self.hint(e[2], o)) + tuple(e[3:])
        if e[0] == "if" and e[3] is not None: return (e[0], e[1], self.hint(e[2], o), self.hint(e[3], o)) + tuple(e[4:])
        return e
    def letuse(self, n, rest):
        """type of a let-bound name, from the struct field or the method argument it goes to"""
        found = []
        def walk(x):
            if isinstance(x, list):
                for y in x: walk(y)
                return
            if not isinstance(x, tuple): return
            if x and x[0] == "struct" and len(x) > 3 and isinstance(x[2], list):
                for f in x[2]:
                    if isinstance(f, tuple) and len(f) == 2 and f[1] == ("path", [n], []):
                        try:
                            r = self.resolve(x[1]); r = self.w.alias(r) if r and r[0] == "item" else r
                            ft = self.ftypes(r)
                        except Untranslated: ft = None
                        if ft and f[0] in ft[1]: found.append((ft[0], ft[1][f[0]]))
            for y in x: walk(y)
        walk(rest)
        return found[0] if found else None
    # closures and quantifiers
    def fnx(self, e):
        if e[0] == "lambda": return self.x_lambda(e)
        return self.ex(e)
    def x_lambda(self, e):
        sc = dict(self.sc); ns = []; pre = []
        for p, t in e[1]:
            if p[0] == "bind": ns.append(self.bind(p[1]))
            elif p[0] == "wild": ns.append(self.fresh("w"))
            else: v = self.fresh("a"); ns.append(v); pre.append(self.test(p, v))
        b = self.ex(e[2])
        if pre: b = "(%s, %s)[-1]" % (", ".join(pre), b)
        self.sc = sc
        return "(lambda %s: %s)" % (", ".join(ns), b)
    def lamspec(self, e, g=None):
        if e[0] != "lambda": return "(%r, [], [lambda: rt.members(%s)])" % (None, self.ex(e)) if False else "(None, [], [])"
        bs = e[1]
        if g is not None and g[0] == "lambda" and bs[0][1] is None and g[1][0][1] is not None: bs = [(bs[0][0], g[1][0][1])]
        return self.specs(bs, e[2], "exists")[0]
    def specs(self, bs, body, kind):
        """candidate specification per binder"""
        names = [p[1] if p[0] == "bind" else "_" for p, t in bs]
        conj = []
        def flat(x):
            if x[0] == "and":
                for y in x[1]: flat(y)
            elif x[0] == "block" and not x[1] and x[2] is not None: flat(x[2])
            elif x[0] == "block" and x[2] is not None: lets = x; flat(x[2])
            else: conj.append(x)
        if kind == "forall":
            b = body
            while True:
                while b[0] == "block" and not b[1] and b[2] is not None: b = b[2]
                if b[0] == "imp": flat(b[1]); b = b[2]
                else: break
        else: flat(body)
        out = []
        allx = []
        def walk(x):
            if isinstance(x, tuple):
                if x and x[0] in ("call", "idx"): allx.append(x)
                for y in x: walk(y)
            elif isinstance(x, list):
                for y in x: walk(y)
        walk(body)
        sc0 = dict(self.sc); bound = []
        for i, (p, t) in enumerate(bs):
            n = names[i]; later = set(names[i:])
            hard, soft = [], []
            pyn = [self.fresh("q") for _ in range(i)]
            for m, q in zip(names[:i], pyn): self.sc[m] = q
            for m in later: self.sc.pop(m, None)
            inner = self.letnames(body)
            def ok(x): return not (self.free(x) & (later | inner))
            def tr(fmt, *xs):
                try: return "lambda %s: %s" % (", ".join(pyn), fmt % tuple(self.ex(x) for x in xs))
                except Untranslated: return None
            def isv(x): return x == ("path", [n], []) or (x[0] == "as" and isv(x[1])) or (x[0] == "block" and not x[1] and x[2] is not None and isv(x[2]))
            for c in conj:
                if c[0] == "call" and c[2] in ("contains", "contains_key", "has") and len(c[3]) == 1 and isv(c[3][0]) and ok(c[1]):
                    hard.append(tr("rt.members(%s)", c[1]))
                elif c[0] == "cmp":
                    vs = [c[1]] + [b for _, b in c[2]]; ops = [o for o, _ in c[2]]
                    for j, x in enumerate(vs):
                        if not isv(x): continue
                        if all(o in ("<", "<=") for o in ops):
                            lo = hi = None
                            a = j; d = 0
                            while a > 0:
                                d += ops[a - 1] == "<"; a -= 1
                                if ok(vs[a]): lo = (vs[a], d); break
                            a = j; d = 0
                            while a < len(vs) - 1:
                                d += ops[a] == "<"; a += 1
                                if ok(vs[a]): hi = (vs[a], d); break
                            if lo and hi: hard.append(tr("range((%%s) + %d, (%%s) + 1 - %d)" % (lo[1], hi[1]), lo[0], hi[0]))
                            elif hi and (t and self.tname(t) in ("nat", "usize", "u64")): hard.append(tr("range(0, (%%s) + 1 - %d)" % hi[1], hi[0]))
                            elif hi: self._hi = hi
                        elif len(ops) == 1 and ops[0] in ("==", "===", "=~="):
                            o = vs[1 - j]
                            if ok(o): hard.append(tr("[%s]", o))
                elif c[0] in ("call",) and any(isv(x) for x in c[3]) and all(isv(x) or ok(x) for x in c[3]) and ok(c[1]):
                    pos = [isv(x) for x in c[3]].index(True)
                    hard.append(tr("rt.wit(%r, %%s, [%s], %d)" % (c[2], ", ".join("None" if isv(x) else "%s" for x in c[3]), pos), *([c[1]] + [x for x in c[3] if not isv(x)])))
                elif c[0] == "app" and c[1][0] == "path" and any(isv(x) for x in c[2]) and all(isv(x) or ok(x) for x in c[2]):
                    pos = [isv(x) for x in c[2]].index(True)
                    hard.append(tr("rt.wit(%r, None, [%s], %d)" % ("::".join(c[1][1][-2:]), ", ".join("None" if isv(x) else "%s" for x in c[2]), pos), *[x for x in c[2] if not isv(x)]))
            # two one-sided bounds in separate conjuncts
            lo = hi = None
            for c in conj:
                if c[0] == "cmp" and len(c[2]) == 1:
                    a, (o, b) = c[1], c[2][0]
                    for x, op, y in ((a, o, b), (b, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(o), a)):
                        if isv(x) and ok(y):
                            if op in ("<", "<="): hi = (y, op == "<")
                            elif op in (">", ">="): lo = (y, op == ">")
            if lo and hi: hard.append(tr("range((%%s) + %d, (%%s) + 1 - %d)" % (lo[1], hi[1]), lo[0], hi[0]))
            for x in allx:
                if x[0] == "call" and x[2] in ("contains", "contains_key") and len(x[3]) == 1 and isv(x[3][0]) and ok(x[1]): soft.append(tr("rt.some(%s)", x[1]))
                elif x[0] == "idx" and isv(x[2]) and ok(x[1]): soft.append(tr("(rt.indices(%s) or rt.some(%s))", x[1], x[1]))
            ty = self.tname(t) if t else self.infer(n, body)
            out.append("(%r, [%s], [%s])" % (ty, ", ".join(h for h in hard if h), ", ".join(dict.fromkeys(s for s in soft if s))))
            self.sc = dict(sc0)
        return out
    def letnames(self, x):
        """names bound by lets and patterns inside (they cannot occur in a guard evaluated outside)"""
        out = set()
        def pat(p):
            if isinstance(p, tuple):
                if p and p[0] in ("bind", "as") and len(p) > 1 and isinstance(p[1], str): out.add(p[1])
                for q in p[1:]: pat(q)
            elif isinstance(p, list):
                for q in p: pat(q)
        def walk(x):
            if isinstance(x, tuple):
                if x and x[0] == "let": pat(x[1])
                if x and x[0] in ("forall", "exists", "choose", "lambda") and len(x) == 3: pat([b[0] for b in x[1]])
                if x and x[0] == "match" and len(x) == 3: pat([a[0] for a in x[2]])
                if x and x[0] == "matches": pat(x[2])
                for y in x: walk(y)
            elif isinstance(x, list):
                for y in x: walk(y)
        walk(x)
        return out
    def free(self, x):
        out = set()
        def walk(x):
            if isinstance(x, tuple):
                if x and x[0] == "path" and len(x) > 1 and isinstance(x[1], list) and len(x[1]) == 1: out.add(x[1][0])
                for y in x: walk(y)
            elif isinstance(x, list):
                for y in x: walk(y)
        walk(x)
        return out
    def quant(self, e):
        pt = dict(self.pt)
        for p, t in e[1]:
            if p[0] == "bind":
                if t: self.pt[p[1]] = (self.mp, t)
                else: self.pt.pop(p[1], None)
        sp = self.specs(e[1], e[2], e[0])
        sc = dict(self.sc); ns = []; pre = []
        for p, t in e[1]:
            if p[0] == "bind": ns.append(self.bind(p[1]))
            else: v = self.fresh("a"); ns.append(v); pre.append(self.test(p, v))
        b = self.ex(e[2])
        if pre: b = "(%s, %s)[-1]" % (", ".join(pre), b)
        self.sc = sc; self.pt = pt
        return "rt.%s(lambda %s: %s, [%s])" % (e[0], ", ".join(ns), b, ", ".join(sp))
    x_forall = x_exists = x_choose = quant
DIRS = ("spec", "abstract_system", "journal", "betree", "allocation_layer", "disk")
def world(repo, dirs=DIRS):
    w = World(os.path.join(repo, "Splinter", "src"))
    return w.load(dirs)
if __name__ == "__main__":
    import time
    t = time.time(); w = world(sys.argv[1]); print("%.1fs" % (time.time() - t), len(w.fns), "functions", len(w.sms), "machines")
    import collections
    c = collections.Counter(b.split(": ", 1)[1] for b in w.bad)
    for k, n in c.most_common(60): print(n, k, [b for b in w.bad if b.endswith(k)][0][:100])
