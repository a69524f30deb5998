"""Modules, names and types of the Dafny dialect; type inference and ghost erasure for the compiled subset.

Demand driven: only what is reachable from the requested roots is resolved."""
from parse import *

class Ghost(Exception):
    """raised when an expression mentions specification-only state: the expression is erased"""

# ---- types
class T:
    __slots__ = ("con", "args")
    def __init__(self, con, args=()):
        self.con, self.args = con, tuple(args)
    def __repr__(self):
        return tstr(self)

class V:
    __slots__ = ("ref", "num", "id")
    n = 0
    def __init__(self, num=False):
        self.ref, self.num = None, num
        V.n += 1
        self.id = V.n
    def __repr__(self):
        return tstr(self)

def zonk(t):
    while isinstance(t, V) and t.ref is not None:
        t = t.ref
    return t

def tstr(t):
    t = zonk(t)
    if isinstance(t, V):
        return f"?{t.id}{'n' if t.num else ''}"
    c = t.con if isinstance(t.con, str) else t.con.name
    return c + (f"<{', '.join(tstr(a) for a in t.args)}>" if t.args else "")

INT, BOOL, CHAR, REAL, ORD = T("int"), T("bool"), T("char"), T("real"), T("ORDINAL")
def is_num(t):
    t = zonk(t)
    return isinstance(t, T) and (t.con in ("int", "real", "ORDINAL") or isinstance(t.con, Decl) and t.con.kind == "newtype" or isinstance(t.con, str) and t.con.startswith("bv"))

class TypeErr(Exception):
    pass

def unify(a, b, tok=None):
    a, b = zonk(a), zonk(b)
    if a is b:
        return
    if isinstance(a, V):
        if isinstance(b, V):
            if a.num:
                b.num = True
            a.ref = b
            return
        if a.num and not is_num(b):
            raise TypeErr(f"{tok}: numeric expected, got {tstr(b)}")
        a.ref = b
        return
    if isinstance(b, V):
        return unify(b, a, tok)
    if a.con != b.con or len(a.args) != len(b.args):
        raise TypeErr(f"{tok}: type mismatch {tstr(a)} vs {tstr(b)}")
    for x, y in zip(a.args, b.args):
        unify(x, y, tok)

def subst(t, env):
    t = zonk(t)
    if isinstance(t, V):
        return t
    if isinstance(t.con, str) and t.con.startswith("tp:"):
        return env.get(t.con[3:], t)
    if not t.args:
        return t
    return T(t.con, [subst(a, env) for a in t.args])

# ---- declarations
class Decl:
    def __init__(self, kind, name, node, mod, owner=None):
        self.kind, self.name, self.node, self.mod, self.owner = kind, name, node, mod, owner
        self.members = {}
        self.cache = {}
    def __repr__(self):
        return f"<{self.kind} {self.mod.name}.{(self.owner.name + '.') if self.owner else ''}{self.name}>"
    @property
    def tparams(self):
        return getattr(self.node, "tparams", [])

class Module:
    def __init__(self, name, node, parent):
        self.name, self.node, self.parent = name, node, parent
        self.decls, self.ctors, self.imports, self.subs = {}, {}, {}, {}
        self.abstract = node.abstract
        self.attrs = dict((a, b) for a, b in node.attrs)
        self.ready = False
    def __repr__(self):
        return f"<module {self.name}>"

class Program:
    def __init__(self, root):
        self.top = {}
        self.files = load(root)
        self.root = Module("_root", N("module", None, name=["_root"], attrs=[], refines=None, abstract=False, decls=[]), None)
        self.root.ready = True
        loose = []
        for f, ds in self.files:
            for d in ds:
                if d.k == "module":
                    self.add_module(d, self.root)
                else:
                    loose.append(d)
        self.root.node.decls = loose
        self.fill(self.root, loose)

    def add_module(self, node, parent):
        m = Module(node.name[-1] if parent is self.root else parent.name + "." + node.name[-1], node, parent)
        (self.top if parent is self.root else parent.subs)[node.name[-1]] = m
        for d in node.decls:
            if d.k == "module":
                self.add_module(d, m)

    def mod(self, name):
        m = self.top[name] if isinstance(name, str) else name
        return self.prep(m)

    def prep(self, m):
        if not m.ready:
            m.ready = True
            nodes = list(m.node.decls)
            if m.node.refines:
                base = self.find_module(m.parent, m.node.refines)
                self.prep(base)
                m.base = base
                nodes = self.refine(base.allnodes, nodes)
            m.allnodes = nodes
            self.fill(m, nodes)
        return m

    def refine(self, base, over):
        """declarations of the refining module replace those of the base with the same name"""
        def key(d):
            return ("i" if d.k == "import" else "m" if d.k == "module" else "d", d.name if isinstance(d.name, (str, type(None))) else tuple(d.name)) if d.k != "export" else None
        om = {key(d): d for d in over}
        out = []
        for d in base:
            k = key(d)
            if k and k in om:
                o = om[k]
                if d.k in ("function", "method") and o.k == d.k and d.k == "function" and o.body is None and d.body is not None:
                    o.body, o.parser = d.body, d.parser
                if d.k == "function" and o.k == "function":
                    if o.formals is None:
                        o.formals = d.formals
                    if o.ret is None:
                        o.ret, o.rname, o.ruse = d.ret, d.rname, d.ruse
                    if not o.attrs:
                        o.attrs = d.attrs
                if d.k == "method" and o.k == "method" and not o.attrs:
                    o.attrs = d.attrs
                if d.k == "class" and o.k == "class":
                    o.members = self.refine(d.members, o.members)
                continue
            out.append(d)
        return out + over

    def fill(self, m, nodes):
        for d in nodes:
            if d.k == "import":
                m.imports[d.name] = d
            elif d.k in ("export",):
                pass
            elif d.k == "module":
                pass
            else:
                self.add_decl(m, d)

    def add_decl(self, m, d):
        kind = d.k
        D = Decl(kind, d.name, d, m)
        m.decls[d.name] = D
        if kind in ("datatype", "class"):
            for x in d.members:
                D.members[x.name] = Decl(x.k, x.name, x, m, D)
            if kind == "datatype":
                for i, c in enumerate(d.ctors):
                    m.ctors.setdefault(c.name, []).append((D, i))
        return D

    def find_module(self, m, path):
        """resolve a module path as seen from m"""
        cur = self.lookup_mod(m, path[0])
        for p in path[1:]:
            self.prep(cur)
            nxt = cur.subs.get(p) or (self.imported(cur, p) if p in cur.imports else None)
            if nxt is None:
                raise DfyError(f"module {'.'.join(path)} not found from {m.name}")
            cur = nxt
        return cur

    def lookup_mod(self, m, name):
        if m is not self.root and m is not None:
            if name in m.subs:
                return m.subs[name]
            if m.ready and name in m.imports:
                return self.imported(m, name)
            for s in [m.parent]:
                if s is not None and s is not self.root:
                    try:
                        return self.lookup_mod(s, name)
                    except DfyError:
                        pass
        if name in self.top:
            return self.top[name]
        raise DfyError(f"module {name} not found from {m and m.name}")

    def imported(self, m, name):
        d = m.imports[name]
        # `import X = X`-style names must not find themselves
        if d.path[0] == d.name:
            cur = None
            s = m.parent
            while s is not None and cur is None:
                if s is self.root:
                    cur = self.top.get(d.path[0])
                else:
                    cur = s.subs.get(d.path[0]) or (self.imported(s, d.path[0]) if d.path[0] in s.imports else None)
                s = s.parent
            if cur is None:
                cur = m.subs.get(d.path[0])
            if cur is None:
                raise DfyError(f"module {d.path[0]} not found from {m.name}")
            for p in d.path[1:]:
                self.prep(cur)
                cur = cur.subs.get(p) or self.imported(cur, p)
            return self.prep(cur)
        return self.prep(self.find_module(m, d.path))

    # --- name lookup in module scope: ("mod", m) | ("decl", D) | ("ctor", D, i) | list of candidates
    def lookup(self, m, name, own_only=False):
        c = m.cache_ if hasattr(m, "cache_") else None
        if c is None:
            c = m.cache_ = {}
        k = (name, own_only)
        if k not in c:
            c[k] = self.lookup_(m, name, own_only)
        return c[k]

    def lookup_(self, m, name, own_only):
        if name in m.decls:
            r = [("decl", m.decls[name])]
            if name in m.ctors:
                r += [("ctor",) + x for x in m.ctors[name]]
            return r
        if name in m.ctors:
            return [("ctor",) + x for x in m.ctors[name]]
        if name in m.imports:
            return [("mod", self.imported(m, name))]
        if name in m.subs:
            return [("mod", self.prep(m.subs[name]))]
        if own_only:
            return []
        out, mods = [], []
        for iname, d in m.imports.items():
            if d.opened:
                im = self.imported(m, iname)
                for r in self.lookup(im, name, True):
                    o = mods if r[0] == "mod" else out
                    if r not in o:
                        o.append(r)
        if out or mods:
            return out or mods
        if m.parent is not None and m.parent is not self.root:
            return self.lookup(m.parent, name)
        if name in self.root.decls:
            return [("decl", self.root.decls[name])]
        if name in self.root.ctors:
            return [("ctor",) + x for x in self.root.ctors[name]]
        if name in self.top and m.parent is not None:
            return [("mod", self.prep(self.top[name]))] if m.parent is not self.root else []
        return []

    # --- types
    BUILTIN = {"int": INT, "nat": INT, "char": CHAR, "real": REAL, "ORDINAL": ORD}
    def rtype(self, ty, m, env, auto=None, use=()):
        """syntactic type -> T.  auto: list of types for omitted arguments, or 'var' for fresh variables"""
        r = self.rtype_(ty, m, env, auto)
        if ("linear" in use or "shared" in use) and isinstance(zonk(r), T) and zonk(r).con == "seq":
            return T("lseq!", zonk(r).args)
        return r

    def rtype_(self, ty, m, env, auto):
        if ty is None:
            return V()
        if ty[0] == "bool":
            return BOOL
        if ty[0] == "tuple":
            cs = [(u, t) for u, t in ty[1] if "ghost" not in u]
            return T("tuple", [self.rtype(t, m, env, auto, u) for u, t in cs])
        if ty[0] == "fn":
            return T("fn", [self.rtype(t, m, env, auto, u) for u, t in zip(ty[3], ty[1])] + [self.rtype(ty[2], m, env, auto)])
        _, path, args = ty
        n = path[0]
        if len(path) == 1:
            if n in env:
                return env[n]
            if n in self.BUILTIN:
                return self.BUILTIN[n]
            if n == "string":
                return T("seq", [CHAR])
            if n in ("object", "object?"):
                return T("object")
            if re.fullmatch(r"bv\d+", n):
                return T(n)
            if n in ("seq", "set", "iset", "map", "imap", "multiset", "array", "array?"):
                k = 2 if n in ("map", "imap") else 1
                a = [self.rtype(x, m, env, auto) for x in args] if args else [V() for _ in range(k)]
                return T(n.rstrip("?"), a)
        d = self.rpath_decl(path, m)
        if d is None:
            raise DfyError(f"type {'.'.join(path)} not found in {m.name}")
        k = len(d.tparams)
        if args:
            a = [self.rtype(x, m, env, auto) for x in args]
        elif k == 0:
            a = []
        elif auto == "var" or auto is None:
            a = [V() for _ in range(k)]
        else:
            a = list(auto[:k])
            while len(a) < k:
                a.append(V())
        if len(a) != k:
            raise DfyError(f"type {'.'.join(path)}: {k} arguments expected, {len(a)} given")
        return self.inst_decl(d, a)

    def inst_decl(self, d, a):
        if d.kind == "typedecl":
            if d.node.ty is not None or d.node.pred is not None:
                base = ("name", ["int"], []) if d.node.ty is None else d.node.ty
                key = "alias"
                if d.node.ty is None:
                    raise DfyError(f"subset type without a base: {d}")
                return self.rtype(d.node.ty, d.mod, dict(zip(d.tparams, a)))
            return T(d, a)
        return T(d, a)

    def rpath_decl(self, path, m):
        """resolve a path to a type declaration"""
        cur = m
        for i, p in enumerate(path):
            rs = self.lookup(cur, p, own_only=cur is not m)
            last = i == len(path) - 1
            if not rs and last and p.endswith("?"):
                rs = self.lookup(cur, p[:-1], own_only=cur is not m)
            if last:
                for r in rs:
                    if r[0] == "decl" and r[1].kind in ("datatype", "newtype", "typedecl", "class", "codatatype"):
                        return r[1]
                return None
            mods = [r[1] for r in rs if r[0] == "mod"]
            if not mods:
                try:
                    cur = self.prep(self.find_module(cur, [p]))
                except DfyError:
                    return None
            else:
                cur = mods[0]
        return None

# ---- signatures
class Sig:
    pass

def is_compiled(d):
    n = d.node
    if n.k == "function":
        return n.compiled and "ghost" not in n.mods
    if n.k == "method":
        return not n.ghost
    return True

class Local:
    __slots__ = ("name", "ty", "ghost", "cname", "byref", "use")
    def __init__(self, name, ty, ghost=False, cname=None, byref=False):
        self.name, self.ty, self.ghost, self.cname, self.byref = name, ty, ghost, cname, byref

GHOSTK = {"quant", "old", "fresh", "allocated", "unchanged", "multisetof", "msetlit"}

class Checker:
    """types one callable body, pruning its ghost parts"""
    def __init__(self, prog, d):
        self.p, self.d, self.m = prog, d, d.mod
        self.scopes = []
        self.locals = []
        self.uses = []          # callables and types used, filled by the emitter
        s = sig(prog, d)
        self.sig = s
        self.tenv = s.tenv

    # scopes
    def push(self):
        self.scopes.append({})
    def pop(self):
        self.scopes.pop()
    def bind(self, name, ty, ghost=False):
        l = Local(name, ty, ghost)
        if name != "_":
            self.scopes[-1][name] = l
        if not ghost:
            self.locals.append(l)
            l.cname = cid(name) + "_" + str(len(self.locals))
        return l
    def find(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        return None

    def err(self, n, msg):
        t = n.tok if isinstance(n, N) else n
        return TypeErr(f"{t}: {msg} (in {self.d})")

    def unify(self, a, b, n):
        try:
            unify(a, b)
        except TypeErr as e:
            raise self.err(n, str(e))

    # --- entry
    def run(self):
        s, d = self.sig, self.d
        self.push()
        self.params = []
        for f in s.formals:
            l = self.bind(f.name, f.ty, f.ghost)
            l.byref = f.byref
            if "inout" in f.use:
                self.scopes[-1]["old_" + f.name] = Local("old_" + f.name, f.ty, True)
            if not f.ghost:
                self.params.append(l)
        if s.recv is not None:
            l = self.bind("self", s.recv, s.recvghost)
            self.scopes[-1]["this"] = l
            self.scopes[-1]["old_self"] = Local("old_self", s.recv, True)
            self.selfl = l
        else:
            self.selfl = None
        if d.kind == "function":
            self.push()
            body = d.node.parser.fbody(d.node.body)
            t = self.infer(body, s.ret)
            self.unify(t, s.ret, body)
            return body
        self.outs = []
        for f in s.outs:
            l = self.bind(f.name, f.ty, f.ghost)
            if not f.ghost:
                self.outs.append(l)
        self.push()
        return self.block(d.node.parser.mbody(d.node.body))

    # --- statements: return pruned lists
    def block(self, ss):
        self.push()
        out = []
        for s in ss:
            r = self.stmt(s)
            if r is None:
                continue
            out += r if isinstance(r, list) else [r]
        self.pop()
        return out

    def stmt(self, s):
        return getattr(self, "s_" + s.k)(s)

    def s_block(self, s):
        s.body = self.block(s.body)
        return s if s.body else None

    def s_dots(self, s):
        return None
    def s_forallstmt(self, s):
        return None
    def s_break(self, s):
        return s

    def s_print(self, s):
        for e in s.es:
            self.infer(e)
        return s

    def call_info(self, e):
        """if e is a call of a method: its Decl; raises Ghost for lemmas and ghost methods"""
        if e.k == "call":
            r = self.callee(e)
            if r[0] in ("fun", "smeth", "meth") and r[1].kind == "method":
                return r
        return None

    def s_callstmt(self, s):
        try:
            c = self.call_info(s.e)
            if c is None:
                # a function used as a statement, e.g. a linear free
                self.infer(s.e)
                return s
            self.method_call(s.e, c)
        except Ghost:
            return None
        s.lhs = [None] * len(s.e.outs)
        return s

    def method_call(self, e, c):
        """types a method call; e.outs: [(type, ghost)]"""
        d = c[1]
        if not is_compiled(d):
            raise Ghost()
        outs = self.apply(e, c)
        return outs

    def s_var(self, s):
        vs = s.vs
        if s.cond is not None:
            for n, t, u in vs:
                if "ghost" in u:
                    self.bind(n, None, True)
            if any("ghost" not in u for _, _, u in vs):
                # `var x :| P` — executable only in bounded forms; treated as ghost, a later use will complain
                for n, t, u in vs:
                    self.bind(n, None, True)
            return None
        def decl_ty(t, u):
            return self.p.rtype(t, self.m, self.tenv, "var", u) if t is not None else V()
        if s.rhs is None:
            out = []
            for n, t, u in vs:
                if "ghost" in u:
                    self.bind(n, None, True)
                else:
                    out.append(self.bind(n, decl_ty(t, u)))
            s.locs = out
            s.kind = "decl"
            return s if out else None
        if len(s.rhs) == 1 and s.rhs[0].k == "call":
            try:
                c = self.call_info(s.rhs[0])
                if c is not None:
                    outs = self.method_call(s.rhs[0], c)
                    if len(outs) != len(vs):
                        raise self.err(s, f"{len(outs)} results for {len(vs)} variables")
                    s.lhs = []
                    for (n, t, u), (ty, g) in zip(vs, outs):
                        if g or "ghost" in u:
                            self.bind(n, None, True)
                            s.lhs.append(None)
                        else:
                            if t is not None:
                                self.unify(decl_ty(t, u), ty, s)
                            s.lhs.append(self.bind(n, ty))
                    s.kind = "call"
                    return s
            except Ghost:
                for n, t, u in vs:
                    self.bind(n, None, True)
                return None
        if len(s.rhs) != len(vs):
            raise self.err(s, "number of initialisers")
        res = []
        new = []
        for (n, t, u), e in zip(vs, s.rhs):
            if "ghost" in u:
                new.append((n, None, True, None))
                continue
            try:
                ty = decl_ty(t, u)
                et = self.infer(e, ty)
                self.unify(ty, et, e)
                new.append((n, ty, False, e))
            except Ghost:
                new.append((n, None, True, None))
        for n, ty, g, e in new:
            l = self.bind(n, ty, g)
            if not g:
                res.append((l, e))
        s.pairs = res
        s.kind = "init"
        return s if res else None

    def s_varpat(self, s):
        try:
            t = self.infer(s.e)
        except Ghost:
            self.bind_ghost_pat(s.pat)
            return None
        if "ghost" in s.use:
            self.bind_ghost_pat(s.pat)
            return None
        self.pattern(s.pat, t)
        return s

    def bind_ghost_pat(self, p):
        if p.k == "pvar":
            self.bind(p.name, None, True)
        elif p.k in ("ptuple", "pctor"):
            for q in p.ps:
                self.bind_ghost_pat(q)

    def s_assignst(self, s):
        for l in s.lhs:
            try:
                self.infer(l)
            except Ghost:
                continue
            raise self.err(s, "assign-such-that to a compiled variable")
        return None

    def lhs_ok(self, l):
        """type of an assignable, or None if ghost"""
        if l.k == "id" and l.name == "_":
            return "skip"
        try:
            return self.infer(l)
        except Ghost:
            return None

    def s_assign(self, s):
        if s.ghost:
            return None
        if len(s.rhs) == 1 and s.rhs[0].k == "call":
            try:
                c = self.call_info(s.rhs[0])
                if c is not None:
                    outs = self.method_call(s.rhs[0], c)
                    if len(outs) != len(s.lhs):
                        raise self.err(s, f"{len(outs)} results for {len(s.lhs)} targets")
                    for l, (ty, g) in zip(s.lhs, outs):
                        lt = self.lhs_ok(l)
                        l.skip = lt is None or g or lt == "skip"
                        if not l.skip:
                            self.unify(lt, ty, l)
                    s.kind = "call"
                    return s
            except Ghost:
                return None
        if len(s.rhs) != len(s.lhs):
            raise self.err(s, "assignment arity")
        pairs = []
        for l, r in zip(s.lhs, s.rhs):
            lt = self.lhs_ok(l)
            if lt is None:
                continue
            if lt == "skip":
                try:
                    self.infer(r)
                    pairs.append((None, r))
                except Ghost:
                    pass
                continue
            try:
                rt = self.infer(r, lt)
            except Ghost:
                raise self.err(s, "ghost value assigned to a compiled variable")
            self.unify(lt, rt, s)
            pairs.append((l, r))
        s.pairs = pairs
        s.kind = "assign"
        return s if pairs else None

    def s_if(self, s):
        if s.c.k == "bindguard":
            return None
        if s.c.k == "star":
            return None
        try:
            t = self.infer(s.c, BOOL)
        except Ghost:
            return None
        self.unify(t, BOOL, s.c)
        s.a = self.block(s.a)
        s.b = self.block(s.b) if s.b is not None else []
        return s if True else None

    def s_alt(self, s):
        out = []
        for g, b in s.alts:
            try:
                self.infer(g, BOOL)
            except Ghost:
                return None
            out.append((g, self.block(b)))
        s.alts = out
        return s

    def s_while(self, s):
        if s.c.k == "star":
            return None
        try:
            t = self.infer(s.c, BOOL)
        except Ghost:
            return None
        self.unify(t, BOOL, s.c)
        if s.body is None:
            raise self.err(s, "loop without a body")
        s.body = self.block(s.body)
        return s

    def s_matchstmt(self, s):
        try:
            t = self.infer(s.e)
        except Ghost:
            return None
        cs = []
        for p, b in s.cases:
            self.push()
            self.pattern(p, t, True)
            cs.append((p, self.block(b)))
            self.pop()
        s.cases = cs
        return s

    def s_return(self, s):
        if s.es:
            if len(s.es) == 1 and s.es[0].k == "call":
                c = self.call_info(s.es[0])
                if c is not None:
                    outs = self.method_call(s.es[0], c)
                    for f, (ty, g) in zip(self.sig.outs, outs):
                        if not f.ghost:
                            self.unify(f.ty, ty, s)
                    s.kind = "call"
                    return s
            r = []
            for f, e in zip(self.sig.outs, s.es):
                if f.ghost:
                    continue
                t = self.infer(e, f.ty)
                self.unify(t, f.ty, e)
                r.append(e)
            s.es = r
            s.kind = "vals"
        else:
            s.kind = "bare"
        return s

    # --- patterns
    def pattern(self, p, t, inmatch=False):
        """binds a pattern against type t"""
        tz = zonk(t)
        if p.k == "pvar":
            # a nullary constructor?
            if isinstance(tz, T) and isinstance(tz.con, Decl) and tz.con.kind == "datatype":
                for i, c in enumerate(tz.con.node.ctors):
                    if c.name == p.name and (not c.formals) and inmatch:
                        p.k, p.ps, p.path, p.fields = "pctor", [], [p.name], []
                        p.D, p.ci, p.ty = tz.con, i, t
                        return
            if p.name == "_":
                p.loc = None
                return
            if p.ty is not None and not isinstance(p.ty, (T, V)):
                self.unify(self.p.rtype(p.ty, self.m, self.tenv, "var"), t, p)
            p.loc = self.bind(p.name, t)
            return
        if p.k == "plit":
            if isinstance(p.v, bool):
                self.unify(t, BOOL, p)
            p.ty = t
            return
        if p.k == "ptuple":
            if not isinstance(tz, T) or tz.con != "tuple":
                tz = T("tuple", [V() for _ in p.ps])
                self.unify(t, tz, p)
            p.ty = tz
            if len(tz.args) != len(p.ps):
                raise self.err(p, "tuple pattern")
            for q, a in zip(p.ps, tz.args):
                self.pattern(q, a, inmatch)
            return
        # constructor
        if not isinstance(tz, T) or not isinstance(tz.con, Decl) or tz.con.kind != "datatype":
            # determine from the constructor name
            c = self.find_ctor(p.path)
            tz = T(c[0], [V() for _ in c[0].tparams])
            self.unify(t, tz, p)
        D = tz.con
        for i, c in enumerate(D.node.ctors):
            if c.name == p.path[-1]:
                p.D, p.ci, p.ty = D, i, tz
                fs = ctor_fields(self.p, D, i)
                if len(fs) != len(p.ps):
                    raise self.err(p, "constructor pattern arity")
                env = dict(zip(D.tparams, tz.args))
                for q, f in zip(p.ps, fs):
                    if f.ghost:
                        self.bind_ghost_pat(q)
                        q.skip = True
                    else:
                        self.pattern(q, subst(f.ty, env), inmatch)
                        q.skip = False
                p.fields = fs
                return
        raise self.err(p, f"constructor {p.path} not of {D}")

    def find_ctor(self, path):
        if len(path) == 1:
            for r in self.p.lookup(self.m, path[0]):
                if r[0] == "ctor":
                    return r[1], r[2]
        else:
            d = self.p.rpath_decl(path[:-1], self.m)
            if d is None:
                mm = self.p.find_module(self.m, path[:-1])
                for r in self.p.lookup(self.p.prep(mm), path[-1], True):
                    if r[0] == "ctor":
                        return r[1], r[2]
            elif d.kind == "typedecl":
                t = self.p.inst_decl(d, [V() for _ in d.tparams])
                d = t.con
            for i, c in enumerate(d.node.ctors):
                if c.name == path[-1]:
                    return d, i
        raise DfyError(f"constructor {'.'.join(path)} not found in {self.m.name}")

    # --- expressions
    def infer(self, e, exp=None):
        if e.k in GHOSTK:
            raise Ghost()
        t = getattr(self, "e_" + e.k)(e, exp)
        e.ty = t
        return t

    def e_paren(self, e, exp):
        return self.infer(e.e, exp)
    def e_inoutarg(self, e, exp):
        return self.infer(e.e, exp)
    def e_stmtexpr(self, e, exp):
        return self.infer(e.e, exp)
    def e_boollit(self, e, exp):
        return BOOL
    def e_num(self, e, exp):
        x = zonk(exp) if exp is not None else None
        if isinstance(x, T) and is_num(x):
            return x
        if isinstance(x, V):
            x.num = True
            return x
        return V(True)
    def e_real(self, e, exp):
        raise Ghost()
    def e_str(self, e, exp):
        return T("seq", [CHAR])
    def e_chr(self, e, exp):
        return CHAR
    def e_null(self, e, exp):
        return exp if exp is not None else V()
    def e_star(self, e, exp):
        raise Ghost()
    def e_letst(self, e, exp):
        raise Ghost()
    def e_setcomp(self, e, exp):
        raise Ghost()
    def e_mapcomp(self, e, exp):
        raise Ghost()

    def e_this(self, e, exp):
        l = self.find("this")
        if l is None or l.ghost:
            raise Ghost()
        e.loc = l
        return l.ty

    def e_id(self, e, exp):
        n = e.name
        l = self.find(n)
        if l is not None:
            if l.ghost:
                raise Ghost()
            e.ent = ("local", l)
            return l.ty
        r = self.resolve_name(e, n, exp)
        return self.entity(e, r, exp)

    def resolve_name(self, e, n, exp=None):
        """unqualified name that is not a local: ("field", f) | ("fun", D, ownertype) | ("ctor", D, i) | ("mod", m) | ("type", D) | ("const", D)"""
        o = self.d.owner
        if o is not None:
            r = self.member_of(o, n)
            if r is not None:
                if r[0] == "field" or r[0] == "disc" or r[0] in ("fun",) and not (r[1].node.static or r[1].owner is None):
                    if self.selfl is None:
                        if r[0] == "fun":
                            raise Ghost()
                        raise self.err(e, f"{n} needs a receiver")
                    return ("selfmember", r)
                return r
        rs = self.p.lookup(self.m, n)
        if not rs and n in ("nat", "int"):
            pass
        if not rs:
            if n.startswith("reveal_") or n.startswith("old_"):
                raise Ghost()
            raise self.err(e, f"unknown name {n}")
        if len(rs) > 1:
            # several constructors or declarations: prefer the expected type
            x = zonk(exp) if exp is not None else None
            if isinstance(x, T) and isinstance(x.con, Decl):
                for r in rs:
                    if r[0] == "ctor" and r[1] is x.con:
                        return r
            funs = [r for r in rs if r[0] == "decl" and r[1].kind in ("function", "method", "const")]
            if funs:
                rs = funs
            else:
                cs = [r for r in rs if r[0] == "ctor"]
                if cs:
                    rs = cs
        return self.norm(rs[0])

    def norm(self, r):
        if r[0] == "decl":
            d = r[1]
            if d.kind in ("function", "method"):
                return ("fun", d)
            if d.kind == "const":
                return ("const", d)
            if d.kind == "field":
                return ("field", d)
            return ("type", d)
        return r

    def member_of(self, D, n):
        """member n of a datatype/class declaration"""
        if n in D.members:
            x = D.members[n]
            if x.kind == "field":
                return ("field", D, n)
            if x.kind == "const":
                return ("const", x)
            return ("fun", x)
        if D.kind == "datatype":
            if n.endswith("?"):
                for i, c in enumerate(D.node.ctors):
                    if c.name == n[:-1]:
                        return ("disc", D, i)
            for i, c in enumerate(D.node.ctors):
                for f in c.formals:
                    if f.name == n and not f.anon:
                        return ("field", D, n)
        return None

    def entity(self, e, r, exp):
        """type of a resolved non-call use"""
        e.ent = r
        if r[0] == "ctor":
            D, i = r[1], r[2]
            t = T(D, [V() for _ in D.tparams])
            if exp is not None and isinstance(zonk(exp), T):
                try:
                    unify(t, exp)
                except TypeErr:
                    pass
            if [f for f in ctor_fields(self.p, D, i)]:
                raise self.err(e, f"constructor {D.node.ctors[i].name} needs arguments")
            return t
        if r[0] == "const":
            d = r[1]
            if d.node.ghost:
                raise Ghost()
            return const_type(self.p, d)
        if r[0] == "fun":
            d = r[1]
            if not is_compiled(d):
                raise Ghost()
            s = sig(self.p, d)
            env = self.inst(d, s, getattr(e, "targs", None))
            e.env = env
            e.fn = d
            return T("fn", [subst(f.ty, env) for f in s.formals if not f.ghost] + [subst(s.ret, env)])
        if r[0] == "selfmember":
            e.ent = r
            return self.member_type(e, self.selfl.ty, r[1], exp)
        if r[0] in ("type", "mod"):
            raise self.err(e, f"type or module {r[1]} used as a value")
        raise self.err(e, f"entity {r}")

    def member_type(self, e, bt, r, exp):
        """type of base.member, r from member_of"""
        bt = zonk(bt)
        if self.selfl is not None and bt is zonk(self.selfl.ty) and self.selfl.ghost:
            raise Ghost()
        if r[0] == "disc":
            return BOOL
        if r[0] == "field":
            D, n = r[1], r[2]
            ty, ghost = field_type(self.p, D, n)
            if ghost:
                raise Ghost()
            return subst(ty, dict(zip(D.tparams, bt.args)))
        if r[0] == "const":
            if r[1].node.ghost:
                raise Ghost()
            return const_type(self.p, r[1])
        if r[0] == "fun":
            if not is_compiled(r[1]):
                raise Ghost()
            raise self.err(e, "method value")
        raise self.err(e, f"member {r}")

    def inst(self, d, s, targs):
        env = {}
        tps = list(s.tparams)
        if targs:
            ts = [self.p.rtype(t, self.m, self.tenv, "var") for t in targs]
            own = list(d.node.tparams)
            for a, b in zip(own, ts):
                env[a] = b
        for tp in tps:
            env.setdefault(tp, V())
        return env

    def qualifier(self, e):
        """if e denotes a module or a type: ("mod", m) or ("type", D, targs); else None"""
        if e.k == "id":
            if self.find(e.name) is not None:
                return None
            o = self.d.owner
            if o is not None and self.member_of(o, e.name) is not None:
                return None
            rs = self.p.lookup(self.m, e.name)
            for r in rs:
                if r[0] == "mod":
                    return r
                if r[0] == "decl" and r[1].kind in ("datatype", "class", "typedecl", "newtype"):
                    if any(q[0] == "ctor" for q in rs) and False:
                        return None
                    return ("type", r[1], e.targs)
            if not rs:
                try:
                    return ("mod", self.p.prep(self.p.find_module(self.m, [e.name])))
                except DfyError:
                    return None
            return None
        if e.k == "member":
            q = self.qualifier(e.e)
            if q is None:
                return None
            if q[0] == "mod":
                for r in self.p.lookup(q[1], e.name, True):
                    if r[0] == "mod":
                        return r
                    if r[0] == "decl" and r[1].kind in ("datatype", "class", "typedecl", "newtype"):
                        return ("type", r[1], e.targs)
            return None
        return None

    def in_qualifier(self, e, q, exp):
        """entity e.name in qualifier q"""
        if q[0] == "mod":
            rs = self.p.lookup(q[1], e.name, True)
            if not rs:
                if e.name.startswith("reveal_"):
                    raise Ghost()
                raise self.err(e, f"{e.name} not in module {q[1].name}")
            x = zonk(exp) if exp is not None else None
            if isinstance(x, T):
                for r in rs:
                    if r[0] == "ctor" and r[1] is x.con:
                        return r
            fs = [r for r in rs if r[0] == "decl" and r[1].kind in ("function", "method", "const")]
            cs = [r for r in rs if r[0] == "ctor"]
            return self.norm((fs or cs or rs)[0])
        D = q[1]
        if D.kind == "typedecl":
            t = self.p.inst_decl(D, [V() for _ in D.tparams])
            if not isinstance(t.con, Decl):
                raise self.err(e, f"member of type {D}")
            D = t.con
        if D.kind == "datatype":
            for i, c in enumerate(D.node.ctors):
                if c.name == e.name:
                    return ("ctor", D, i)
        r = self.member_of(D, e.name)
        if r is None:
            if e.name.startswith("reveal_"):
                raise Ghost()
            raise self.err(e, f"{e.name} not in {D}")
        return r

    def e_member(self, e, exp):
        q = self.qualifier(e.e)
        if q is not None:
            r = self.in_qualifier(e, q, exp)
            e.qual = True
            return self.entity(e, r, exp)
        e.qual = False
        bt = zonk(self.infer(e.e))
        if isinstance(bt, V):
            raise self.err(e, f"type of the receiver of .{e.name} unknown")
        if bt.con == "tuple" and e.name.isdigit():
            e.ent = ("tup", int(e.name))
            return bt.args[int(e.name)]
        if bt.con == "array" and e.name == "Length":
            e.ent = ("arrlen",)
            return INT
        if bt.con in ("map", "imap") and e.name in ("Keys", "Values", "Items"):
            e.ent = ("mapkeys", e.name)
            if e.name == "Items":
                return T("set", [T("tuple", bt.args)])
            return T("set", [bt.args[0 if e.name == "Keys" else 1]])
        if bt.con in ("int", "real") or not isinstance(bt.con, Decl):
            raise Ghost()
        r = self.member_of(bt.con, e.name)
        if r is None:
            if e.name.startswith("reveal_"):
                raise Ghost()
            raise self.err(e, f"{bt} has no member {e.name}")
        e.ent = ("member", r)
        return self.member_type(e, bt, r, exp)

    # calls
    def callee(self, e):
        """resolve what a call calls: ("fun", D) static/module level, ("meth", D, recvexpr), ("ctor", D, i), ("value",)"""
        if hasattr(e, "callee_"):
            return e.callee_
        f = e.f
        r = None
        if f.k == "paren":
            f = f.e
        if f.k == "id":
            if self.find(f.name) is not None:
                if self.find(f.name).ghost:
                    raise Ghost()
                r = ("value",)
            else:
                r = self.resolve_name(f, f.name, getattr(e, "exp_", None))
                if r[0] == "selfmember":
                    if r[1][0] == "fun":
                        r = ("meth", r[1][1], None)
                    else:
                        r = ("value",)
        elif f.k == "member":
            q = self.qualifier(f.e)
            if q is not None:
                r = self.in_qualifier(f, q, getattr(e, "exp_", None))
                if r[0] == "fun" and q[0] == "type":
                    e.qtargs = q[2]
            else:
                bt = zonk(self.infer(f.e))
                if isinstance(bt, V):
                    raise self.err(e, f"type of the receiver of .{f.name}() unknown")
                if not isinstance(bt.con, Decl):
                    raise Ghost() if f.name in ("requires", "reads") else self.err(e, f"call of member {f.name} of {bt}")
                x = self.member_of(bt.con, f.name)
                if x is None:
                    if f.name.startswith("reveal_"):
                        raise Ghost()
                    raise self.err(e, f"{bt} has no member {f.name}")
                r = ("meth", x[1], f.e) if x[0] == "fun" else ("value",)
        else:
            r = ("value",)
        if r[0] in ("fun", "meth") and not is_compiled(r[1]):
            raise Ghost()
        e.callee_ = r
        return r

    def e_call(self, e, exp):
        e.exp_ = exp
        c = self.callee(e)
        if c[0] == "ctor":
            return self.ctor_call(e, c, exp)
        if c[0] in ("fun", "meth"):
            if c[1].kind == "method":
                outs = self.apply(e, c)
                no = [t for t, g in outs if not g]
                if len(no) == 1:
                    return no[0]
                raise self.err(e, "method call in an expression")
            return self.apply(e, c, exp)
        if c[0] == "value":
            ft = zonk(self.infer(e.f))
            if isinstance(ft, V):
                n = T("fn", [V() for _ in e.args] + [V()])
                self.unify(ft, n, e)
                ft = n
            if ft.con != "fn":
                raise self.err(e, f"call of a {ft}")
            for a, t in zip(e.args, ft.args):
                self.unify(self.infer(a, t), t, a)
            return ft.args[-1]
        raise self.err(e, f"call of {c}")

    def ctor_call(self, e, c, exp):
        D, i = c[1], c[2]
        fs = ctor_fields(self.p, D, i)
        t = T(D, [V() for _ in D.tparams])
        if exp is not None and isinstance(zonk(exp), T) and zonk(exp).con is D:
            try:
                unify(t, exp)
            except TypeErr:
                pass
        env = dict(zip(D.tparams, t.args))
        if len(fs) != len(e.args):
            raise self.err(e, f"constructor arity {len(fs)} vs {len(e.args)}")
        for f, a in zip(fs, e.args):
            if f.ghost:
                continue
            ft = subst(f.ty, env)
            self.unify(self.infer(a, ft), ft, a)
        e.ctor = (D, i, fs)
        return t

    def apply(self, e, c, exp=None):
        d = c[1]
        s = sig(self.p, d)
        f = e.f.e if e.f.k == "paren" else e.f
        env = self.inst(d, s, getattr(f, "targs", None))
        if c[0] == "meth":
            if c[2] is None:
                rt = self.selfl.ty
                if self.selfl.ghost:
                    raise Ghost()
            else:
                rt = c[2].ty
            if s.recv is not None:
                self.unify(subst(s.recv, env), rt, e)
        elif getattr(e, "qtargs", None) and d.owner is not None:
            for tp, t in zip(d.owner.tparams, e.qtargs):
                unify(env[tp], self.p.rtype(t, self.m, self.tenv, "var"))
        if len(s.formals) != len(e.args):
            raise self.err(e, f"{d}: {len(s.formals)} parameters, {len(e.args)} arguments")
        if exp is not None and d.kind == "function" and isinstance(zonk(exp), T):
            rz = zonk(subst(s.ret, env))
            if isinstance(rz, T) and rz.con == zonk(exp).con:
                try:
                    unify(rz, exp)
                except TypeErr:
                    pass
        for fo, a in zip(s.formals, e.args):
            if fo.ghost:
                continue
            ft = subst(fo.ty, env)
            self.unify(self.infer(a, ft), ft, a)
        e.fn, e.env, e.c = d, env, c
        if d.kind == "method":
            outs = [(subst(o.ty, env) if not o.ghost else None, o.ghost) for o in s.outs]
            e.outs = outs
            no = [t for t, g in outs if not g]
            e.ty = no[0] if len(no) == 1 else T("tuple", no)
            return outs
        return subst(s.ret, env)

    # operators
    def e_bin(self, e, exp):
        op = e.op
        if op in ("&&", "||", "==>", "<==>"):
            self.unify(self.infer(e.a, BOOL), BOOL, e.a)
            self.unify(self.infer(e.b, BOOL), BOOL, e.b)
            return BOOL
        if op in ("==", "!=", "<", "<=", ">", ">=", "!!"):
            ta = self.infer(e.a)
            tb = self.infer(e.b, ta)
            self.unify(ta, tb, e)
            z = zonk(ta)
            if isinstance(z, T) and z.con == "lseq!":
                raise Ghost()
            return BOOL
        if op in ("in", "!in"):
            tb = zonk(self.infer(e.b))
            if isinstance(tb, V):
                raise self.err(e, "type of the collection unknown")
            if tb.con in ("imap", "iset", "multiset", "lseq!") or isinstance(tb.con, Decl):
                raise Ghost()
            self.unify(self.infer(e.a, tb.args[0]), tb.args[0], e)
            return BOOL
        if op in ("<<", ">>"):
            ta = self.infer(e.a, exp)
            self.infer(e.b)
            return ta
        # arithmetic, and the collection operators
        ta = self.infer(e.a, exp)
        tb = self.infer(e.b, ta)
        za, zb = zonk(ta), zonk(tb)
        if isinstance(za, T) and za.con in ("map",) and op == "-":
            return ta
        self.unify(ta, tb, e)
        return ta

    def e_un(self, e, exp):
        if e.op == "!":
            self.unify(self.infer(e.e, BOOL), BOOL, e.e)
            return BOOL
        return self.infer(e.e, exp)

    def e_card(self, e, exp):
        t = zonk(self.infer(e.e))
        if isinstance(t, T) and (t.con in ("lseq!", "multiset", "iset") or isinstance(t.con, Decl)):
            raise Ghost()
        return INT

    def e_as(self, e, exp):
        ty = self.p.rtype(e.ty if isinstance(e.ty, tuple) else e.sty, self.m, self.tenv, "var")
        if isinstance(e.ty, tuple):
            e.sty = e.ty
        self.infer(e.e)
        return ty

    def e_index(self, e, exp):
        t = zonk(self.infer(e.e))
        if isinstance(t, V):
            raise self.err(e, "type of the indexed value unknown")
        if t.con in ("lseq!", "imap", "multiset") or isinstance(t.con, Decl):
            raise Ghost()
        if t.con == "map":
            self.unify(self.infer(e.i, t.args[0]), t.args[0], e)
            return t.args[1]
        self.infer(e.i)
        return t.args[0]

    def e_slice(self, e, exp):
        t = zonk(self.infer(e.e, exp))
        if isinstance(t, T) and (t.con == "lseq!" or isinstance(t.con, Decl)):
            raise Ghost()
        for x in (e.lo, e.hi):
            if x is not None:
                self.infer(x)
        if t.con == "array":
            return T("seq", t.args)
        return t

    def e_update(self, e, exp):
        t = zonk(self.infer(e.e, exp))
        if isinstance(t, T) and (t.con in ("lseq!", "imap", "multiset") or isinstance(t.con, Decl)):
            raise Ghost()
        if t.con == "map":
            self.unify(self.infer(e.i, t.args[0]), t.args[0], e)
            self.unify(self.infer(e.v, t.args[1]), t.args[1], e)
        else:
            self.infer(e.i)
            self.unify(self.infer(e.v, t.args[0]), t.args[0], e)
        return t

    def e_seqlit(self, e, exp):
        x = zonk(exp) if exp is not None else None
        a = x.args[0] if isinstance(x, T) and x.con == "seq" else V()
        for s in e.es:
            self.unify(self.infer(s, a), a, s)
        return T("seq", [a])

    def e_setlit(self, e, exp):
        if e.inf:
            raise Ghost()
        x = zonk(exp) if exp is not None else None
        a = x.args[0] if isinstance(x, T) and x.con == "set" else V()
        for s in e.es:
            self.unify(self.infer(s, a), a, s)
        return T("set", [a])

    def e_maplit(self, e, exp):
        if e.inf:
            raise Ghost()
        x = zonk(exp) if exp is not None else None
        k, v = (x.args if isinstance(x, T) and x.con == "map" else (V(), V()))
        for a, b in e.ents:
            self.unify(self.infer(a, k), k, a)
            self.unify(self.infer(b, v), v, b)
        return T("map", [k, v])

    def e_tuple(self, e, exp):
        x = zonk(exp) if exp is not None else None
        ts = []
        live = [(a, u) for a, u in zip(e.es, e.uses) if "ghost" not in u]
        xa = x.args if isinstance(x, T) and x.con == "tuple" and len(x.args) == len(live) else [None] * len(live)
        for (a, u), y in zip(live, xa):
            ts.append(self.infer(a, y))
        e.live = [a for a, _ in live]
        return T("tuple", ts)

    def e_ite(self, e, exp):
        if e.c.k == "bindguard":
            raise Ghost()
        self.unify(self.infer(e.c, BOOL), BOOL, e.c)
        ta = self.infer(e.a, exp)
        tb = self.infer(e.b, ta)
        self.unify(ta, tb, e)
        return ta

    def e_match(self, e, exp):
        t = self.infer(e.e)
        rt = exp if exp is not None else V()
        for p, b in e.cases:
            self.push()
            self.pattern(p, t, True)
            bt = self.infer(b, rt)
            self.unify(bt, rt, b)
            self.pop()
        return rt

    def e_let(self, e, exp):
        self.push()
        if "ghost" in e.use:
            for p in e.pats:
                self.bind_ghost_pat(p)
            e.binds = []
        else:
            e.binds = []
            todo = []
            for p, x in zip(e.pats, e.es):
                try:
                    ety = None
                    if p.k == "pvar" and p.ty is not None and not isinstance(p.ty, (T, V)):
                        ety = self.p.rtype(p.ty, self.m, self.tenv, "var", e.use)
                        p.ty = None
                    t = self.infer(x, ety)
                    if ety is not None:
                        self.unify(ety, t, x)
                    todo.append((p, x, t))
                except Ghost:
                    todo.append((p, None, None))
            for p, x, t in todo:
                if x is None:
                    self.bind_ghost_pat(p)
                else:
                    self.pattern(p, t)
                    e.binds.append((p, x))
        r = self.infer(e.body, exp)
        self.pop()
        return r

    def e_lambda(self, e, exp):
        x = zonk(exp) if exp is not None else None
        self.push()
        ps = []
        for i, (n, ty) in enumerate(e.vs):
            t = self.p.rtype(ty, self.m, self.tenv, "var") if ty is not None else V()
            if isinstance(x, T) and x.con == "fn" and len(x.args) == len(e.vs) + 1:
                self.unify(t, x.args[i], e)
            ps.append(self.bind(n, t))
        e.params = ps
        r = self.infer(e.body, x.args[-1] if isinstance(x, T) and x.con == "fn" else None)
        self.pop()
        return T("fn", [p.ty for p in ps] + [r])

    def e_seqcomp(self, e, exp):
        n, f = e.args
        self.infer(n)
        x = zonk(exp) if exp is not None else None
        a = x.args[0] if isinstance(x, T) and x.con == "seq" else V()
        ft = T("fn", [INT, a])
        self.unify(self.infer(f, ft), ft, e)
        return T("seq", [a])

    def e_dtupdate(self, e, exp):
        t = zonk(self.infer(e.e, exp))
        e.live = []
        for n, v in e.ups:
            ty, g = field_type(self.p, t.con, n)
            if g:
                continue
            ft = subst(ty, dict(zip(t.con.tparams, t.args)))
            self.unify(self.infer(v, ft), ft, v)
            e.live.append((n, v))
        return t

    def e_newarray(self, e, exp):
        t = self.p.rtype(e.sty if hasattr(e, "sty") else e.ty, self.m, self.tenv, "var")
        if not hasattr(e, "sty"):
            e.sty = e.ty
        self.infer(e.n)
        if e.init:
            for a in e.init:
                self.infer(a, T("fn", [INT, t]))
        return T("array", [t])

    def e_new(self, e, exp):
        if not hasattr(e, "sty"):
            e.sty = e.ty
        _, path, targs = e.sty
        d, cname = self.p.rpath_decl(path, self.m), None
        if d is None and len(path) > 1:
            d, cname = self.p.rpath_decl(path[:-1], self.m), path[-1]
        if d is None or d.kind != "class":
            raise self.err(e, f"class {'.'.join(path)} not found")
        t = T(d, [self.p.rtype(a, self.m, self.tenv, "var") for a in targs] or [V() for _ in d.tparams])
        if exp is not None and isinstance(zonk(exp), T) and zonk(exp).con is d:
            unify(t, exp)
        c = d.members.get(cname)
        e.cls, e.fn = d, None
        if c is None:
            if e.args:
                raise self.err(e, f"constructor of {d} not found")
            return t
        s = sig(self.p, c)
        env = dict(zip(d.tparams, t.args))
        for fo, a in zip(s.formals, e.args or []):
            if not fo.ghost:
                ft = subst(fo.ty, env)
                self.unify(self.infer(a, ft), ft, a)
        e.fn, e.env = c, env
        return t

# ---- signatures of callables and fields
class F:
    __slots__ = ("name", "ty", "ghost", "use", "byref", "isref")

def mkformal(p, f, m, env, auto):
    r = F()
    r.name, r.use = f.name, f.use
    r.ghost = "ghost" in f.use or "glinear" in f.use or "gshared" in f.use
    r.ty = None if r.ghost else p.rtype(f.ty, m, env, auto, f.use)
    r.byref = "inout" in f.use
    r.isref = "shared" in f.use
    return r

def sig(p, d):
    if "sig" in d.cache:
        return d.cache["sig"]
    s = Sig()
    d.cache["sig"] = s
    own = list(d.owner.tparams) if d.owner is not None else []
    s.tparams = own + list(d.node.tparams)
    s.tenv = {t: T("tp:" + t) for t in s.tparams}
    auto = [s.tenv[t] for t in (d.node.tparams or own)]
    s.formals = [mkformal(p, f, d.mod, s.tenv, auto) for f in (d.node.formals or [])]
    s.recv, s.recvuse, s.recvghost = None, set(), False
    if d.owner is not None and not d.node.static and d.kind in ("function", "method"):
        s.recv = T(d.owner, [s.tenv[t] for t in own])
        s.recvuse = d.node.mods
        s.recvghost = False
    if d.kind == "function":
        s.ret = p.rtype(d.node.ret, d.mod, s.tenv, auto, d.node.ruse)
        s.outs = []
    else:
        s.outs = [mkformal(p, f, d.mod, s.tenv, auto) for f in d.node.outs]
        no = [o.ty for o in s.outs if not o.ghost]
        s.ret = no[0] if len(no) == 1 else T("tuple", no)
    return s

def ctor_fields(p, D, i):
    k = ("ctor", i)
    if k not in D.cache:
        D.cache[k] = None
        env = {t: T("tp:" + t) for t in D.tparams}
        auto = [env[t] for t in D.tparams]
        D.cache[k] = [mkformal(p, f, D.mod, env, auto) for f in D.node.ctors[i].formals]
    return D.cache[k]

def field_type(p, D, n):
    if D.kind == "datatype":
        for i, c in enumerate(D.node.ctors):
            for f in ctor_fields(p, D, i):
                if f.name == n:
                    return f.ty, f.ghost
    else:
        x = D.members[n].node
        if x.ghost:
            return None, True
        return p.rtype(x.ty, D.mod, {t: T("tp:" + t) for t in D.tparams}, None, x.use), False
    raise DfyError(f"field {n} of {D}")

def const_type(p, d):
    if "cty" not in d.cache:
        if d.node.ty is not None:
            d.cache["cty"] = p.rtype(d.node.ty, d.mod, {})
        else:
            c = Checker.__new__(Checker)
            c.p, c.d, c.m, c.scopes, c.locals, c.tenv, c.selfl = p, d, d.mod, [{}], [], {}, None
            d.cache["cty"] = c.infer(d.node.init)
    return d.cache["cty"]

CPPKW = set("""alignas alignof and and_eq asm auto bitand bitor bool break case catch char class compl const constexpr continue default delete do double
 else enum explicit export extern false float for friend goto if inline int long mutable namespace new noexcept not operator or private protected public
 register return short signed sizeof static struct switch template this throw true try typedef typename union unsigned using virtual void volatile while
 xor assert stdin stdout errno linux unix min max log""".split())
def cid(n):
    """C++ spelling of a Dafny identifier"""
    n = n.replace("_", "__").replace("'", "_k").replace("?", "_q").replace("#", "_h").replace("|", "_b").replace("[", "_l").replace("]", "_r")
    if n in CPPKW:
        n = n + "_"
    return n
