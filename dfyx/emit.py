"""C++ emission of the resolved, ghost-erased program (see sema.py)."""
import sys
from sema import *
sys.setrecursionlimit(50000)

NATIVE = {"sbyte": "int8", "byte": "uint8", "short": "int16", "ushort": "uint16", "int": "int32", "uint": "uint32", "long": "int64", "ulong": "uint64"}

def ns(m):
    e = m.attrs.get("extern")
    if e:
        s = [x for x in e if x.startswith('"')]
        if s:
            return s[0][1:-1].replace(".", "_")
    return cid(m.name.replace(".", "_m_")) + "_Compile" if m.name != "_root" else "_root_Compile"

def extern(node):
    for a, args in node.attrs:
        if a == "extern":
            return [x[1:-1] for x in args if x.startswith('"')]
    return None

class Emitter:
    def __init__(self, prog, overrides=None):
        self.p = prog
        self.over, self.over_used = overrides or {}, set()
        self.covnames = []
        self.fdone, self.fq = {}, []
        self.dts, self.classes = {}, {}
        self.decls, self.defs = {}, []
        self.hashed = set()

    # --- types
    def ty(self, t):
        t = zonk(t)
        if isinstance(t, V):
            return "dfy_int" if t.num else "bool"
        c, a = t.con, t.args
        if isinstance(c, str):
            if c.startswith("tp:"):
                return "T_" + cid(c[3:])
            if c == "int":
                return "dfy_int"
            if c in ("bool", "char"):
                return c
            if c == "seq":
                return f"DafnySequence<{self.ty(a[0])}>"
            if c == "lseq!":
                return f"LinearExtern::linear_seq<{self.ty(a[0])}>"
            if c == "array":
                return f"DafnyArray<{self.ty(a[0])}>"
            if c == "map":
                self.need_hash(a[0])
                return f"DafnyMap<{self.ty(a[0])}, {self.ty(a[1])}>"
            if c == "set":
                self.need_hash(a[0])
                return f"DafnySet<{self.ty(a[0])}>"
            if c == "tuple":
                return f"Tuple<{', '.join(self.ty(x) for x in a)}>" if a else "Tuple0"
            if c == "fn":
                return f"std::function<{self.ty(a[-1])}({', '.join(self.ty(x) for x in a[:-1])})>"
            if c.startswith("bv"):
                n = int(c[2:])
                return "uint8" if n <= 8 else "uint16" if n <= 16 else "uint32" if n <= 32 else "uint64"
            raise DfyError(f"type {t} not compilable")
        if c.kind == "newtype":
            at = dict(c.node.attrs)
            if "nativeType" in at:
                return NATIVE[at["nativeType"][0][1:-1]]
            if c.name == "uint128":
                return "__m128i"
            return "dfy_int"
        args = f"<{', '.join(self.ty(x) for x in a)}>" if a else ""
        if c.kind == "typedecl":
            e = extern(c.node)
            if e is None:
                raise DfyError(f"abstract type {c} reached")
            return f"{ns(c.mod)}::{cid(c.name)}{args}"
        if c.kind == "datatype":
            self.need_dt(c)
            return f"{ns(c.mod)}::{cid(c.name)}{args}"
        if c.kind == "class":
            if extern(c.node) is None:
                self.need_class(c)
            return f"std::shared_ptr<{ns(c.mod)}::{cid(c.name)}{args}>"
        raise DfyError(f"type {t} not compilable")

    def need_dt(self, d):
        if d not in self.dts:
            self.dts[d] = None
            fs, seen = [], {}
            for i, c in enumerate(d.node.ctors):
                for j, f in enumerate(ctor_fields(self.p, d, i)):
                    if f.ghost:
                        continue
                    n = self.fname(d, i, j)
                    if n not in seen:
                        seen[n] = f.ty
                        fs.append((n, f.ty))
                        self.ty(f.ty)
            self.dts[d] = fs

    def fname(self, d, i, j):
        f = d.node.ctors[i].formals[j]
        return f"{cid(d.node.ctors[i].name)}_{j}" if f.anon else cid(f.name)

    def need_class(self, d):
        if d not in self.classes:
            self.classes[d] = None
            fs = []
            for n, x in d.members.items():
                if x.kind == "field" and not x.node.ghost:
                    t, g = field_type(self.p, d, n)
                    fs.append((cid(n), t))
                    self.ty(t)
            self.classes[d] = fs

    def need_hash(self, t):
        t = zonk(t)
        if isinstance(t, T):
            if isinstance(t.con, Decl) and t.con.kind == "datatype":
                if t.con in self.hashed:
                    return
                self.hashed.add(t.con)
                for i, c in enumerate(t.con.node.ctors):
                    for f in ctor_fields(self.p, t.con, i):
                        if not f.ghost:
                            self.need_hash(f.ty)
            for a in t.args:
                self.need_hash(a)

    # value containment, for boxing and ordering
    def contains(self, t, out):
        t = zonk(t)
        if isinstance(t, V):
            return
        if isinstance(t.con, Decl):
            if t.con.kind == "datatype":
                out.add(t.con)
                for a in t.args:
                    self.contains(a, out)
            elif t.con.kind == "typedecl":
                if t.con.name != "lseq":
                    for a in t.args:
                        self.contains(a, out)
        elif t.con in ("tuple", "map", "set"):
            for a in t.args:
                self.contains(a, out)

    def layout(self):
        edges = {d: set() for d in self.dts}
        fe = {}
        for d, fs in self.dts.items():
            for n, t in fs:
                o = set()
                self.contains(t, o)
                fe[d, n] = o
                edges[d] |= o
        reach = {}
        def r(d):
            seen, st = set(), list(edges[d])
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x)
                    st += edges.get(x, ())
            return seen
        for d in self.dts:
            reach[d] = r(d)
        self.boxed = set()
        for (d, n), o in fe.items():
            if any(x is d or d in reach[x] for x in o):
                self.boxed.add((d, n))
        order, seen = [], set()
        def visit(d):
            if d in seen:
                return
            seen.add(d)
            for n, t in self.dts[d]:
                if (d, n) not in self.boxed:
                    for x in sorted(fe[d, n], key=lambda q: (q.mod.name, q.name)):
                        visit(x)
            order.append(d)
        for d in self.dts:
            visit(d)
        return order

    def eq_ok(self, t, seen=()):
        t = zonk(t)
        if isinstance(t, V):
            return True
        if isinstance(t.con, str):
            return t.con != "fn" and all(self.eq_ok(a, seen) for a in t.args)
        if t.con.kind == "datatype":
            if t.con in seen:
                return True
            return all(self.eq_ok(f, seen + (t.con,)) for _, f in self.dts[t.con]) and all(self.eq_ok(a, seen) for a in t.args)
        return True

    # --- callables
    def need(self, d):
        if d not in self.fdone:
            self.fdone[d] = True
            self.fq.append(d)

    def fn_name(self, d):
        n = d.name if d.name is not None else "ctor_anon"
        return (cid(d.owner.name) + "_o_" + cid(n)) if d.owner is not None else cid(n)

    def qual(self, d):
        return f"{ns(d.mod)}::__default::{self.fn_name(d)}"

    def ret_ty(self, s):
        if not hasattr(s, "outs") or s.outs == []:
            pass
        return self.ty(s.ret)

    def signature(self, d, s, params, recv, qualified):
        ps = []
        if d.kind == "method" and d.node.kind == "constructor":
            ret = f"std::shared_ptr<{ns(d.mod)}::{cid(d.owner.name)}{self.targs_own(d.owner)}>"
        elif d.kind == "method" and not [o for o in s.outs if not o.ghost]:
            ret = "void"
        else:
            ret = self.ty(s.ret)
        if recv is not None and not (d.node.k == "method" and d.node.kind == "constructor"):
            ps.append(self.recv_param(d, s, recv))
        for l, f in params:
            t = self.ty(f.ty)
            ps.append(f"{t}& {l}" if f.byref else f"const {t}& {l}" if f.isref and self.big(f.ty) else f"{t} {l}")
        tp = f"template <{', '.join('class T_' + cid(t) for t in s.tparams)}>\n" if s.tparams else ""
        n = (ns(d.mod) + "::__default::" if qualified else "") + self.fn_name(d)
        return tp, f"{ret} {n}({', '.join(ps)})"

    def targs_own(self, D):
        return f"<{', '.join('T_' + cid(t) for t in D.tparams)}>" if D.tparams else ""

    def big(self, t):
        t = zonk(t)
        return isinstance(t, T) and isinstance(t.con, Decl) and t.con.kind == "datatype"

    def recv_param(self, d, s, l):
        t = self.ty(s.recv)
        if "inout" in s.recvuse:
            return f"{t}& {l}"
        if "shared" in s.recvuse:
            return f"const {t}& {l}"
        return f"{t} {l}"

    def emit_callable(self, d):
        if d.node.body is None:
            if extern(d.node) is not None or extern_owner(d):
                return
            if any(a == "axiom" for a, _ in d.node.attrs):
                raise DfyError(f"axiom {d} reached by compiled code")
            raise DfyError(f"{d} has no body")
        o = f"{d.mod.name}.{d.owner.name + '.' if d.owner else ''}{d.name}"
        if o in self.over and d.kind == "function":
            self.over_used.add(o)
            s = sig(self.p, d)
            if not s.formals and not s.tparams:
                tp, sg = self.signature(d, s, [], None, False)
                self.decls.setdefault(d.mod, []).append("static " + sg + ";")
                tp, sg = self.signature(d, s, [], None, True)
                self.defs.append((False, f"// {d} (scaled)\n{sg} {{ return ({self.ty(s.ret)}){self.over[o]}; }}\n"))
                return
        c = Checker(self.p, d)
        body = c.run()
        s = c.sig
        g = FnGen(self, c)
        formals = [f for f in s.formals if not f.ghost]
        params = [(l.cname, f) for l, f in zip(c.params, formals)]
        recv = c.selfl.cname if c.selfl is not None and not c.selfl.ghost else None
        isctor = d.kind == "method" and d.node.kind == "constructor"
        if d.kind == "function":
            e = g.expr(body)
            g.line(f"return {e};")
        else:
            if isctor:
                t = f"{ns(d.mod)}::{cid(d.owner.name)}{self.targs_own(d.owner)}"
                g.line(f"auto {recv} = std::make_shared<{t}>();")
            g.params = {}
            for l, f in params:
                g.params[l] = "ref" if f.byref else "cref" if f.isref and self.big(f.ty) else self.ty(f.ty)
            if recv is not None and not isctor:
                g.params[recv] = "ref" if "inout" in s.recvuse else "cref" if "shared" in s.recvuse else self.ty(s.recv)
            mark = len(g.out)
            for o in c.outs:
                g.line(f"{self.ty(o.ty)} {o.cname}{{}};")
            g.block(body, not isctor)
            if g.tailed:
                g.out.insert(mark, "  tail_start:;")
            g.line(f"return {recv};" if isctor else g.ret_outs())
        tp, sg = self.signature(d, s, params, recv, False)
        self.decls.setdefault(d.mod, []).append(tp + "static " + sg + ";")
        tp, sg = self.signature(d, s, params, recv, True)
        cov = len(self.covnames)
        self.covnames.append(str(d))
        self.defs.append((bool(tp), f"// {d}\n{tp}{sg} {{\n  DFY_COV({cov});\n" + "\n".join(g.out) + "\n}\n"))

    def emit_const(self, d):
        c = Checker.__new__(Checker)
        c.p, c.d, c.m, c.scopes, c.locals, c.tenv, c.selfl = self.p, d, d.mod, [{}], [], {}, None
        t = const_type(self.p, d)
        e = d.node.init
        et = c.infer(e, t)
        unify(t, et)
        g = FnGen(self, c)
        x = g.expr(e)
        g.line(f"return {x};")
        self.decls.setdefault(d.mod, []).append(f"static {self.ty(t)} {cid(d.name)}();")
        self.defs.append((False, f"{self.ty(t)} {ns(d.mod)}::__default::{cid(d.name)}() {{\n" + "\n".join(g.out) + "\n}\n"))

    def run(self, roots):
        for d in roots:
            self.need(d)
        while self.fq:
            d = self.fq.pop()
            try:
                if d.kind == "const":
                    self.emit_const(d)
                else:
                    self.emit_callable(d)
            except Ghost:
                raise DfyError(f"{d}: specification-only expression in compiled code")
        order = self.layout()
        h = ["// generated by dfyx", "#pragma once", '#include "DafnyRuntime.h"', '#include "dfyx_externs.h"', ""]
        for d in order:
            h.append(f"namespace {ns(d.mod)} {{ {self.tpl(d)}struct {cid(d.name)}; }}")
        for d in self.classes:
            h.append(f"namespace {ns(d.mod)} {{ {self.tpl(d)}struct {cid(d.name)}; }}")
        # hashes are declared before any use in a map or set
        for d in order:
            if d in self.hashed:
                a = f"<{', '.join('T_' + cid(t) for t in d.tparams)}>" if d.tparams else ""
                h.append(f"template <{', '.join('class T_' + cid(t) for t in d.tparams)}> struct std::hash<{ns(d.mod)}::{cid(d.name)}{a}> "
                         f"{{ size_t operator()(const {ns(d.mod)}::{cid(d.name)}{a}& x) const; }};")
        for d in order:
            h += self.dt_def(d)
        for d, fs in self.classes.items():
            h.append(f"namespace {ns(d.mod)} {{\n{self.tpl(d)}struct {cid(d.name)} {{")
            for n, t in fs:
                h.append(f"  {self.ty(t)} {n}{{}};")
            h.append("};\n}")
        for m, ds in self.decls.items():
            h.append(f"namespace {ns(m)} {{\nstruct __default {{")
            h += ["  " + x for x in ds]
            h.append("};\n}")
        h += [x for t, x in self.defs if t]
        return "\n".join(h) + "\n", [x for t, x in self.defs if not t]

    def tpl(self, d):
        return f"template <{', '.join('class T_' + cid(t) for t in d.tparams)}> " if d.tparams else ""

    def dt_def(self, d):
        n = cid(d.name)
        me = n
        full = f"{ns(d.mod)}::{n}" + self.targs_own(d)
        tpl = self.tpl(d)
        out = [f"namespace {ns(d.mod)} {{\n{tpl}struct {n} {{", "  uint8 dfy_tag = 0;"]
        for f, t in self.dts[d]:
            x = self.ty(t)
            out.append(f"  dfy::Box<{x}> {f};" if (d, f) in self.boxed else f"  {x} {f}{{}};")
        for i, c in enumerate(d.node.ctors):
            ps, ini = [], []
            for j, f in enumerate(ctor_fields(self.p, d, i)):
                if not f.ghost:
                    ps.append(f"{self.ty(f.ty)} a{j}")
                    ini.append(f"r.{self.fname(d, i, j)} = std::move(a{j});")
            out.append(f"  static {me} create_{cid(c.name)}({', '.join(ps)}) {{ {me} r; r.dfy_tag = {i}; {' '.join(ini)} return r; }}")
            out.append(f"  bool is_{cid(c.name)}() const {{ return dfy_tag == {i}; }}")
            out.append(f"  bool is_{n}_{cid(c.name)}() const {{ return dfy_tag == {i}; }}")
        for f, t in self.dts[d]:
            who = [i for i, c in enumerate(d.node.ctors) if any(self.fname(d, i, j) == f for j, x in enumerate(ctor_fields(self.p, d, i)) if not x.ghost)]
            x = self.ty(t)
            acc = f"{f}.get()" if (d, f) in self.boxed else f
            if len(who) == len(d.node.ctors):
                g = ""
            else:
                g = "if (!(" + " || ".join(f"dfy_tag == {i}" for i in who) + f")) dfy_trap(\"destructor\", \"{d.name}.{f}\"); "
            out.append(f"  const {x}& dtor_{f}() const {{ {g}return {acc}; }}")
            out.append(f"  {x}& ref_{f}() {{ {g}return {acc}; }}")
        eq = all(self.eq_ok(t) for _, t in self.dts[d])
        if eq:
            cases = []
            for i, c in enumerate(d.node.ctors):
                fs = [self.fname(d, i, j) for j, x in enumerate(ctor_fields(self.p, d, i)) if not x.ghost]
                conj = " && ".join(f"a.{f} == b.{f}" for f in fs) or "true"
                cases.append(f"case {i}: return {conj};")
            out.append(f"  friend bool operator==(const {me}& a, const {me}& b) {{ if (a.dfy_tag != b.dfy_tag) return false; switch (a.dfy_tag) {{ {' '.join(cases)} }} return false; }}")
            out.append(f"  friend bool operator!=(const {me}& a, const {me}& b) {{ return !(a == b); }}")
        out.append("};\n}")
        if d in self.hashed:
            sw = []
            for i, c in enumerate(d.node.ctors):
                fs = [(self.fname(d, i, j), x.ty) for j, x in enumerate(ctor_fields(self.p, d, i)) if not x.ghost]
                sw.append(f"case {i}: " + " ".join(f"dfy_hash_combine(s, x.dtor_{f}());" for f, t in fs) + " break;")
            head = f"template <{', '.join('class T_' + cid(t) for t in d.tparams)}> " if d.tparams else "inline "
            out.append(f"{head}size_t std::hash<{full}>::operator()(const {full}& x) const {{ size_t s = x.dfy_tag; switch (x.dfy_tag) {{ {' '.join(sw)} }} return s; }}")
        return out

def extern_owner(d):
    return d.owner is not None and d.owner.kind == "class" and extern(d.owner.node) is not None

class FnGen:
    def __init__(self, em, c):
        self.em, self.c, self.p = em, c, em.p
        self.out, self.ind, self.nt = [], 1, 0
        self.params, self.tailed = {}, False

    def line(self, s):
        self.out.append("  " * self.ind + s)

    def tmp(self, p="t"):
        self.nt += 1
        return f"{p}_{self.nt}_"

    def loc(self, n):
        t = n.tok
        return f'"{os.path.basename(t.f)}:{t.line}"'

    def ty(self, t):
        return self.em.ty(t)

    # --- statements
    TAIL = ("if", "matchstmt", "block")
    def block(self, ss, tail=False):
        for i, s in enumerate(ss):
            if tail and i == len(ss) - 1:
                if s.k in self.TAIL:
                    getattr(self, "s_" + s.k)(s, True)
                    continue
                if self.tail_call(s):
                    continue
            getattr(self, "s_" + s.k)(s)

    def tail_call(self, s):
        """A method's call of itself as its last act is a jump, as in the original compiler."""
        if s.k == "callstmt":
            e, lhs = s.e, []
        elif s.k == "assign" and s.kind == "call":
            e, lhs = s.rhs[0], [l for l, (t, g) in zip(s.lhs, s.rhs[0].outs) if not g]
        else:
            return False
        if e.k != "call" or e.callee_[0] not in ("fun", "meth") or e.fn is not self.c.d or extern_owner(e.fn):
            return False
        if len(lhs) != len(self.c.outs):
            return False
        n, ind = len(self.out), self.ind
        try:
            if any(l.skip or self.lv(l) != o.cname for l, o in zip(lhs, self.c.outs)):
                raise KeyError
            sg = sig(self.p, e.fn)
            new = []
            if e.callee_[0] == "meth" and sg.recv is not None and self.c.selfl is not None:
                r = self.c.selfl.cname if e.callee_[2] is None else (self.lv if "inout" in sg.recvuse else self.expr)(e.callee_[2])
                new.append((self.c.selfl.cname, r))
            ps = [(l.cname, f) for l, f in zip(self.c.params, [f for f in sg.formals if not f.ghost])]
            for (l, f), a in zip(ps, [a for f, a in zip(sg.formals, e.args) if not f.ghost]):
                a = a.e if a.k == "inoutarg" else a
                new.append((l, self.lv(a) if f.byref else self.expr(a)))
            todo = []
            for l, x in new:
                if x == l:
                    continue
                if self.params[l] in ("ref", "cref"):
                    raise KeyError
                todo.append((l, x))
        except KeyError:
            del self.out[n:]
            return False
        ts = []
        for l, x in todo:
            t = self.tmp()
            self.line(f"{self.params[l]} {t} = {x};")
            ts.append((l, t))
        for l, t in ts:
            self.line(f"{l} = std::move({t});")
        self.line(f"dfy_tick({self.loc(s)});")
        self.line("goto tail_start;")
        self.tailed = True
        return True

    def nested(self, ss, tail=False):
        self.line("{")
        self.ind += 1
        self.block(ss, tail)
        self.ind -= 1
        self.line("}")

    def ret_outs(self):
        o = self.c.outs
        if not o:
            return "return;"
        if len(o) == 1:
            return f"return {o[0].cname};"
        return f"return Tuple<{', '.join(self.ty(x.ty) for x in o)}>({', '.join(x.cname for x in o)});"

    def s_block(self, s, tail=False):
        self.nested(s.body, tail)

    def s_break(self, s):
        self.line("break;")

    def s_print(self, s):
        for e in s.es:
            self.line(f"dfy_print({self.expr(e)});")

    def live_outs(self, e):
        return [t for t, g in e.outs if not g]

    def s_callstmt(self, s):
        self.line(self.expr(s.e) + ";")

    def call_results(self, e):
        """emit a method call; returns C++ expressions for all outs (None for ghost)"""
        x = self.expr(e)
        n = self.live_outs(e)
        if not n:
            self.line(x + ";")
            return [None] * len(e.outs)
        if len(n) == 1:
            return [None if g else x for t, g in e.outs]
        t = self.tmp("r")
        self.line(f"auto {t} = {x};")
        i, r = 0, []
        for ty, g in e.outs:
            if g:
                r.append(None)
            else:
                r.append(f"{t}.template get<{i}>()")
                i += 1
        return r

    def s_var(self, s):
        if s.kind == "decl":
            for l in s.locs:
                self.line(f"{self.ty(l.ty)} {l.cname}{{}};")
        elif s.kind == "call":
            rs = self.call_results(s.rhs[0])
            done = False
            for l, r in zip(s.lhs, rs):
                if l is not None:
                    self.line(f"{self.ty(l.ty)} {l.cname} = {r};")
                    done = True
            live = [r for r in rs if r is not None]
            if not done and len(live) == 1:
                self.line(live[0] + ";")
        else:
            for l, e in s.pairs:
                if l.name == "_":
                    self.line(f"(void)({self.expr(e)});")
                else:
                    self.line(f"{self.ty(l.ty)} {l.cname} = {self.expr(e)};")

    def s_varpat(self, s):
        if s.e.k == "call" and s.e.callee_[0] in ("fun", "meth") and s.e.callee_[1].kind == "method":
            x = self.call_results(s.e)
            x = [y for y in x if y is not None][0]
        else:
            x = self.expr(s.e)
        v = self.tmp("p")
        self.line(f"auto {v} = {x};")
        self.destruct(s.pat, v, s.e.ty)

    def destruct(self, p, v, t):
        """bind an irrefutable pattern to the value expression v"""
        if p.k == "pvar":
            if p.loc is not None:
                self.line(f"{self.ty(p.loc.ty)} {p.loc.cname} = {v};")
        elif p.k == "ptuple":
            for i, q in enumerate(p.ps):
                self.destruct(q, f"{v}.template get<{i}>()", None)
        elif p.k == "pctor":
            for j, (q, f) in enumerate(zip(p.ps, p.fields)):
                if not f.ghost:
                    self.destruct(q, f"{v}.dtor_{self.em.fname(p.D, p.ci, j)}()", None)
        elif p.k == "plit":
            pass

    def test(self, p, v):
        """C++ condition under which v matches p"""
        if p.k == "pvar":
            return []
        if p.k == "plit":
            return [f"{v} == {self.numlit(p.v, p.ty) if not isinstance(p.v, bool) else ('true' if p.v else 'false')}"]
        if p.k == "ptuple":
            return [c for i, q in enumerate(p.ps) for c in self.test(q, f"{v}.template get<{i}>()")]
        r = [f"{v}.dfy_tag == {p.ci}"]
        for j, (q, f) in enumerate(zip(p.ps, p.fields if p.ps else [])):
            if not f.ghost:
                r += self.test(q, f"{v}.dtor_{self.em.fname(p.D, p.ci, j)}()")
        return r

    def s_assign(self, s):
        if s.kind == "call":
            rs = self.call_results(s.rhs[0])
            n = 0
            for l, r in zip(s.lhs, rs):
                if r is not None and not l.skip:
                    self.line(f"{self.lv(l)} = {r};")
                    n += 1
            live = [r for r in rs if r is not None]
            if not n and len(live) == 1:
                self.line(live[0] + ";")
            return
        if len(s.pairs) == 1:
            l, r = s.pairs[0]
            x = self.expr(r)
            if l is None:
                self.line(f"(void)({x});")
            else:
                self.line(f"{self.lv(l)} = {x};")
            return
        ts = []
        for l, r in s.pairs:
            t = self.tmp()
            self.line(f"{self.ty(r.ty)} {t} = {self.expr(r)};")
            ts.append(t)
        for (l, r), t in zip(s.pairs, ts):
            if l is not None:
                self.line(f"{self.lv(l)} = {t};")

    def s_if(self, s, tail=False):
        c = self.expr(s.c)
        self.line(f"if ({c}) {{")
        self.ind += 1
        self.block(s.a, tail)
        self.ind -= 1
        if s.b:
            self.line("} else {")
            self.ind += 1
            self.block(s.b, tail)
            self.ind -= 1
        self.line("}")

    def s_alt(self, s):
        first = True
        self.line("do {")
        self.ind += 1
        for g, b in s.alts:
            self.line(f"if ({self.expr(g)}) {{")
            self.ind += 1
            self.block(b)
            self.line("break;")
            self.ind -= 1
            self.line("}")
        self.ind -= 1
        self.line("} while (0);")

    def s_while(self, s):
        pre, c = self.lazy(s.c)
        if pre:
            self.line("while (true) {")
            self.out += pre
            self.ind += 1
            self.line(f"if (!({c})) break;")
        else:
            self.line(f"while ({c}) {{")
            self.ind += 1
        self.line(f"dfy_tick({self.loc(s)});")
        self.block(s.body)
        self.ind -= 1
        self.line("}")

    def s_matchstmt(self, s, tail=False):
        v = self.tmp("m")
        self.line("{")
        self.ind += 1
        self.line(f"const auto {v} = {self.expr(s.e)};")
        first = True
        for p, b in s.cases:
            ts = self.test(p, v)
            self.line(("" if first else "else ") + (f"if ({' && '.join(ts)}) {{" if ts else "if (true) {"))
            first = False
            self.ind += 1
            self.destruct(p, v, None)
            self.block(b, tail)
            self.ind -= 1
            self.line("}")
        self.line(f'else dfy_trap("match", {self.loc(s)});')
        self.ind -= 1
        self.line("}")

    def s_return(self, s):
        if s.kind == "call":
            rs = self.call_results(s.es[0])
            live = [(f, r) for f, r in zip([x for x in self.c.sig.outs], rs) if r is not None and not f.ghost]
            for o, (f, r) in zip(self.c.outs, live):
                self.line(f"{o.cname} = {r};")
        elif s.kind == "vals":
            ts = []
            for e in s.es:
                t = self.tmp()
                self.line(f"{self.ty(e.ty)} {t} = {self.expr(e)};")
                ts.append(t)
            for o, t in zip(self.c.outs, ts):
                self.line(f"{o.cname} = {t};")
        if self.c.d.node.kind == "constructor" and self.c.d.kind == "method":
            self.line(f"return {self.c.selfl.cname};")
        else:
            self.line(self.ret_outs())

    # --- expressions
    def lazy(self, e):
        save, self.out = self.out, []
        self.ind += 1
        x = self.expr(e)
        self.ind -= 1
        pre, self.out = self.out, save
        return pre, x

    def expr(self, e):
        return getattr(self, "x_" + e.k)(e)

    def lv(self, e):
        """assignable C++ expression"""
        if e.k == "paren":
            return self.lv(e.e)
        if e.k == "id":
            if e.ent[0] == "local":
                return e.ent[1].cname
            if e.ent[0] == "selfmember":
                return self.field_lv(self.c.selfl.cname, self.c.selfl.ty, e.ent[1])
        if e.k == "this":
            return e.loc.cname
        if e.k == "member":
            if e.ent[0] == "member" and e.ent[1][0] == "field":
                bt = zonk(e.e.ty)
                return self.field_lv(self.lv(e.e), bt, e.ent[1])
        if e.k == "index":
            t = zonk(e.e.ty)
            if t.con == "array":
                return f"{self.expr(e.e)}.at_(dfy_idx({self.expr(e.i)}), {self.loc(e)})"
        # not an lvalue: a temporary
        x = self.expr(e)
        v = self.tmp()
        self.line(f"auto {v} = {x};")
        return v

    def field_lv(self, base, t, r):
        D, n = r[1], r[2]
        if D.kind == "class":
            return f"dfy_nn({base})->{cid(n)}"
        return f"{base}.ref_{cid(n)}()"

    def x_paren(self, e):
        return self.expr(e.e)
    def x_stmtexpr(self, e):
        return self.expr(e.e)
    def x_boollit(self, e):
        return "true" if e.v else "false"
    def numlit(self, v, t):
        c = self.ty(t)
        neg = v < 0
        v = abs(v)
        if v < 1 << 64:
            s = f"({c}){v}ULL"
        else:
            s = f"((({c})0x{v >> 64:x}ULL << 64) | ({c})0x{v & (2**64 - 1):x}ULL)"
        return f"(-({s}))" if neg else f"({s})"
    def x_num(self, e):
        return self.numlit(e.v, e.ty)
    def x_str(self, e):
        v = e.v
        if v.startswith("@"):
            v = '"' + v[2:-1].replace('""', '"').replace("\\", "\\\\") .replace('"', '\\"') + '"'
        return f"DafnySequenceFromString({v})"
    def x_chr(self, e):
        return e.v
    def x_null(self, e):
        return "nullptr"
    def x_this(self, e):
        return e.loc.cname

    def x_id(self, e):
        en = e.ent
        if en[0] == "local":
            return en[1].cname
        return self.ent(e, en)

    def ent(self, e, en):
        if en[0] == "ctor":
            return f"{self.ty(e.ty)}::create_{cid(en[1].node.ctors[en[2]].name)}()"
        if en[0] == "const":
            self.em.need(en[1])
            return f"{ns(en[1].mod)}::__default::{cid(en[1].name)}()"
        if en[0] == "selfmember":
            return self.field_rv(self.c.selfl.cname, self.c.selfl.ty, en[1])
        if en[0] == "fun":
            return self.fnref(e.fn, e.env)
        raise DfyError(f"cannot emit {en}")

    def field_rv(self, base, t, r):
        if r[0] == "disc":
            return f"{base}.is_{cid(r[1].node.ctors[r[2]].name)}()"
        if r[0] == "const":
            self.em.need(r[1])
            return f"{ns(r[1].mod)}::__default::{cid(r[1].name)}()"
        D, n = r[1], r[2]
        if D.kind == "class":
            return f"dfy_nn({base})->{cid(n)}"
        return f"{base}.dtor_{cid(n)}()"

    def fnref(self, d, env):
        ex = extern(d.node)
        s = sig(self.p, d)
        ta = f"<{', '.join(self.ty(env[t]) for t in s.tparams)}>" if s.tparams else ""
        if ex is not None and (d.node.body is None):
            name = ex[-1] if ex else cid(d.name)
            n = ex[0] if len(ex) == 2 else ns(d.mod)
            return f"{n}::{name}{ta}"
        self.em.need(d)
        return self.em.qual(d) + ta

    def x_member(self, e):
        en = e.ent
        if e.qual:
            return self.ent(e, en)
        b = self.expr(e.e)
        if en[0] == "tup":
            return f"{b}.template get<{en[1]}>()"
        if en[0] == "arrlen":
            return f"((dfy_int){b}.size())"
        if en[0] == "mapkeys":
            self.ty(e.ty)
            return f"dfy_map_{en[1].lower()}({b})"
        return self.field_rv(b, e.e.ty, en[1])

    def x_call(self, e):
        c = e.callee_
        if c[0] == "ctor":
            D, i, fs = e.ctor
            a = [self.expr(x) for x, f in zip(e.args, fs) if not f.ghost]
            return f"{self.ty(e.ty)}::create_{cid(D.node.ctors[i].name)}({', '.join(a)})"
        if c[0] == "value":
            return f"{self.expr(e.f)}({', '.join(self.expr(a) for a in e.args)})"
        d = e.fn
        s = sig(self.p, d)
        args = []
        for f, a in zip(s.formals, e.args):
            if f.ghost:
                continue
            if f.byref:
                args.append(self.lv(a.e if a.k == "inoutarg" else a))
            else:
                args.append(self.expr(a.e if a.k == "inoutarg" else a))
        if c[0] == "meth":
            if extern_owner(d):
                ex = extern(d.node)
                name = (ex[-1] if ex else cid(d.name))
                return f"{self.expr(c[2])}->{name}({', '.join(args)})"
            if s.recv is not None:
                if "inout" in s.recvuse:
                    r = self.lv(c[2]) if c[2] is not None else self.c.selfl.cname
                else:
                    r = self.expr(c[2]) if c[2] is not None else self.c.selfl.cname
                args = [r] + args
        return f"{self.fnref(d, e.env)}({', '.join(args)})"

    def x_inoutarg(self, e):
        return self.lv(e.e)

    ARITH = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod"}
    def x_bin(self, e):
        op = e.op
        if op in ("&&", "||", "==>"):
            a = self.expr(e.a)
            pre, b = self.lazy(e.b)
            if not pre:
                return f"({a} && {b})" if op == "&&" else f"({a} || {b})" if op == "||" else f"(!({a}) || {b})"
            t = self.tmp("b")
            self.line(f"bool {t} = {a};")
            self.line(f"if ({t if op != '||' else '!' + t}) {{")
            self.out += pre
            self.line(f"  {t} = {b};")
            self.line("}" if op != "==>" else f"}} else {t} = true;")
            return t
        a, b = self.expr(e.a), self.expr(e.b)
        t = zonk(e.a.ty)
        k = t.con if isinstance(t, T) else "int"
        if op == "<==>":
            return f"({a} == {b})"
        if op in ("==", "!="):
            return f"({a} {op} {b})"
        if op in ("in", "!in"):
            z = zonk(e.b.ty)
            r = f"dfy_contains({b}, {a})"
            return r if op == "in" else f"(!{r})"
        if op in ("<", "<=", ">", ">="):
            if k == "seq":
                return {"<": f"dfy_prefix({a}, {b}, true)", "<=": f"dfy_prefix({a}, {b}, false)"}[op]
            if k == "set":
                return {"<=": f"dfy_subset({a}, {b})", ">=": f"dfy_subset({b}, {a})", "<": f"dfy_psubset({a}, {b})", ">": f"dfy_psubset({b}, {a})"}[op]
            return f"({a} {op} {b})"
        if op == "!!":
            return f"dfy_disjoint({a}, {b})"
        c = self.ty(e.ty)
        if op in ("&", "|", "^"):
            return f"(({c})({a} {op} {b}))"
        if op in ("<<", ">>"):
            return f"dfy_sh{'l' if op == '<<' else 'r'}<{c}>({a}, {b})"
        if k == "seq":
            return f"dfy_concat({a}, {b})"
        if k in ("set", "map"):
            return f"dfy_{k}_{self.ARITH[op]}({a}, {b})"
        if isinstance(k, str) and k.startswith("bv"):
            return f"(({c})({a} {op} {b}))"
        return f"dfy_{self.ARITH[op]}<{c}>({a}, {b}, {self.loc(e)})"

    def x_un(self, e):
        if e.op == "!":
            return f"(!({self.expr(e.e)}))" if zonk(e.ty) is BOOL or zonk(e.ty).con == "bool" else f"(({self.ty(e.ty)})~{self.expr(e.e)})"
        return f"dfy_sub<{self.ty(e.ty)}>(0, {self.expr(e.e)}, {self.loc(e)})"

    def x_card(self, e):
        return f"((dfy_int){self.expr(e.e)}.size())"

    def x_as(self, e):
        a = self.expr(e.e)
        s, d = self.ty(e.e.ty), self.ty(e.ty)
        if s == d:
            return a
        return f"dfy_conv<{d}>({a}, {self.loc(e)})"

    def x_index(self, e):
        t = zonk(e.e.ty)
        a = self.expr(e.e)
        if t.con == "map":
            return f"dfy_map_get({a}, {self.expr(e.i)}, {self.loc(e)})"
        if t.con == "array":
            return f"{a}.at_(dfy_idx({self.expr(e.i)}), {self.loc(e)})"
        return f"{a}.select_(dfy_idx({self.expr(e.i)}), {self.loc(e)})"

    def x_slice(self, e):
        a = self.expr(e.e)
        lo = f"dfy_idx({self.expr(e.lo)})" if e.lo is not None else None
        hi = f"dfy_idx({self.expr(e.hi)})" if e.hi is not None else None
        return f"dfy_slice({a}, {lo or '0'}, {'true' if hi else 'false'}, {hi or '0'}, {self.loc(e)})"

    def x_update(self, e):
        t = zonk(e.ty)
        a, i, v = self.expr(e.e), self.expr(e.i), self.expr(e.v)
        if t.con == "map":
            return f"dfy_map_put({a}, {i}, {v})"
        return f"dfy_seq_put({a}, dfy_idx({i}), {v}, {self.loc(e)})"

    def x_seqlit(self, e):
        t = self.ty(zonk(e.ty).args[0])
        return f"DafnySequence<{t}>::of({{{', '.join(self.expr(x) for x in e.es)}}})"
    def x_setlit(self, e):
        return f"dfy_set_of<{self.ty(zonk(e.ty).args[0])}>({{{', '.join(self.expr(x) for x in e.es)}}})"
    def x_maplit(self, e):
        k, v = zonk(e.ty).args
        kv = f"std::pair<{self.ty(k)}, {self.ty(v)}>"
        return f"dfy_map_of<{self.ty(k)}, {self.ty(v)}>({{{', '.join(f'{kv}({self.expr(a)}, {self.expr(b)})' for a, b in e.ents)}}})"
    def x_tuple(self, e):
        if not e.live:
            return "Tuple0()"
        return f"{self.ty(e.ty)}({', '.join(self.expr(a) for a in e.live)})"

    def x_ite(self, e):
        c = self.expr(e.c)
        pa, a = self.lazy(e.a)
        pb, b = self.lazy(e.b)
        if not pa and not pb:
            return f"(({c}) ? ({self.ty(e.ty)})({a}) : ({self.ty(e.ty)})({b}))"
        t = self.tmp()
        self.line(f"{self.ty(e.ty)} {t}{{}};")
        self.line(f"if ({c}) {{")
        self.out += pa
        self.line(f"  {t} = {a};")
        self.line("} else {")
        self.out += pb
        self.line(f"  {t} = {b};")
        self.line("}")
        return t

    def x_match(self, e):
        v, t = self.tmp("m"), self.tmp()
        self.line(f"{self.ty(e.ty)} {t}{{}};")
        self.line("{")
        self.ind += 1
        self.line(f"const auto {v} = {self.expr(e.e)};")
        first = True
        for p, b in e.cases:
            ts = self.test(p, v)
            self.line(("" if first else "else ") + (f"if ({' && '.join(ts)}) {{" if ts else "if (true) {"))
            first = False
            self.ind += 1
            self.destruct(p, v, None)
            x = self.expr(b)
            self.line(f"{t} = {x};")
            self.ind -= 1
            self.line("}")
        self.line(f'else dfy_trap("match", {self.loc(e)});')
        self.ind -= 1
        self.line("}")
        return t

    def x_let(self, e):
        vals = []
        for p, x in e.binds:
            y = self.expr(x)
            if p.k == "pvar":
                if p.loc is None:
                    self.line(f"(void)({y});")
                elif len(e.binds) == 1:
                    self.line(f"{self.ty(p.loc.ty)} {p.loc.cname} = {y};")
                else:
                    v = self.tmp()
                    self.line(f"{self.ty(p.loc.ty)} {v} = {y};")
                    vals.append((p, v))
            else:
                v = self.tmp("p")
                self.line(f"auto {v} = {y};")
                vals.append((p, v))
        for p, v in vals:
            self.destruct(p, v, None)
        return self.expr(e.body)

    def x_lambda(self, e):
        ps = ", ".join(f"{self.ty(p.ty)} {p.cname}" for p in e.params)
        pre, x = self.lazy(e.body)
        return f"{self.ty(e.ty)}([=]({ps}) {{ {' '.join(l.strip() for l in pre)} return {x}; }})"

    def x_seqcomp(self, e):
        n, f = e.args
        return f"dfy_seq_comp<{self.ty(zonk(e.ty).args[0])}>(dfy_idx({self.expr(n)}), {self.expr(f)})"

    def x_dtupdate(self, e):
        v = self.tmp()
        self.line(f"auto {v} = {self.expr(e.e)};")
        for n, x in e.live:
            y = self.expr(x)
            self.line(f"{v}.ref_{cid(n)}() = {y};")
        return v

    def x_newarray(self, e):
        t = self.ty(zonk(e.ty).args[0])
        if e.init:
            return f"dfy_new_array<{t}>(dfy_idx({self.expr(e.n)}), {self.expr(e.init[0])})"
        return f"DafnyArray<{t}>(dfy_idx({self.expr(e.n)}))"

    def x_new(self, e):
        t = zonk(e.ty)
        D = t.con
        if extern(D.node) is not None:
            return f"std::make_shared<{ns(D.mod)}::{cid(D.name)}>({', '.join(self.expr(a) for a in e.args or [])})"
        self.ty(t)
        if e.fn is None:
            targs = f"<{', '.join(self.ty(a) for a in t.args)}>" if t.args else ""
            return f"std::make_shared<{ns(D.mod)}::{cid(D.name)}{targs}>()"
        s = sig(self.p, e.fn)
        a = [self.expr(x) for f, x in zip(s.formals, e.args or []) if not f.ghost]
        return f"{self.fnref(e.fn, e.env)}({', '.join(a)})"

def compile_(root, names, overrides=None, prog=None):
    """names: "Module.member", "Module.Type.member" or "Module.*" (compiled methods)
    Returns (header text, list of definitions, emitter)."""
    p = prog or Program(root)
    roots = []
    for n in names:
        opt = n.endswith("?")
        parts = n.rstrip("?").split(".")
        m = p.mod(parts[0])
        if parts[-1] == "*":
            ds = m.decls if len(parts) == 2 else m.decls[parts[1]].members
            roots += [d for d in ds.values() if d.kind in ("method", "function") and is_compiled(d) and d.node.body is not None and not d.tparams]
        else:
            try:
                d = m.decls[parts[1]]
                if len(parts) > 2:
                    d = d.members[parts[2]]
                roots.append(d)
            except KeyError:
                if not opt:
                    raise DfyError(f"{n} not found")
    e = Emitter(p, overrides)
    h, c = e.run(roots)
    return h, c, e

def write(out, h, defs, parts=8):
    """Bundle.i.h, Bundle.cpp (an empty shell: BundleWrapper.cpp includes it), part_<i>.cpp"""
    open(os.path.join(out, "Bundle.i.h"), "w").write(h)
    open(os.path.join(out, "Bundle.cpp"), "w").write('#include "Bundle.i.h"\n')
    order = sorted(range(len(defs)), key=lambda i: -len(defs[i]))
    load, bins = [0] * parts, [[] for _ in range(parts)]
    for i in order:
        b = load.index(min(load))
        load[b] += len(defs[i]) + 200
        bins[b].append(i)
    for b in range(parts):
        open(os.path.join(out, f"part_{b}.cpp"), "w").write('#include "Bundle.i.h"\n' + "\n".join(defs[i] for i in sorted(bins[b])))

if __name__ == "__main__":
    h, c, e = compile_(sys.argv[1], sys.argv[3:])
    write(sys.argv[2], h, c)
    print(len(e.fdone), "callables", len(e.dts), "datatypes")
