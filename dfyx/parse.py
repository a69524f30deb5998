"""Lexer and parser for the Dafny dialect used in this repository (Dafny 2.3 plus linear types)."""
import os, re

class DfyError(Exception):
    pass

TOK = re.compile(r"""
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<op>operator(?='|\())
 |(?P<id>[A-Za-z_][A-Za-z0-9_'?]*)
 |(?P<num>0x[0-9A-Fa-f_]+|0b[01_]+|\d[\d_]*(?:\.\d[\d_]*)?)
 |(?P<str>@"(?:[^"]|"")*"|"(?:\\.|[^"\\\n])*")
 |(?P<chr>'(?:\\.[0-9a-fA-F]*|[^'\\\n])')
 |(?P<sym><==>|==>|<==|\.\.\.|<<|:\||::|:=|==|!=|<=|>=|&&|\|\||!in\b|!!|=>|-->|->|\.\.|~>|[-+*/%&|^!<>=(){}\[\],;:.`\#?])
""", re.X)
SKIPC = re.compile(r"/\*|\*/")

class Tok:
    __slots__ = ("t", "v", "line", "f")
    def __init__(self, t, v, line, f):
        self.t, self.v, self.line, self.f = t, v, line, f
    def __repr__(self):
        return f"{os.path.basename(self.f)}:{self.line}:{self.v!r}"

def lex(text, f):
    out = []
    i, n, line = 0, len(text), 1
    while i < n:
        m = TOK.match(text, i)
        if not m:
            raise DfyError(f"{f}:{line}: cannot tokenise {text[i:i+20]!r}")
        k = m.lastgroup
        s = m.group()
        if k == "bc":
            d, j = 1, i + 2
            while d:
                mm = SKIPC.search(text, j)
                if not mm:
                    raise DfyError(f"{f}:{line}: unclosed comment")
                d += 1 if mm.group() == "/*" else -1
                j = mm.end()
            line += text.count("\n", i, j)
            i = j
            continue
        if k == "ws":
            line += s.count("\n")
        elif k == "lc":
            pass
        elif k == "op":
            # operator(| |), operator([]), operator(in), operator'name
            mm = re.compile(r"operator\s*\(([^)]*)\)|operator('[A-Za-z0-9_?']*)").match(text, i)
            out.append(Tok("id", "operator" + re.sub(r"\s", "", mm.group(1) or mm.group(2)), line, f))
            i = mm.end()
            continue
        elif k == "num":
            # `0..n`: the number pattern must not swallow a range
            out.append(Tok("num", s, line, f))
        else:
            out.append(Tok(k, s, line, f))
        i = m.end()
    out.append(Tok("eof", "", line, f))
    return out

class N:
    def __init__(self, k, tok, **kw):
        self.k, self.tok = k, tok
        self.__dict__.update(kw)
    def __repr__(self):
        return f"{self.k}({', '.join(f'{a}={b!r}' for a, b in self.__dict__.items() if a not in ('k', 'tok'))})"

OPEN = {"(": ")", "[": "]", "{": "}"}
SPEC = {"requires", "ensures", "modifies", "reads", "decreases", "invariant", "yield"}
MODS = {"abstract", "ghost", "static", "protected", "linear", "shared", "glinear", "gshared", "inout"}
DECLKW = {"datatype", "codatatype", "newtype", "type", "class", "trait", "iterator", "function", "predicate", "lemma", "method",
          "const", "constructor", "import", "export", "module", "inductive", "copredicate", "colemma", "var", "twostate", "least", "greatest"}
KEYWORDS = {"if", "then", "else", "match", "case", "while", "var", "forall", "exists", "assert", "assume", "calc", "print", "return", "break",
            "true", "false", "null", "this", "new", "old", "fresh", "set", "map", "imap", "iset", "multiset", "in", "as", "seq", "label", "reveal",
            "modify", "yield", "ghost", "linear", "shared", "inout", "returns"} | SPEC | (DECLKW - {"type", "export"}) - {"iterator", "inductive", "least", "greatest", "trait"}

class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0
        self.match_ = self.braces()

    def braces(self):
        st, m = [], {}
        for i, t in enumerate(self.t):
            if t.t == "sym":
                if t.v in OPEN:
                    st.append(i)
                elif t.v in ")]}":
                    if not st or OPEN[self.t[st[-1]].v] != t.v:
                        raise DfyError(f"unbalanced {t}")
                    m[st.pop()] = i
        if st:
            raise DfyError(f"unclosed {self.t[st[-1]]}")
        return m

    # --- helpers
    @property
    def c(self):
        return self.t[self.i]
    def pk(self, n=1):
        return self.t[min(self.i + n, len(self.t) - 1)]
    def at(self, *vs):
        c = self.t[self.i]
        return c.v in vs and c.t in ("sym", "id")
    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False
    def need(self, v):
        if not self.at(v):
            raise DfyError(f"expected {v!r} at {self.c}")
        self.i += 1
        return self.t[self.i - 1]
    def ident(self):
        c = self.c
        if c.t != "id":
            raise DfyError(f"expected an identifier at {c}")
        self.i += 1
        return c.v
    def skip_block(self):
        """at '{': skip to past its '}'; returns the token range (start, end)"""
        a = self.i
        if not self.at("{"):
            raise DfyError(f"expected a block at {self.c}")
        self.i = self.match_[a] + 1
        return (a, self.i)
    def attrs(self):
        out = []
        while self.at("{") and self.pk().v == ":" and self.pk().t == "sym":
            a = self.i
            e = self.match_[a]
            name = self.t[a + 2].v
            args = [t.v for t in self.t[a + 3:e]]
            out.append((name, args))
            self.i = e + 1
        return out

    # --- top level
    def file(self):
        incs, decls = [], []
        while self.at("include"):
            self.i += 1
            incs.append(self.c.v[1:-1])
            self.i += 1
        while self.c.t != "eof":
            decls += self.decls()
        return incs, decls

    def decls(self):
        d = self.decl()
        return d if isinstance(d, list) else [d]

    def decl(self):
        tok = self.c
        mods = set()
        while self.c.t == "id" and self.c.v in MODS:
            # `linear inout method`, `ghost method` ...
            mods.add(self.c.v)
            self.i += 1
        c = self.c
        v = c.v
        if v == "module":
            return self.module(mods)
        if v == "import":
            return self.import_()
        if v == "export":
            return self.export()
        if v in ("datatype", "codatatype"):
            return self.datatype(mods)
        if v == "newtype":
            return self.newtype()
        if v == "type":
            return self.typedecl()
        if v in ("class", "trait"):
            return self.class_(mods)
        if v == "const":
            return self.const(mods)
        if v == "var":
            return self.fielddecl(mods)
        if v in ("function", "predicate", "copredicate") or v in ("inductive", "least", "greatest", "twostate") and self.pk().v in ("predicate", "function", "lemma"):
            return self.function(mods)
        if v in ("lemma", "method", "constructor", "colemma"):
            return self.method(mods)
        if v == "iterator":
            raise DfyError(f"iterator at {c}")
        if v == ";":
            self.i += 1
            return []
        raise DfyError(f"declaration expected at {c}")

    def qid(self):
        s = [self.ident()]
        while self.at("."):
            self.i += 1
            s.append(self.ident())
        return s

    def module(self, mods):
        tok = self.need("module")
        a = self.attrs()
        name = self.qid()
        ref = None
        if self.eat("refines"):
            ref = self.qid()
        self.need("{")
        ds = []
        while not self.at("}"):
            ds += self.decls()
        self.need("}")
        return N("module", tok, name=name, attrs=a, refines=ref, abstract="abstract" in mods, decls=ds)

    def import_(self):
        tok = self.need("import")
        opened = False
        if self.at("opened"):
            self.i += 1
            opened = True
        name = self.ident()
        path, kind = [name], "="
        if self.at("=", ":"):
            kind = self.c.v
            self.i += 1
            path = self.qid()
        while self.at("."):
            self.i += 1
            path.append(self.ident())
        if self.at("`"):
            self.i += 1
            if self.at("{"):
                self.skip_block()
            else:
                self.ident()
        if self.eat("default"):
            self.qid()
        self.eat(";")
        return N("import", tok, name=name, path=path, opened=opened, kind=kind)

    def export(self):
        tok = self.need("export")
        if self.c.t == "id" and self.c.v not in ("provides", "reveals", "extends") and self.c.v not in DECLKW | MODS:
            self.ident()
        while self.at("provides", "reveals", "extends"):
            self.i += 1
            if self.eat("*"):
                continue
            while True:
                self.ident()
                while self.eat("."):
                    self.ident()
                if not self.eat(","):
                    break
        self.eat(";")
        return N("export", tok)

    def tparams(self):
        """optional type parameter list; returns names"""
        while self.at("("):          # characteristics on the type itself, e.g. maybe(!new, 00)<A>
            j = self.i + 1
            if self.t[j].v in ("==", "!", "0", "00"):
                self.i = self.match_[self.i] + 1
            else:
                break
        out = []
        if self.at("<"):
            self.i += 1
            while not self.at(">"):
                while self.at("+", "-", "*", "!"):
                    self.i += 1
                while self.at("linear", "shared"):
                    self.i += 1
                out.append(self.ident())
                while self.at("("):
                    self.i = self.match_[self.i] + 1
                if not self.eat(","):
                    break
            self.need(">")
        if self.at("(") and self.pk().v in ("==", "0", "00"):
            self.i = self.match_[self.i] + 1
        return out

    def formal(self, need_type=True):
        tok = self.c
        use = set()
        while self.c.t == "id" and self.c.v in ("ghost", "linear", "shared", "inout", "glinear", "gshared", "nameonly", "new") and self.pk().v not in (":", ",", ")"):
            use.add(self.c.v)
            self.i += 1
        # name ':' type   or just type (datatype constructor argument)
        if self.c.t in ("id", "num") and self.pk().v == ":":
            name = self.c.v
            self.i += 1
            self.need(":")
            while self.c.t == "id" and self.c.v in ("linear", "shared", "ghost", "inout"):
                use.add(self.c.v)
                self.i += 1
            ty = self.type()
        else:
            name = None
            ty = self.type()
        return N("formal", tok, name=name, use=use, ty=ty)

    def formals(self):
        self.need("(")
        out = []
        while not self.at(")"):
            self.attrs()
            out.append(self.formal())
            if not self.eat(","):
                break
        self.need(")")
        for j, f in enumerate(out):
            if f.name is None:
                f.name = f"_{j}"
                f.anon = True
            else:
                f.anon = False
        return out

    def datatype(self, mods):
        tok = self.c
        self.i += 1
        a = self.attrs()
        name = self.ident()
        tp = self.tparams()
        self.need("=")
        ctors = []
        self.eat("|")
        while True:
            ct = self.c
            self.attrs()
            cuse = set()
            while self.at("linear", "ghost"):
                cuse.add(self.c.v)
                self.i += 1
            cn = self.ident()
            fs = self.formals() if self.at("(") else []
            ctors.append(N("ctor", ct, name=cn, formals=fs))
            if not self.eat("|"):
                break
        ms = []
        if self.at("{") and not (self.pk().v == ":" and self.pk().t == "sym"):
            self.i += 1
            while not self.at("}"):
                ms += self.decls()
            self.need("}")
        self.eat(";")
        return N("datatype", tok, name=name, tparams=tp, ctors=ctors, members=ms, linear="linear" in mods, attrs=a)

    def newtype(self):
        tok = self.need("newtype")
        a = self.attrs()
        name = self.ident()
        self.need("=")
        base = None
        if self.c.t == "id" and self.pk().v in (":", "|"):
            self.i += 1
            if self.eat(":"):
                base = self.type()
            self.need("|")
            e = self.expr()
        else:
            base, e = self.type(), None
        if self.at("witness"):
            self.i += 1
            self.expr()
        self.eat(";")
        return N("newtype", tok, name=name, base=base, attrs=a, pred=e)

    def typedecl(self):
        tok = self.need("type")
        a = self.attrs()
        name = self.ident()
        tp = self.tparams()
        ty = pred = var = None
        if self.eat("="):
            if self.c.t == "id" and (self.pk().v == "|" or self.pk().v == ":" and self.pk().t == "sym") :
                var = self.ident()
                if self.eat(":"):
                    ty = self.type()
                self.need("|")
                pred = self.expr()
                if self.at("witness", "ghost"):
                    self.eat("ghost")
                    self.i += 1
                    self.expr()
            else:
                ty = self.type()
        self.eat(";")
        return N("typedecl", tok, name=name, tparams=tp, ty=ty, attrs=a, pred=pred, var=var)

    def class_(self, mods):
        tok = self.c
        self.i += 1
        a = self.attrs()
        name = self.ident()
        tp = self.tparams()
        if self.eat("extends"):
            while True:
                self.type()
                if not self.eat(","):
                    break
        self.need("{")
        ms = []
        while not self.at("}"):
            ms += self.decls()
        self.need("}")
        return N("class", tok, name=name, tparams=tp, members=ms, attrs=a)

    def const(self, mods):
        tok = self.need("const")
        self.attrs()
        name = self.ident()
        ty = e = None
        if self.eat(":"):
            ty = self.type()
        if self.eat(":=") or self.eat("="):
            e = self.expr()
        self.eat(";")
        return N("const", tok, name=name, ty=ty, init=e, ghost="ghost" in mods)

    def fielddecl(self, mods):
        tok = self.need("var")
        self.attrs()
        out = []
        while True:
            name = self.ident()
            self.need(":")
            ty = self.type()
            out.append(N("field", tok, name=name, ty=ty, ghost="ghost" in mods, use=set(mods)))
            if not self.eat(","):
                break
        self.eat(";")
        return out

    def specs(self):
        sp = []
        while True:
            if self.c.t == "id" and self.c.v in SPEC:
                k = self.c.v
                self.i += 1
                if k == "yield":
                    continue
                self.attrs()
                if self.eat("*"):
                    self.eat(";")
                    continue
                if self.c.t == "id" and self.pk().v == ":" and self.pk().t == "sym":   # labelled clause
                    self.i += 2
                s = self.i
                try:
                    self.frame_list()
                except DfyError as e:
                    raise
                sp.append((k, s, self.i))
                self.eat(";")
            else:
                break
        return sp

    def frame_list(self):
        while True:
            self.expr(nolemma=True)
            if self.eat("`"):
                self.ident()
            if not self.eat(","):
                break

    def function(self, mods):
        tok = self.c
        while self.c.v in ("inductive", "least", "greatest", "twostate"):
            self.i += 1
        kind = self.c.v
        self.i += 1
        compiled = False
        if self.eat("method"):
            compiled = True
        a = self.attrs()
        name = self.ident()
        a += self.attrs()
        tp = self.tparams()
        if self.at("["):
            self.i = self.match_[self.i] + 1
        fs, ret, rname, ruse = None, None, None, set()
        if self.at("("):
            fs = self.formals()
        elif self.at("..."):
            self.i += 1
            fs = None
        if self.at(":"):
            self.i += 1
            if self.at("linear", "shared"):
                ruse.add(self.c.v)
                self.i += 1
            # (name: type) or a type
            if self.at("(") and (self.pk().t == "id" and self.pk(2).v == ":" or self.pk().v in ("linear", "shared", "ghost") and self.pk(3).v == ":"):
                self.i += 1
                while self.at("linear", "shared", "ghost") and self.pk().v != ":":
                    ruse.add(self.c.v)
                    self.i += 1
                rname = self.ident()
                self.need(":")
                ret = self.type()
                self.need(")")
            else:
                ret = self.type()
        sp = self.specs()
        body = self.skip_block() if self.at("{") else None
        if self.at("by") and self.pk().v == "method":
            self.i += 2
            self.skip_block()
        return N("function", tok, name=name, kind=kind, compiled=compiled, attrs=a, tparams=tp, formals=fs, ret=ret if kind == "function" else (ret or ("bool",)),
                 rname=rname, ruse=ruse, specs=sp, body=body, mods=mods, static="static" in mods, parser=self)

    def method(self, mods):
        tok = self.c
        kind = self.c.v
        self.i += 1
        a = self.attrs()
        name = None
        if self.c.t == "id" and not (kind == "constructor" and self.at(*SPEC)):
            name = self.ident()
        a += self.attrs()
        tp = self.tparams()
        if self.at("["):
            self.i = self.match_[self.i] + 1
        fs, outs, ellipsis = [], [], False
        if self.at("("):
            fs = self.formals()
        elif self.eat("..."):
            ellipsis = True
        if self.eat("returns"):
            outs = self.formals()
        sp = self.specs()
        body = self.skip_block() if self.at("{") else None
        ghost = kind in ("lemma", "colemma") or "ghost" in mods
        return N("method", tok, name=name, kind=kind, attrs=a, tparams=tp, formals=fs, outs=outs, specs=sp, body=body, mods=mods, ghost=ghost,
                 static="static" in mods, parser=self, ellipsis=ellipsis)

    # --- types.  tuples: ("name", [path], [args]) | ("tuple", [(use,ty)]) | ("fn", [args], ret) | ("bool",)
    def type(self):
        t = self.type1()
        if self.at("->", "-->", "~>"):
            self.i += 1
            r = self.type()
            args = t[1] if t[0] == "tuple" else [(set(), t)]
            return ("fn", [a for _, a in args], r, [u for u, _ in args])
        return t

    def type1(self):
        if self.at("("):
            self.i += 1
            out = []
            while not self.at(")"):
                use = set()
                while self.c.t == "id" and self.c.v in ("linear", "shared", "ghost", "inout"):
                    use.add(self.c.v)
                    self.i += 1
                out.append((use, self.type()))
                if not self.eat(","):
                    break
            self.need(")")
            if len(out) == 1 and not out[0][0] and not self.at("->", "-->", "~>"):
                return out[0][1]
            return ("tuple", out)
        path, args = [], []
        while True:
            path.append(self.ident())
            if self.at("<"):
                args = self.targs()
            if self.at(".") and self.pk().t == "id":
                self.i += 1
                continue
            break
        if path == ["bool"]:
            return ("bool",)
        return ("name", path, args)

    def targs(self):
        self.need("<")
        args = []
        while not self.at(">"):
            while self.at("linear", "shared"):
                self.i += 1
            args.append(self.type())
            if not self.eat(","):
                break
        self.need(">")
        return args

    # --- expressions
    def expr(self, nolemma=False):
        e = self.equiv()
        # statement-expression: `Lemma(x); e`
        if not nolemma and self.at(";") and self.allow_semi(e):
            save = self.i
            self.i += 1
            try:
                e2 = self.expr()
                return N("stmtexpr", e.tok, e=e2)
            except DfyError:
                self.i = save
        return e

    semi = 0
    def allow_semi(self, e):
        return self.semi > 0 and e.k in ("call",)

    def full(self):
        """expression in a position where `E; e` is allowed (function bodies, parentheses, let bodies)"""
        self.semi += 1
        try:
            return self.expr()
        finally:
            self.semi -= 1
    def nosemi(self):
        s, self.semi = self.semi, 0
        try:
            return self.expr()
        finally:
            self.semi = s

    def equiv(self):
        e = self.implies()
        while self.at("<==>"):
            t = self.c
            self.i += 1
            e = N("bin", t, op="<==>", a=e, b=self.implies())
        return e

    def implies(self):
        e = self.logical()
        if self.at("==>"):
            t = self.c
            self.i += 1
            return N("bin", t, op="==>", a=e, b=self.implies())
        while self.at("<=="):
            t = self.c
            self.i += 1
            e = N("bin", t, op="==>", a=self.logical(), b=e)
        return e

    def logical(self):
        if self.at("&&", "||"):
            op = self.c.v
            t = self.c
            self.i += 1
            e = self.rel()
            # leading operator: a list
            while self.at(op):
                t = self.c
                self.i += 1
                e = N("bin", t, op=op, a=e, b=self.rel())
            return e
        e = self.rel()
        if self.at("&&", "||"):
            while self.at("&&", "||"):
                t = self.c
                op = t.v
                self.i += 1
                e = N("bin", t, op=op, a=e, b=self.rel())
        return e

    RELS = ("==", "!=", "<", "<=", ">", ">=", "in", "!in", "!!")
    def rel(self):
        e = self.shift()
        if self.at(*self.RELS) or self.at("!") and self.pk().v == "in":
            conj = None
            while self.at(*self.RELS) or self.at("!") and self.pk().v == "in":
                t = self.c
                op = t.v
                self.i += 1
                if op == "!":
                    self.i += 1
                    op = "!in"
                b = self.shift()
                r = N("bin", t, op=op, a=e, b=b)
                conj = r if conj is None else N("bin", t, op="&&", a=conj, b=r)
                e = b
            return conj
        return e

    def shift(self):
        e = self.term()
        while self.at("<<") or self.at(">") and self.pk().v == ">":
            t = self.c
            self.i += 2 if t.v == ">" else 1
            e = N("bin", t, op="<<" if t.v == "<<" else ">>", a=e, b=self.term())
        return e

    def term(self):
        e = self.factor()
        while self.at("+", "-"):
            t = self.c
            self.i += 1
            e = N("bin", t, op=t.v, a=e, b=self.factor())
        return e

    def factor(self):
        e = self.bv()
        while self.at("*", "/", "%"):
            t = self.c
            self.i += 1
            e = N("bin", t, op=t.v, a=e, b=self.bv())
        return e

    def bv(self):
        e = self.as_()
        while self.at("&", "^") or self.at("|") and self.bvor_ok():
            t = self.c
            self.i += 1
            e = N("bin", t, op=t.v, a=e, b=self.as_())
        return e
    bvor = False
    def bvor_ok(self):
        # only in the shape `x | y }` / `x | y )` that the bit-vector helpers use
        p, n = self.t[self.i - 1], self.pk(2)
        return p.t == "id" and self.pk().t == "id" and n.v in ("}",) and self.t[self.i - 2].v == "{" or \
            p.v == ")" and self.pk().v == "(" and False

    def as_(self):
        e = self.unary()
        while self.at("as", "is"):
            t = self.c
            self.i += 1
            path, args = [self.ident()], []
            while self.at(".") and self.pk().t == "id":
                self.i += 1
                path.append(self.ident())
            if self.at("<"):
                args = self.generic_follows() or []
            ty = ("bool",) if path == ["bool"] else ("name", path, args)
            e = N("as", t, e=e, ty=ty)
        return e

    def unary(self):
        if self.at("!") and self.pk().v != "in" or self.at("-"):
            t = self.c
            self.i += 1
            return N("un", t, op=t.v, e=self.unary())
        return self.primary()

    def generic_follows(self):
        """at '<' after a name: is it an instantiation?"""
        save = self.i
        try:
            args = self.targs()
            c = self.c
            pass
            ok = c.t == "sym" and c.v in ("(", ")", "]", "}", ":", ";", ",", ".", "==", "!=", "[", "&&", "||", "==>", "=>") or c.t == "eof"
            if ok and c.v == "(":
                ok = True
            if ok:
                return args
            self.i = save
            return None
        except DfyError:
            self.i = save
            return None

    def args(self):
        self.need("(")
        out = []
        nl, self.nolam = self.nolam, False
        s, self.semi = self.semi, 0
        b, self.bvor = self.bvor, False
        while not self.at(")"):
            inout = False
            if self.at("inout") :
                self.i += 1
                inout = True
                if self.at("ghost"):
                    self.i += 1
            if self.c.t == "id" and self.pk().v == ":=" :
                self.i += 2
            e = self.full()
            if inout:
                e = N("inoutarg", e.tok, e=e)
            out.append(e)
            if not self.eat(","):
                break
        self.need(")")
        self.semi, self.bvor, self.nolam = s, b, nl
        return out

    def suffix(self, e):
        while True:
            if self.at("."):
                t = self.c
                if self.pk().v == "(":
                    # datatype update e.(f := v)
                    self.i += 1
                    self.need("(")
                    ups = []
                    while True:
                        n = self.c.v
                        self.i += 1
                        self.need(":=")
                        ups.append((n, self.nosemi()))
                        if not self.eat(","):
                            break
                    self.need(")")
                    e = N("dtupdate", t, e=e, ups=ups)
                    continue
                self.i += 1
                if self.c.t == "num":
                    n = self.c.v
                    self.i += 1
                    parts = n.split(".")
                    for p in parts:
                        e = N("member", t, e=e, name=p, targs=None)
                    continue
                if self.at("requires", "reads"):
                    n = self.c.v
                    self.i += 1
                else:
                    n = self.ident()
                ta = None
                if self.at("<"):
                    ta = self.generic_follows()
                e = N("member", t, e=e, name=n, targs=ta)
            elif self.at("("):
                t = self.c
                e = N("call", t, f=e, args=self.args())
            elif self.at("["):
                t = self.c
                if t.line != self.t[self.i - 1].line and False:
                    break
                self.i += 1
                s, self.semi = self.semi, 0
                if self.at(".."):
                    self.i += 1
                    hi = None if self.at("]") else self.full()
                    e = N("slice", t, e=e, lo=None, hi=hi)
                else:
                    a = self.full()
                    if self.eat(".."):
                        hi = None if self.at("]") else self.full()
                        e = N("slice", t, e=e, lo=a, hi=hi)
                    elif self.eat(":="):
                        v = self.full()
                        e = N("update", t, e=e, i=a, v=v)
                    elif self.at(","):
                        ix = [a]
                        while self.eat(","):
                            ix.append(self.full())
                        e = N("index", t, e=e, i=ix[0], more=ix[1:])
                    else:
                        e = N("index", t, e=e, i=a)
                self.semi = s
                self.need("]")
            elif self.at("`") and self.pk().t == "id" and False:
                self.i += 2
            elif self.at("?") :
                # `x?` never occurs standalone
                break
            else:
                return e
        return e

    def primary(self):
        c = self.c
        if c.t == "num":
            v = c.v
            if "." in v:
                self.i += 1
                return self.suffix(N("real", c, v=v))
            self.i += 1
            return self.suffix(N("num", c, v=int(v.replace("_", ""), 0) if not re.match(r"0\d", v) else int(v.replace("_", ""))))
        if c.t == "str":
            self.i += 1
            return self.suffix(N("str", c, v=c.v))
        if c.t == "chr":
            self.i += 1
            return self.suffix(N("chr", c, v=c.v))
        if c.t == "sym":
            if c.v == "(":
                return self.paren()
            if c.v == "[":
                self.i += 1
                s, self.semi = self.semi, 0
                b, self.bvor = self.bvor, False
                es = []
                while not self.at("]"):
                    es.append(self.full())
                    if not self.eat(","):
                        break
                self.need("]")
                self.semi, self.bvor = s, b
                return self.suffix(N("seqlit", c, es=es))
            if c.v == "{":
                return self.suffix(self.setlit())
            if c.v == "|":
                self.i += 1
                s, self.semi = self.semi, 0
                e = self.full()
                self.semi = s
                self.need("|")
                return self.suffix(N("card", c, e=e))
            if c.v == "*":
                self.i += 1
                return N("star", c)
            raise DfyError(f"expression expected at {c}")
        if c.t != "id":
            raise DfyError(f"expression expected at {c}")
        v = c.v
        if v == "true" or v == "false":
            self.i += 1
            return self.suffix(N("boollit", c, v=v == "true"))
        if v == "null":
            self.i += 1
            return N("null", c)
        if v == "this":
            self.i += 1
            return self.suffix(N("this", c))
        if v in ("old", "fresh", "allocated", "unchanged") and self.pk().v in ("(", "@"):
            self.i += 1
            if self.eat("@"):
                self.ident()
            a = self.args()
            return self.suffix(N(v, c, args=a))
        if v == "if":
            self.i += 1
            if self.at("case"):
                raise DfyError(f"if-case expression at {c}")
            if self.c.t == "id" and (self.pk().v == ":|" or self.pk().v == ":" and self.pk().t == "sym"):
                n = self.ident()
                ty = self.type() if self.eat(":") else None
                self.need(":|")
                g = N("bindguard", c, vs=[(n, ty)], cond=self.nosemi())
            else:
                g = self.nosemi()
            self.need("then")
            a = self.full()
            self.need("else")
            b = self.full() if self.semi else self.expr()
            return N("ite", c, c=g, a=a, b=b)
        if v == "match" or v in ("linear", "shared", "ghost") and self.pk().v == "match":
            use = None
            if v != "match":
                use = v
                self.i += 1
            return self.suffix(self.matchexpr(use))
        if v == "var" or v in ("linear", "ghost", "shared", "glinear", "gshared") and self.pk().v == "var":
            return self.let()
        if v in ("assert", "assume") :
            self.i += 1
            self.attrs()
            if self.c.t == "id" and self.pk().v == ":" and self.pk().t == "sym":
                self.i += 2
            self.nosemi()
            if self.at("by"):
                self.i += 1
                self.skip_block()
                self.eat(";")
            else:
                self.need(";")
            return N("stmtexpr", c, e=self.full())
        if v == "calc":
            self.i += 1
            while not self.at("{"):
                self.i += 1
            self.skip_block()
            return N("stmtexpr", c, e=self.full())
        if v == "reveal" or v.startswith("reveal_") and self.pk().v == "(" and self.t[self.match_[self.i + 1] + 1].v == ";" and self.semi:
            if v == "reveal":
                self.i += 1
                while not self.at(";"):
                    self.i += 1
            else:
                self.i = self.match_[self.i + 1] + 1
            self.need(";")
            return N("stmtexpr", c, e=self.full())
        if v in ("forall", "exists") :
            self.i += 1
            vs, rng = self.qdom()
            self.need("::")
            b = self.expr() if not self.semi else self.full()
            return N("quant", c, kind=v, vs=vs, rng=rng, body=b)
        if v in ("set", "iset") and (self.pk().t == "id" and self.pk(2).v in (":", ",", "|", "::") or self.pk().v == "{" and self.pk(2).v == ":"):
            self.i += 1
            vs, rng = self.qdom()
            body = None
            if self.eat("::"):
                body = self.expr()
            return N("setcomp", c, vs=vs, rng=rng, body=body, inf=v == "iset")
        if v in ("map", "imap"):
            if self.pk().v == "[":
                self.i += 2
                ents = []
                s, self.semi = self.semi, 0
                while not self.at("]"):
                    a = self.full()
                    self.need(":=")
                    ents.append((a, self.full()))
                    if not self.eat(","):
                        break
                self.need("]")
                self.semi = s
                return self.suffix(N("maplit", c, ents=ents, inf=v == "imap"))
            self.i += 1
            vs, rng = self.qdom()
            self.need("::")
            b = self.expr()
            b2 = None
            if self.eat(":="):
                b2 = self.expr()
            return N("mapcomp", c, vs=vs, rng=rng, body=b, body2=b2, inf=v == "imap")
        if v == "multiset":
            self.i += 1
            if self.at("("):
                return self.suffix(N("multisetof", c, e=self.args()[0]))
            return self.suffix(N("msetlit", c, e=self.setlit()))
        if v == "iset" and self.pk().v == "{":
            self.i += 1
            return self.suffix(self.setlit(True))
        if v == "seq" and (self.pk().v == "(" or self.pk().v == "<"):
            self.i += 1
            if self.at("<"):
                self.targs()
            a = self.args()
            return self.suffix(N("seqcomp", c, args=a))
        if v == "new":
            return self.newexpr()
        if v in KEYWORDS and v not in ("set", "map", "seq", "in", "label", "as", "yield") or v in ("then", "else", "case"):
            raise DfyError(f"expression expected at {c}")
        # identifier; maybe lambda
        if self.pk().v == "=>" and not self.nolam:
            self.i += 2
            b = self.expr()
            return N("lambda", c, vs=[(v, None)], body=b)
        if self.pk().v in ("requires", "reads") and self.pk().t == "id":
            save = self.i
            try:
                self.i += 1
                self.lambda_specs()
                if self.eat("=>"):
                    return N("lambda", c, vs=[(v, None)], body=self.expr())
                self.i = save
            except DfyError:
                self.i = save
        self.i += 1
        ta = None
        if self.at("<"):
            ta = self.generic_follows()
        return self.suffix(N("id", c, name=v, targs=ta))

    nolam = False
    def lambda_specs(self):
        s, self.nolam = self.nolam, True
        try:
            while self.at("requires", "reads"):
                self.i += 1
                self.expr(nolemma=True)
        finally:
            self.nolam = s

    def newexpr(self):
        c = self.need("new")
        ty = None if self.at("[") else self.type1()
        if self.at("["):
            self.i += 1
            n = self.nosemi()
            self.need("]")
            init = None
            if self.at("("):
                init = self.args()
            elif self.at("["):
                init = self.args()
            return N("newarray", c, ty=ty, n=n, init=init)
        a = self.args() if self.at("(") else None
        return N("new", c, ty=ty, args=a)

    def setlit(self, inf=False):
        c = self.need("{")
        es = []
        s, self.semi = self.semi, 0
        b, self.bvor = self.bvor, False
        while not self.at("}"):
            es.append(self.full())
            if not self.eat(","):
                break
        self.need("}")
        self.semi, self.bvor = s, b
        return N("setlit", c, es=es, inf=inf)

    def qdom(self):
        vs = []
        self.attrs()
        while True:
            n = self.ident()
            ty = None
            if self.eat(":"):
                ty = self.type()
            self.attrs()
            vs.append((n, ty))
            if not self.eat(","):
                break
        self.attrs()
        rng = None
        if self.eat("|"):
            rng = self.expr(nolemma=True)
        self.attrs()
        return vs, rng

    def paren(self):
        c = self.c
        e = self.match_[self.i]
        # lambda?  ( formals ) [requires/reads ...] =>
        nx = self.t[e + 1]
        if nx.v == "=>" or nx.v in ("requires", "reads") and nx.t == "id":
            save = self.i
            try:
                self.i += 1
                vs = []
                while not self.at(")"):
                    while self.at("linear", "shared", "ghost"):
                        self.i += 1
                    n = self.ident()
                    ty = self.type() if self.eat(":") else None
                    vs.append((n, ty))
                    if not self.eat(","):
                        break
                self.need(")")
                self.lambda_specs()
                self.need("=>")
                return N("lambda", c, vs=vs, body=self.expr())
            except DfyError:
                self.i = save
        self.i += 1
        s, self.semi = self.semi, 0
        b, self.bvor = self.bvor, False
        es, uses = [], []
        while not self.at(")"):
            u = set()
            while self.at("linear", "shared", "ghost") and self.pk().v not in ("var", "match"):
                u.add(self.c.v)
                self.i += 1
            es.append(self.full())
            uses.append(u)
            if not self.eat(","):
                break
        self.need(")")
        self.semi, self.bvor = s, b
        if len(es) == 1 and not uses[0]:
            return self.suffix(N("paren", c, e=es[0]))
        return self.suffix(N("tuple", c, es=es, uses=uses))

    def pattern(self):
        c = self.c
        use = set()
        while self.at("linear", "shared", "ghost"):
            use.add(self.c.v)
            self.i += 1
        if self.at("("):
            self.i += 1
            ps = []
            while not self.at(")"):
                ps.append(self.pattern())
                if not self.eat(","):
                    break
            self.need(")")
            return N("ptuple", c, ps=ps, use=use)
        if c.t == "num" or self.at("-"):
            neg = self.eat("-")
            v = int(self.c.v.replace("_", ""), 0)
            self.i += 1
            return N("plit", c, v=-v if neg else v)
        if self.at("true", "false"):
            self.i += 1
            return N("plit", c, v=c.v == "true")
        path = [self.ident()]
        while self.eat("."):
            path.append(self.ident())
        if self.at("("):
            self.i += 1
            ps = []
            while not self.at(")"):
                ps.append(self.pattern())
                if not self.eat(","):
                    break
            self.need(")")
            return N("pctor", c, path=path, ps=ps, use=use)
        ty = None
        if self.at(":") and self.pk().v not in (":", "|"):
            self.i += 1
            ty = self.type()
        if len(path) > 1:
            return N("pctor", c, path=path, ps=[], use=use)
        return N("pvar", c, name=path[0], ty=ty, use=use)

    def let(self):
        c = self.c
        use = set()
        while not self.at("var"):
            use.add(self.c.v)
            self.i += 1
        self.need("var")
        self.attrs()
        pats = []
        while True:
            pats.append(self.pattern())
            if not self.eat(","):
                break
        if self.eat(":|"):
            e = self.nosemi()
            self.need(";")
            return N("letst", c, pats=pats, cond=e, body=self.full(), use=use)
        self.need(":=")
        es = []
        while True:
            es.append(self.nosemi())
            if not self.eat(","):
                break
        self.need(";")
        return N("let", c, pats=pats, es=es, body=self.full(), use=use)

    def matchexpr(self, use):
        c = self.need("match")
        e = self.nosemi()
        br = False
        if self.at("{"):
            br = True
            self.i += 1
        cases = []
        while self.at("case"):
            self.i += 1
            p = self.pattern()
            self.need("=>")
            cases.append((p, self.full() if True else None))
        if br:
            self.need("}")
        return N("match", c, e=e, cases=cases, use=use)

    # --- statements
    def block(self):
        self.need("{")
        out = []
        while not self.at("}"):
            s = self.stmt()
            if s is not None:
                out.append(s)
        self.need("}")
        return out

    def rhs(self):
        if self.at("new"):
            return self.suffix(self.newexpr())
        if self.at("*"):
            t = self.c
            self.i += 1
            return N("star", t)
        self.eat("inout")      # `inout x.m(...)`: the receiver is passed by reference
        return self.nosemi()

    def stmt(self):
        c = self.c
        v = c.v
        if c.t == "sym":
            if v == "{":
                if self.pk().v == ":" :
                    self.attrs()
                    self.eat(";")
                    return None
                return N("block", c, body=self.block())
            if v == ";":
                self.i += 1
                return None
            if v == "...":
                self.i += 1
                self.eat(";")
                return N("dots", c)
        if c.t == "id":
            if v == "label":
                self.i += 1
                self.ident()
                self.need(":")
                return self.stmt()
            if v in ("linear", "ghost", "shared", "glinear", "gshared") and self.pk().v == "var" or v == "var":
                return self.vardecl()
            if v in ("linear", "ghost", "shared", "glinear", "gshared") and self.pk().v == "match":
                self.i += 1
                return self.matchstmt(v)
            if v == "match":
                return self.matchstmt(None)
            if v == "if" or v == "linear" and self.pk().v == "if":
                if v == "linear": self.i += 1
                return self.ifstmt()
            if v == "while":
                self.i += 1
                if self.at("case") or self.at("{"):
                    raise DfyError(f"while-case at {c}")
                g = self.nosemi()
                self.specs_stmt()
                b = self.block() if self.at("{") else None
                return N("while", c, c=g, body=b)
            if v in ("assert", "assume", "expect"):
                self.i += 1
                self.attrs()
                if self.c.t == "id" and self.pk().v == ":" and self.pk().t == "sym":
                    self.i += 2
                if self.eat("..."):
                    self.need(";")
                    return None
                self.nosemi()
                if self.at("by"):
                    self.i += 1
                    self.skip_block()
                    self.eat(";")
                else:
                    self.need(";")
                return None
            if v == "calc":
                self.i += 1
                while not self.at("{") or self.pk().v == ":":
                    if self.at("{"):
                        self.attrs()
                    else:
                        self.i += 1
                self.skip_block()
                return None
            if v == "forall":
                # ghost forall statement
                self.i += 1
                par = False
                if self.at("(") and self.t[self.match_[self.i] + 1].v in ("{", "ensures"):
                    self.i = self.match_[self.i] + 1
                elif not self.at("ensures", "{"):
                    self.qdom()
                self.specs_stmt()
                if self.at("{"):
                    a = self.skip_block()
                return N("forallstmt", c)
            if v == "reveal" or v.startswith("reveal_"):
                while not self.at(";"):
                    self.i += 1
                self.need(";")
                return None
            if v == "print":
                self.i += 1
                es = [self.nosemi()]
                while self.eat(","):
                    es.append(self.nosemi())
                self.need(";")
                return N("print", c, es=es)
            if v == "return":
                self.i += 1
                es = []
                if not self.at(";"):
                    es.append(self.rhs())
                    while self.eat(","):
                        es.append(self.rhs())
                self.need(";")
                return N("return", c, es=es)
            if v == "break":
                self.i += 1
                while not self.at(";"):
                    self.i += 1
                self.need(";")
                return N("break", c)
            if v == "new" and self.pk().v == ";":
                self.i += 2
                return None
            if v == "modify":
                while not self.at(";", "{"):
                    self.i += 1
                if self.at("{"):
                    self.skip_block()
                else:
                    self.need(";")
                return None
            if v == "yield":
                raise DfyError(f"yield {c}")
            if v == "inout":
                self.i += 1
                gh = self.eat("ghost")
                lhs = [self.lhs()]
                if lhs[0].k == "call" and self.eat(";"):
                    return N("callstmt", c, e=lhs[0])
                while self.eat(","):
                    self.eat("inout")
                    lhs.append(self.lhs())
                self.need(":=")
                r = [self.rhs()]
                while self.eat(","):
                    r.append(self.rhs())
                self.need(";")
                return N("assign", c, lhs=lhs, rhs=r, inout=True, ghost=gh)
            if v == "this" and self.pk().v == "." or True:
                pass
        # assignment or call
        lhs = [self.lhs()]
        while self.eat(","):
            lhs.append(self.lhs())
        if self.eat(":="):
            r = [self.rhs()]
            while self.eat(","):
                r.append(self.rhs())
            self.need(";")
            return N("assign", c, lhs=lhs, rhs=r, inout=False, ghost=False)
        if self.eat(":|"):
            self.eat("assume")
            e = self.nosemi()
            self.need(";")
            return N("assignst", c, lhs=lhs, cond=e)
        self.attrs()
        self.need(";")
        if len(lhs) != 1 or lhs[0].k != "call":
            raise DfyError(f"call statement expected at {c}")
        return N("callstmt", c, e=lhs[0])

    def lhs(self):
        return self.nosemi()

    def specs_stmt(self):
        while self.c.t == "id" and self.c.v in ("invariant", "decreases", "modifies", "ensures", "requires", "free"):
            self.i += 1
            self.attrs()
            if self.eat("*"):
                self.eat(";")
                continue
            if self.eat("..."):
                self.eat(";")
                continue
            if self.c.t == "id" and self.pk().v == ":" and self.pk().t == "sym":
                self.i += 2
            self.frame_list()
            self.eat(";")

    def vardecl(self):
        c = self.c
        use = set()
        while not self.at("var"):
            use.add(self.c.v)
            self.i += 1
        self.need("var")
        self.attrs()
        # pattern: Ctor(...) or (a, b)
        if self.at("(") or self.c.t == "id" and (self.pk().v == "(" or self.pk().v == "."):
            p = self.pattern()
            self.need(":=")
            e = self.rhs()
            self.need(";")
            return N("varpat", c, pat=p, e=e, use=use)
        vs = []
        while True:
            u = set(use)
            while self.at("linear", "ghost", "shared"):
                u.add(self.c.v)
                self.i += 1
            self.attrs()
            n = self.ident()
            ty = self.type() if self.eat(":") else None
            vs.append((n, ty, u))
            if not self.eat(","):
                break
        rhs = cond = None
        if self.eat(":="):
            rhs = [self.rhs()]
            while self.eat(","):
                rhs.append(self.rhs())
        elif self.eat(":|"):
            self.eat("assume")
            cond = self.nosemi()
        self.need(";")
        return N("var", c, vs=vs, rhs=rhs, cond=cond, use=use)

    def ifstmt(self):
        c = self.need("if")
        if self.at("case", "{"):
            # alternative statement
            br = self.eat("{")
            alts = []
            while self.at("case"):
                self.i += 1
                g = self.nosemi()
                self.need("=>")
                body = []
                while not self.at("case", "}"):
                    s = self.stmt()
                    if s is not None:
                        body.append(s)
                alts.append((g, body))
            if br:
                self.need("}")
            return N("alt", c, alts=alts)
        # binding guard: if x :| P {   or  if x: T :| P {
        if self.c.t == "id" and (self.pk().v in (":|", ",") or self.pk().v == ":" and self.pk().t == "sym"):
            save = self.i
            try:
                vs = []
                while True:
                    n = self.ident()
                    ty = self.type() if self.eat(":") else None
                    vs.append((n, ty))
                    if not self.eat(","):
                        break
                self.need(":|")
                g = N("bindguard", c, vs=vs, cond=self.nosemi())
            except DfyError:
                self.i = save
                g = self.guard()
        else:
            g = self.guard()
        a = self.block()
        b = None
        if self.eat("else"):
            if self.at("linear") and self.pk().v == "if": self.i += 1
            if self.at("if"):
                b = [self.ifstmt()]
            else:
                b = self.block()
        return N("if", c, c=g, a=a, b=b)

    def guard(self):
        return self.nosemi()

    def matchstmt(self, use):
        c = self.need("match")
        e = self.nosemi()
        br = self.eat("{")
        cases = []
        while self.at("case"):
            self.i += 1
            p = self.pattern()
            self.need("=>")
            body = []
            while not self.at("case", "}"):
                s = self.stmt()
                if s is not None:
                    body.append(s)
            cases.append((p, body))
        if br:
            self.need("}")
        return N("matchstmt", c, e=e, cases=cases, use=use)

    # --- deferred bodies
    def sub(self, rng):
        p = Parser.__new__(Parser)
        p.t, p.match_ = self.t, self.match_
        p.i = rng[0]
        return p
    def fbody(self, rng):
        p = self.sub(rng)
        p.need("{")
        e = p.full()
        p.need("}")
        return e
    def mbody(self, rng):
        return self.sub(rng).block()

def parse_file(f):
    p = Parser(lex(open(f).read(), f))
    return p.file()

def load(root):
    """include closure of root: list of (file, decls) in dependency order"""
    seen, out = set(), []
    def go(f):
        f = os.path.realpath(f)
        if f in seen:
            return
        seen.add(f)
        incs, decls = parse_file(f)
        for i in incs:
            go(os.path.join(os.path.dirname(f), i))
        out.append((f, decls))
    go(root)
    return out

if __name__ == "__main__":
    import sys, time
    t = time.time()
    ok = bad = 0
    full = "--bodies" in sys.argv
    for f in [l.strip() for l in open(sys.argv[1])]:
        try:
            incs, ds = parse_file(f)
            ok += 1
        except DfyError as e:
            print(f, e)
            bad += 1
            continue
        if full:
            def go(ds):
                for d in ds:
                    if d.k == "module":
                        go(d.decls)
                    elif d.k in ("class", "datatype"):
                        go(d.members)
                    elif d.k in ("function", "method") and d.body:
                        try:
                            (d.parser.fbody if d.k == "function" else d.parser.mbody)(d.body)
                        except DfyError as e:
                            print("BODY", f, d.name, e)
            go(ds)
    print(ok, bad, time.time() - t)
