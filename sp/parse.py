"""Parser of the Verus specification language (the part that Splinter/src uses) into tuples."""
import re
class PErr(Exception): pass
TOK = re.compile(r"""(?P<ws>\s+|//[^\n]*)|(?P<num>0x[0-9a-fA-F_]+\w*|\d[\d_]*(?:[ui](?:8|16|32|64|128|size)|int|nat)?)|(?P<life>'[a-zA-Z_]\w*(?!'))|(?P<chr>'(?:\\.|[^'\\])')|(?P<str>"(?:\\.|[^"\\])*")|(?P<id>(?:r\#)?[A-Za-z_]\w*)|(?P<p><==>|=~~=|!~~=|<<=|>>=|===|!==|==>|<==|=~=|!~=|&&&|\|\|\||\.\.=|\.\.\.|->|=>|::|==|!=|<=|>=|&&|\|\||\.\.|<<|\+=|-=|\*=|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])""", re.X)
def lex(s):
    out, i, n, line = [], 0, len(s), 1
    while i < n:
        if s.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if s.startswith("/*", j): d += 1; j += 2
                elif s.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            line += s.count("\n", i, j); i = j; continue
        m = TOK.match(s, i)
        if not m: raise PErr("line %d: cannot read %r" % (line, s[i:i + 20]))
        k = m.lastgroup
        if k != "ws": out.append((k, m.group(), line))
        line += m.group().count("\n"); i = m.end()
    out.append(("eof", "", line))
    return out
BIN = [["<==>"], ["==>", "<=="], ["||"], ["&&"], "cmp", ["|"], ["^"], ["&"], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]
CMP = {"==", "!=", "===", "!==", "=~=", "=~~=", "!~=", "!~~=", "<", ">", "<=", ">="}
MODES = {"spec", "proof", "exec"}
class P:
    def __init__(self, src, name=""):
        self.t, self.i, self.name = lex(src), 0, name
    def err(self, m="unexpected"): raise PErr("%s:%d: %s at %r" % (self.name, self.t[self.i][2], m, " ".join(x[1] for x in self.t[self.i:self.i + 8])))
    def pk(self, k=0): return self.t[self.i + k][1] if self.i + k < len(self.t) and self.t[self.i + k][0] not in ("str", "chr") else ""
    def kind(self, k=0): return self.t[min(self.i + k, len(self.t) - 1)][0]
    def at(self, *v): return self.pk() in v and self.kind() != "eof"
    def eat(self, v):
        if self.pk() == v and self.kind() != "eof": self.i += 1; return True
        return False
    def need(self, v):
        if not self.eat(v):
            if v == ">" and self.pk() in (">=", ">>="):  # split
                k, x, l = self.t[self.i]; self.t[self.i] = (k, x[1:], l); return
            self.err("expected " + v)
    def ident(self):
        if self.kind() != "id": self.err("expected a name")
        v = self.pk(); self.i += 1; return v
    def skip(self, o, c):
        """skip a bracketed group whose opening token is the next one"""
        self.need(o); d = 1
        while d:
            if self.kind() == "eof": self.err("unclosed " + o)
            if self.pk() == o: d += 1
            elif self.pk() == c: d -= 1
            self.i += 1
    def skip_any(self):
        o = self.pk(); self.skip(o, {"(": ")", "{": "}", "[": "]"}[o])
    def attrs(self):
        a = []
        while self.at("#"):
            self.i += 1; self.eat("!"); j = self.i; self.skip("[", "]"); a.append("".join(x[1] for x in self.t[j + 1:self.i - 1]))
        return a
    # ---- types
    def generics(self):
        """after '<': list of type ASTs or names"""
        out = []
        while not self.at(">"):
            if self.kind() == "life": self.i += 1
            elif self.at("{"): self.skip("{", "}")
            elif self.kind() == "num": self.i += 1
            else:
                if self.kind() == "id" and self.pk(1) == "=" : self.i += 2
                self.eat("const")
                out.append(self.type())
                if self.eat(":"): self.bounds()
                if self.eat("="): self.type()
            if not self.eat(","): break
        self.need(">")
        return out
    def bounds(self):
        while True:
            if self.kind() == "life": self.i += 1
            elif self.kind() == "id" or self.at("?", "("): self.eat("?"); self.type()
            if not self.eat("+"): return
    def type(self):
        if self.eat("&"):
            if self.kind() == "life": self.i += 1
            self.eat("mut"); return self.type()
        if self.eat("&&"): return self.type()
        if self.eat("*"): self.eat("const") or self.eat("mut"); return self.type()
        if self.eat("("):
            ts = []
            while not self.at(")"):
                ts.append(self.type())
                if not self.eat(","): break
            self.need(")")
            return ("tuple", ts)
        if self.eat("["):
            t = self.type()
            if self.eat(";"): self.expr()
            self.need("]"); return ("path", ["Seq"], [t])
        if self.eat("!"): return ("tuple", [])
        if self.at("impl", "dyn", "for"):
            self.i += 1
            if self.at("<"): self.i += 1; self.generics()
            self.bounds(); return ("path", ["_"], [])
        if self.at("tracked", "ghost"): self.i += 1
        if self.eat("<"):
            t = self.type()
            if self.eat("as"): self.type()
            self.need(">"); self.need("::"); self.ident(); return ("path", ["_"], [])
        segs, g = [self.ident()], []
        while True:
            if self.at("<"): self.i += 1; g = self.generics()
            elif self.at("::") and self.pk(1) == "<": self.i += 2; g = self.generics()
            elif self.at("::"): self.i += 1; segs.append(self.ident())
            elif self.at("(") and segs[-1] in ("Fn", "FnOnce", "FnMut", "spec_fn", "FnSpec"):
                self.skip("(", ")")
                if self.eat("->"): self.type()
                return ("fn",)
            else: break
        return ("path", segs, g)
    # ---- patterns
    def pat(self):
        p = self.pat1()
        if self.at("|") : 
            alts = [p]
            while self.eat("|"): alts.append(self.pat1())
            return ("alt", alts)
        return p
    def pat1(self):
        self.attrs()
        if self.eat("&") or self.eat("&&"): self.eat("mut"); return self.pat1()
        if self.eat("_"): return ("wild",)
        if self.eat(".."): return ("rest",)
        if self.eat("("):
            ps = []
            while not self.at(")"):
                ps.append(self.pat())
                if not self.eat(","): break
            self.need(")"); return ("ptuple", ps)
        if self.kind() == "num" or self.at("-"):
            neg = self.eat("-"); v = num(self.pk()); self.i += 1
            return ("lit", -v if neg else v)
        if self.at("true", "false"): v = self.pk() == "true"; self.i += 1; return ("lit", v)
        while self.at("ref", "mut", "ghost", "tracked") : self.i += 1
        if self.at("Ghost", "Tracked") and self.pk(1) == "(":
            self.i += 2; p = self.pat(); self.need(")"); return p
        segs = [self.ident()]
        while self.at("::"):
            self.i += 1
            if self.eat("<"): self.generics()
            else: segs.append(self.ident())
        if self.at("(") :
            self.i += 1; ps = []
            while not self.at(")"):
                ps.append(self.pat())
                if not self.eat(","): break
            self.need(")"); return ("pctor", segs, ps)
        if self.at("{"):
            self.i += 1; fs = []
            while not self.at("}"):
                self.attrs()
                if self.eat(".."): break
                while self.at("ref", "mut"): self.i += 1
                n = self.pk(); self.i += 1
                fs.append((n, self.pat() if self.eat(":") else ("bind", n)))
                if not self.eat(","): break
            self.need("}"); return ("pstruct", segs, fs)
        if self.eat("@"): p = self.pat(); return ("as", segs[0], p)
        if len(segs) == 1: return ("bind", segs[0])
        return ("pctor", segs, [])
    # ---- expressions
    def expr(self, ns=False):
        self.attrs()
        if self.at("&&&", "|||"):
            op = self.pk(); es = []
            while self.eat(op): es.append(self.expr0(ns)); self.attrs()
            return ("and" if op == "&&&" else "or", es)
        return self.expr0(ns)
    def expr0(self, ns): return self.bin(0, ns)
    def bin(self, lv, ns):
        if lv == len(BIN): return self.cast(ns)
        ops = BIN[lv]
        if ops == "cmp":
            a = self.isop(lv, ns); chain = None
            while self.pk() in CMP and self.kind() == "p":
                op = self.pk(); self.i += 1; b = self.isop(lv, ns)
                if chain is None: chain = [a, []]
                chain[1].append((op, b))
                a = ("cmp", chain[0], chain[1])
            return a
        a = self.bin(lv + 1, ns)
        while self.pk() in ops and self.kind() == "p" or (">>" in ops and self.at(">") and self.pk(1) == ">" and False):
            op = self.pk(); self.i += 1
            if op == "==>":
                b = self.bin(1, ns) if not self.at("&&&", "|||") else self.expr(ns); a = ("imp", a, b)
            elif op == "<==": b = self.bin(lv + 1, ns); a = ("imp", b, a)
            elif op == "<==>": b = self.bin(lv + 1, ns); a = ("cmp", a, [("==", b)])
            elif op == "&&": b = self.bin(lv + 1, ns); a = ("and", [a, b])
            elif op == "||": b = self.bin(lv + 1, ns); a = ("or", [a, b])
            else: b = self.bin(lv + 1, ns); a = ("bin", op, a, b)
        return a
    def isop(self, lv, ns):
        a = self.bin(lv + 1, ns)
        while True:
            if self.at("is"): self.i += 1; a = ("is", a, self.variant())
            elif self.at("matches"): self.i += 1; a = ("matches", a, self.pat())
            elif self.at("has"): self.i += 1; a = ("call", a, "contains", [self.bin(lv + 1, ns)])
            elif self.at("!") and self.pk(1) == "is": self.i += 2; a = ("not", ("is", a, self.variant()))
            else: return a
    def variant(self):
        segs = [self.ident()]
        while self.eat("::"): segs.append(self.ident())
        if self.at("<"): self.i += 1; self.generics()
        return segs[-1]
    def cast(self, ns):
        a = self.unary(ns)
        while True:
            if self.at("as"): self.i += 1; a = ("as", a, self.type())
            elif self.at("is") and False: pass
            else: return a
    def unary(self, ns):
        self.attrs()
        if self.eat("!"): return ("not", self.unary(ns))
        if self.eat("-"): return ("neg", self.unary(ns))
        if self.eat("*"): return self.unary(ns)
        if self.eat("&"): self.eat("mut"); return self.unary(ns)
        if self.eat("&&"): return self.unary(ns)
        return self.postfix(self.primary(ns), ns)
    def args(self):
        self.need("("); out = []
        while not self.at(")"):
            out.append(self.expr())
            if not self.eat(","): break
        self.need(")")
        return out
    def postfix(self, a, ns):
        while True:
            if self.at("."):
                if self.kind(1) == "num":
                    f = self.pk(1); self.i += 2; a = ("field", a, "_" + f)
                elif self.kind(1) == "id":
                    f = self.pk(1); self.i += 2
                    if self.at("::"): self.i += 1; self.need("<"); self.generics()
                    if self.at("("): a = ("call", a, f, self.args())
                    else: a = ("field", a, f)
                else: self.err()
            elif self.at("->"):
                f = self.pk(1); self.i += 2; a = ("arrow", a, f)
            elif self.at("["):
                self.i += 1; e = self.expr(); self.need("]"); a = ("idx", a, e)
            elif self.at("("): a = ("app", a, self.args())
            elif self.at("@"): self.i += 1; a = ("call", a, "view", [])
            elif self.at("?"): self.i += 1
            else: return a
    def binders(self):
        if self.eat("||"): return []
        self.need("|"); bs = []
        while not self.at("|"):
            self.attrs(); self.eat("mut"); self.eat("tracked"); self.eat("ghost")
            p = self.pat1(); t = self.type() if self.eat(":") else None
            bs.append((p, t))
            if not self.eat(","): break
        self.need("|")
        return bs
    def primary(self, ns):
        k, v = self.kind(), self.pk()
        if k == "num":
            self.i += 1; return ("num", num(v))
        if k == "str": self.i += 1; return ("str", self.t[self.i - 1][1])
        if k == "chr": self.i += 1; return ("str", self.t[self.i - 1][1])
        if v in ("forall", "exists", "choose") and self.pk(1) in ("|", "||", "#"):
            self.i += 1; bs = self.binders(); self.attrs()
            return (v, bs, self.expr(ns))
        if v in ("|", "||"):
            bs = self.binders()
            if self.eat("->"): 
                if self.eat("("): self.ident(); self.need(":"); self.type(); self.need(")")
                else: self.type()
            self.attrs()
            return ("lambda", bs, self.expr(ns))
        if v == "(":
            self.i += 1; es, tup = [], False
            while not self.at(")"):
                es.append(self.expr())
                if self.eat(","): tup = True
                else: break
            self.need(")")
            return es[0] if len(es) == 1 and not tup else ("tup", es)
        if v == "[":
            self.i += 1; es = []
            while not self.at("]"):
                es.append(self.expr())
                if self.eat(";"): self.expr(); break
                if not self.eat(","): break
            self.need("]"); return ("seqlit", es)
        if v == "{": return self.block()
        if v == "if":
            self.i += 1
            if self.eat("let"):
                p = self.pat(); self.need("="); c = ("matches", self.expr(True), p)
                while self.eat("&&"):
                    c = ("and", [c, self.expr(True)])
            else: c = self.expr(True)
            t = self.block(); e = None
            if self.eat("else"): e = self.primary(False) if self.at("if") else self.block()
            return ("if", c, t, e)
        if v == "match":
            self.i += 1; s = self.expr(True); self.need("{"); arms = []
            while not self.at("}"):
                self.attrs(); self.eat("|")
                p = self.pat(); g = self.expr() if self.eat("if") else None
                self.need("=>"); e = self.expr(); arms.append((p, g, e))
                self.eat(",")
            self.need("}"); return ("match", s, arms)
        if v == "true" or v == "false": self.i += 1; return ("bool", v == "true")
        if v in ("loop", "while", "for", "return", "break", "continue", "unsafe", "proof", "tracked", "ghost", "move") and not (v in ("tracked", "ghost") and self.pk(1) in ("(", ".", ",", ")")):
            if v == "move": self.i += 1; return self.primary(ns)
            if v in ("tracked", "ghost"): self.i += 1; return self.unary(ns)
            raise PErr("%s:%d: executable statement %s" % (self.name, self.t[self.i][2], v))
        if v == "<":
            self.i += 1; t = self.type()
            if self.eat("as"): self.type()
            self.need(">"); self.need("::"); segs = [t, self.ident()]
            return ("qpath", t, segs[1])
        if k == "id":
            if self.pk(1) == "!" and self.pk(2) in ("(", "[", "{") : return self.macro()
            if v in ("assert", "assume") and self.pk(1) in ("(", "forall"): return self.assert_()
            segs, g = [self.ident()], []
            while self.at("::"):
                self.i += 1
                if self.eat("<"): g = self.generics()
                else: segs.append(self.ident())
            if self.at("{") and not ns and self.looks_struct(segs): return self.struct(segs)
            return ("path", segs, g)
        if v == "$": self.i += 1; return ("path", ["$" + self.ident()], [])
        self.err()
    def looks_struct(self, segs):
        a, b, c = self.pk(1), self.pk(2), self.kind(1)
        if not segs[-1][0].isupper(): return False
        return a == "}" or a == ".." or a == "#" or (c in ("id", "num") and b in (":", ",", "}"))
    def struct(self, segs):
        self.need("{"); fs, base = [], None
        while not self.at("}"):
            self.attrs()
            if self.eat(".."): base = self.expr() if not self.at("}") else None; break
            n = self.pk(); isn = self.kind() == "num"; self.i += 1
            n = "_" + n if isn else n
            fs.append((n, self.expr() if self.eat(":") else ("path", [n], [])))
            if not self.eat(","): break
        self.need("}")
        return ("struct", segs, fs, base)
    def macro(self):
        n = self.ident(); self.need("!")
        if n in ("map", "imap", "seq", "set", "iset", "vec"):
            o = self.pk(); c = {"(": ")", "{": "}", "[": "]"}[o]; self.i += 1; es = []
            while not self.at(c):
                a = self.expr()
                es.append((a, self.expr()) if self.eat("=>") else a)
                if not self.eat(","): break
            self.need(c)
            return ({"map": "maplit", "imap": "maplit", "seq": "seqlit", "vec": "seqlit", "set": "setlit", "iset": "setlit"}[n], es)
        if n == "matches":
            self.need("("); a = self.expr(); self.need(","); p = self.pat()
            if self.eat("if"): a = ("and", [("matches", a, p), self.expr()])
            else: a = ("matches", a, p)
            self.eat(","); self.need(")")
            return a
        self.skip_any()
        return ("ghost",)
    def assert_(self):
        n = self.ident()
        if self.at("forall"):
            self.i += 1; bs = self.binders(); self.attrs(); e = self.expr()
            if self.eat("implies"): e = ("imp", e, self.expr())
            q = ("forall", bs, e)
        else: self.need("("); q = self.expr(); self.need(")")
        if self.eat("by"):
            if self.at("("): self.skip("(", ")")
            if self.at("requires"):
                while not self.at("{", ";"): self.i += 1
            if self.at("{"): self.skip("{", "}")
        return (n, q)
    def block(self):
        self.need("{"); ss = []; last = None
        while not self.at("}"):
            self.attrs()
            if self.eat(";"): continue
            if self.at("let"):
                self.i += 1
                while self.at("ghost", "tracked", "mut") and self.pk(1) not in ("=", ":"): self.i += 1
                p = self.pat(); 
                if self.eat(":"): self.type()
                e = None
                if self.eat("="): e = self.expr()
                if self.eat("else"): self.skip("{", "}")
                self.need(";"); ss.append(("let", p, e)); continue
            if self.at("broadcast", "use", "reveal", "hide", "reveal_with_fuel", "calc") and not self.pk(1) in (".", "=", ","):
                if self.at("calc"): self.i += 1; self.need("!"); self.skip_any(); self.eat(";"); continue
                while not self.at(";"): self.i += 1
                self.i += 1; continue
            if self.at("proof") and self.pk(1) == "{": self.i += 1; self.skip("{", "}"); continue
            if self.at("fn", "const", "static"): raise PErr("nested item")
            e = self.expr()
            if self.eat("="): f = self.expr(); self.need(";"); ss.append(("set", e, f)); continue
            if self.at("+=", "-="): raise PErr("executable statement")
            if self.eat(";"): ss.append(("do", e)); continue
            if self.at("}"): last = e; break
            ss.append(("do", e))   # block-like statement
        self.need("}")
        return ("block", ss, last)
    # ---- items
    def items(self, end=None):
        out = []
        while not (self.kind() == "eof" if end is None else self.at(end)):
            it = self.item()
            if isinstance(it, list): out += it
            elif it: out.append(it)
        return out
    def item(self):
        at = self.attrs()
        if self.eat(";"): return None
        i0 = self.i; self.vis(); pub = self.i > i0
        v = self.pk()
        if v == "use": return [x + (pub,) for x in self.use()]
        if v == "extern": 
            while not self.eat(";"): self.i += 1
            return None
        if v == "mod":
            self.i += 1; n = self.ident()
            if self.eat(";"): return ("mod", n, None)
            self.need("{"); its = self.items("}"); self.need("}"); return ("mod", n, its)
        if v in ("verus", "verus_proof_expr") and self.pk(1) == "!":
            self.i += 2; o = self.pk(); c = {"(": ")", "{": "}", "[": "]"}[o]; self.i += 1
            its = self.items(c); self.need(c); self.eat(";"); return its
        if v == "state_machine" and self.pk(1) == "!": return self.sm()
        if v in ("broadcast",) and self.pk(1) in ("use", "group"):
            if self.pk(1) == "use":
                while not self.eat(";"): self.i += 1
            else:
                while not self.at("{"): self.i += 1
                self.skip("{", "}")
            return None
        if v == "macro_rules":
            self.i += 2; self.ident(); self.skip_any(); self.eat(";"); return None
        if self.kind() == "id" and self.pk(1) == "!":
            self.i += 2
            if self.kind() == "id": self.i += 1
            self.skip_any(); self.eat(";"); return None
        if v == "type":
            self.i += 1; n = self.ident()
            if self.at("<"): self.i += 1; self.generics()
            if self.eat(":"): self.bounds()
            t = None
            if self.eat("="): t = self.type()
            self.need(";"); return ("type", n, t)
        while self.at("ghost", "tracked", "unsafe") and self.pk(1) in ("struct", "enum", "impl", "trait", "fn"): self.i += 1
        v = self.pk()
        if v == "struct":
            self.i += 1; n = self.ident(); self.gen_opt()
            self.where()
            if self.eat(";"): return ("struct", n, [], at)
            if self.at("("):
                self.i += 1; ts = []
                while not self.at(")"):
                    self.attrs(); self.vis(); ts.append(("_%d" % len(ts), self.type()))
                    if not self.eat(","): break
                self.need(")"); self.where(); self.need(";"); return ("struct", n, ts, at)
            fs = self.fields(); return ("struct", n, fs, at)
        if v == "enum":
            self.i += 1; n = self.ident(); self.gen_opt(); self.where(); self.need("{"); vs = []
            while not self.at("}"):
                self.attrs(); vn = self.ident(); fs = []
                if self.at("{"): fs = self.fields()
                elif self.eat("("):
                    while not self.at(")"):
                        self.attrs(); fs.append(("_%d" % len(fs), self.type()))
                        if not self.eat(","): break
                    self.need(")")
                if self.eat("="): self.expr()
                vs.append((vn, fs))
                if not self.eat(","): break
            self.need("}"); return ("enum", n, vs)
        if v == "impl":
            self.i += 1
            if self.at("<"): self.i += 1; self.generics()
            self.eat("!")
            t = self.type(); tr = None
            if self.eat("for"): tr, t = t, self.type()
            self.where(); self.need("{"); its = self.items("}"); self.need("}")
            return ("impl", t, tr, its)
        if v == "trait":
            self.i += 1; n = self.ident(); self.gen_opt()
            if self.eat(":"): self.bounds()
            self.where(); self.need("{"); its = self.items("}"); self.need("}")
            return ("trait", n, its)
        return self.fn(at)
    def vis(self):
        if self.eat("pub"):
            if self.at("("): self.skip("(", ")")
    def gen_opt(self):
        if self.at("<"): self.i += 1; return self.generics()
        return []
    def where(self):
        if self.eat("where"):
            while not self.at("{", ";", "requires", "ensures", "recommends", "decreases", "eof"):
                self.type()
                if self.eat(":"): self.bounds()
                if not self.eat(","): break
    def fields(self):
        self.need("{"); fs = []
        while not self.at("}"):
            self.attrs(); self.vis(); self.eat("ghost"); self.eat("tracked")
            n = self.ident(); self.need(":"); fs.append((n, self.type()))
            if not self.eat(","): break
        self.need("}")
        return fs
    def use(self):
        self.i += 1; out = []
        def tree(pre):
            self.eat("::")
            while True:
                if self.eat("*"): out.append(("use", pre, "*", "*")); return
                if self.eat("{"):
                    while not self.at("}"):
                        tree(pre)
                        if not self.eat(","): break
                    self.need("}"); return
                n = self.ident()
                if self.eat("::"): pre = pre + [n]; continue
                al = n
                if self.eat("as"): al = self.ident()
                out.append(("use", pre, n, al)); return
        tree([]); self.need(";")
        return out
    def fn(self, at):
        mode, kw = None, set()
        start = self.i
        while True:
            v = self.pk()
            if v in ("open", "closed", "broadcast", "uninterp", "const", "unsafe", "axiom", "tracked", "async"):
                if v == "axiom": mode = "proof"
                kw.add(v); self.i += 1
                if v in ("open", "closed") and self.at("("): self.skip("(", ")")
            elif v in MODES:
                mode = v; self.i += 1
                if self.at("("): self.skip("(", ")")
            elif v == "default": self.i += 1
            else: break
        if not self.at("fn"):
            if "const" in kw or "spec" == mode or self.at("static"):
                self.eat("static"); n = self.ident(); self.need(":"); self.type()
                e = self.expr() if self.eat("=") else None
                self.need(";"); return ("const", n, e)
            self.err("unknown item")
        self.i += 1
        n = self.ident(); g = self.gen_opt(); self.need("("); ps = []; line = self.t[self.i][2]
        while not self.at(")"):
            self.attrs(); self.eat("tracked"); self.eat("ghost")
            if self.at("&", "&&") or self.at("self", "mut"):
                self.eat("&&") or self.eat("&")
                if self.kind() == "life": self.i += 1
                self.eat("mut")
                if self.eat("self"):
                    if self.eat(":"): self.type()
                    ps.append((("bind", "self"), None))
                    if not self.eat(","): break
                    continue
            self.eat("mut"); p = self.pat1(); self.need(":"); ps.append((p, self.type()))
            if not self.eat(","): break
        self.need(")")
        ret = None
        if self.eat("->"):
            self.eat("tracked")
            if self.at("(") and self.kind(1) == "id" and self.pk(2) == ":" or (self.at("(") and self.pk(1) in ("tracked", "ghost")):
                self.i += 1; self.eat("tracked"); self.eat("ghost"); rn = self.pat1(); self.need(":"); ret = (rn, self.type()); self.need(")")
            else: ret = (None, self.type())
        self.where()
        cl = {}
        while True:
            v = self.pk()
            if v in ("requires", "ensures", "recommends", "returns", "no_unwind", "opens_invariants", "default_ensures"):
                self.i += 1; es = []
                if v in ("opens_invariants",): self.ident(); continue
                while not self.at("{", ";", "ensures", "requires", "recommends", "decreases", "via", "when", "returns"):
                    es.append(self.expr(True) if not self.at("{") else self.block())
                    if not self.eat(","): break
                cl.setdefault(v, []).extend(es)
            elif v == "decreases":
                self.i += 1
                while not self.at("{", ";", "when", "via"):
                    self.expr(True)
                    if not self.eat(","): break
                if self.eat("when"): cl["when"] = [self.expr(True)]
                if self.eat("via"): self.expr(True)
                self.eat(",")
            elif v == "via": self.i += 1; self.expr(True)
            elif v == "when": self.i += 1; cl["when"] = [self.expr(True)]
            else: break
        body = None
        if self.at("{"):
            j = self.i
            if mode in ("spec", "proof"):
                try: body = self.block()
                except PErr as e: body = ("bad", str(e)); self.i = j; self.skip("{", "}")
            else: self.skip("{", "}")
        else: self.need(";")
        return ("fn", n, mode or "exec", ps, ret, cl, body, at, line)
    def sm(self):
        self.i += 2; o = self.pk(); c = {"(": ")", "{": "}"}[o]; self.i += 1
        n = self.ident(); self.gen_opt(); self.where(); self.need("{")
        its, fs, trs = [], [], []
        while not self.at("}"):
            at = self.attrs()
            if self.eat("fields"): 
                self.need("{")
                while not self.at("}"):
                    self.attrs(); self.vis(); fn = self.ident(); self.need(":"); fs.append((fn, self.type()))
                    if not self.eat(","): break
                self.need("}"); continue
            if self.pk() in ("transition", "init", "readonly", "property") and self.pk(1) == "!":
                k = self.ident(); self.need("!"); self.need("{"); tn = self.ident(); self.need("("); ps = []
                while not self.at(")"):
                    pn = self.ident(); self.need(":"); ps.append((pn, self.type()))
                    if not self.eat(","): break
                self.need(")"); b = self.tblock(); self.need("}"); trs.append((k, tn, ps, b)); continue
            it = self.item()
            if isinstance(it, list): its += it
            elif it: its.append(it)
        self.need("}"); self.need(c); self.eat(";")
        return ("sm", n, fs, trs, its)
    def tblock(self):
        self.need("{"); ss = []
        while not self.at("}"):
            self.attrs()
            if self.eat(";"): continue
            v = self.pk()
            if v in ("require", "assert") and self.pk(1) == "let":
                self.i += 2; p = self.pat(); self.need("="); ss.append(("rlet", p, self.expr())); self.need(";")
            elif v == "require": self.i += 1; ss.append(("require", self.expr())); self.need(";")
            elif v == "assert":
                self.i += 1; e = self.expr()
                if self.eat("by"): self.skip("{", "}")
                ss.append(("tassert", e)); self.eat(";")
            elif v in ("update", "init"):
                self.i += 1; f = self.ident(); path = []
                while self.at("[", "."):
                    if self.eat("["): path.append(("i", self.expr())); self.need("]")
                    else: self.i += 1; path.append(("f", self.ident()))
                self.need("="); ss.append(("update", f, path, self.expr())); self.need(";")
            elif v == "let" or v == "birds_eye":
                self.eat("birds_eye"); self.need("let"); p = self.pat()
                if self.eat(":"): self.type()
                self.need("="); ss.append(("let", p, self.expr())); self.need(";")
            elif v == "if":
                ss.append(self.tif())
            elif v == "match":
                self.i += 1; s = self.expr(True); self.need("{"); arms = []
                while not self.at("}"):
                    p = self.pat(); self.need("=>"); arms.append((p, self.tblock())); self.eat(",")
                self.need("}"); ss.append(("tmatch", s, arms))
            else: self.err("unknown transition statement")
        self.need("}")
        return ss
    def tif(self):
        self.need("if"); c = self.expr(True); t = self.tblock(); e = []
        if self.eat("else"): e = [self.tif()] if self.at("if") else self.tblock()
        return ("tif", c, t, e)
def num(v):
    v = v.replace("_", "")
    if v.startswith("0x"): return int(re.match(r"0x[0-9a-fA-F]+", v).group(), 16)
    return int(re.match(r"\d+", v).group())
def parse_file(path): return P(open(path).read(), path.split("/")[-1]).items()
if __name__ == "__main__":
    import sys
    for f in sys.argv[1:]:
        try: its = parse_file(f); print("ok", f.split("/")[-1], len(its), [i[1] for i in its if i[0] == "fn" and i[6] and i[6][0] == "bad"][:3])
        except PErr as e: print("ERR", e)
