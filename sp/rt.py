"""Run-time values of the translated specifications."""
import sys
sys.setrecursionlimit(12000)
class Unjudged(Exception): "the specification leaves this value open, or it cannot be computed here"
class Disabled(Exception): "a transition's requirement is false"
class Broken(Exception): "an assertion of a transition is false"
BAD = (AttributeError, TypeError)
ints = list(range(-1, 12))
class Universe:
    by = {}          # type name -> list of values
    wit = {}         # predicate name -> function(receiver, args, position) -> candidates
    over = {}        # function -> replacement
U = Universe
def universe(t):
    if t in U.by:
        v = U.by[t]; return v() if callable(v) else v
    if t in ("int", "nat", "u64", "usize", "u32", "u8"):
        return [x for x in (U.by["#ints"]() if "#ints" in U.by else ints) if t == "int" or x >= 0]
    if t == "bool": return [False, True]
    if t is None:
        out = []
        for k in ("#mixed",): out += universe(k) if k in U.by else []
        return out + universe("int")
    raise Unjudged("no values of type %s" % t)
# ---- generic values
class V:
    __slots__ = ("_h",)
    def __eq__(a, b): return a is b or (a.__class__ is b.__class__ and all(getattr(a, f) == getattr(b, f) for f in a._fields))
    def __ne__(a, b): return not a == b
    def __hash__(a):
        try: return a._h
        except AttributeError: a._h = h = hash((a.__class__.__name__,) + tuple(getattr(a, f) for f in a._fields)); return h
    def __repr__(a):
        n = a._v if a._v else a.__class__.__name__.split("__")[-1]
        return n + ("{" + ", ".join("%s: %r" % (f.lstrip("_") if not f[1:].isdigit() else f[1:], getattr(a, f)) for f in a._fields) + "}" if a._fields else "")
    def __getitem__(a, i):
        for c in a.__class__.__mro__:
            f = c.__dict__.get("m_spec_index")
            if f: return f(a, i)
        raise TypeError("index")
    _v = None
def mk_init(fields):
    if not fields: 
        def init(self): pass
        return init
    src = "def init(self, %s):\n" % ", ".join(fields) + "".join(" self.%s = %s\n" % (f, f) for f in fields)
    d = {}; exec(src, d); return d["init"]
def upd(base, **kw):
    f = {n: getattr(base, n) for n in base._fields}; f.update(kw); return base.__class__(**f)
def arrow(x, f):
    if f.isdigit(): f = "_" + f
    if f in x._fields: return getattr(x, f)
    raise Unjudged("->%s of %s" % (f, x._v))
def is_(x, v):
    if isinstance(x, V): return x._v == v
    raise TypeError("is")
def dyn(x, name, args):
    """generated accessors of enums: is_X, get_X_f, arrow_X_f, arrow_0"""
    if name.startswith("is_"):
        v = name[3:]
        if any(v == k for k in x._variants): return x._v == v
        for k in x._variants:
            if k.lower() == v.lower() : return x._v == k
    for pre in ("get_", "arrow_"):
        if name.startswith(pre):
            r = name[len(pre):]
            if r.isdigit(): return arrow(x, r)
            if r in getattr(x, "_fields", ()): return getattr(x, r)
            for k in x._variants:
                if r.startswith(k + "_"):
                    if x._v != k: raise Unjudged("%s of %s" % (name, x._v))
                    return arrow(x, r[len(k) + 1:])
    raise AttributeError(name)
def call(x, name, *args):
    """method call on a value whose class lacks the method"""
    if isinstance(x, bool): pass
    if name == "view": return x
    if name in ("clone", "unwrap_ghost", "deref"): return x
    if isinstance(x, int):
        if name == "abs": return abs(x)
    if hasattr(x, "_variants"): return dyn(x, name, args)
    raise AttributeError("%s.%s" % (type(x).__name__, name))
def fld(x, f):
    if isinstance(x, tuple) and f[1:].isdigit() and not isinstance(x, Seq): return x[int(f[1:])]
    return getattr(x, f)
class Option(V):
    __slots__ = (); _variants = ("None", "Some")
    def m_is_some(s): return s._v == "Some"
    def m_is_none(s): return s._v == "None"
    def m_unwrap(s):
        if s._v == "None": raise Unjudged("unwrap of None")
        return s._0
class Some_(Option):
    __slots__ = ("_0",); _fields = ("_0",); _v = "Some"
    def __init__(s, x): s._0 = x
class None__(Option):
    __slots__ = (); _fields = (); _v = "None"
Some, NONE = Some_, None__()
def rust_none(): return NONE
class Seq(tuple):
    __slots__ = ()
    def __eq__(a, b): return isinstance(b, Seq) and tuple.__eq__(a, b)
    def __ne__(a, b): return not a == b
    __hash__ = tuple.__hash__
    def __repr__(s): return "[" + ", ".join(map(repr, s)) + "]"
    def __getitem__(s, i):
        if isinstance(i, int) and 0 <= i < len(s): return tuple.__getitem__(s, i)
        if not isinstance(i, int): raise TypeError("index")
        raise Unjudged("index %s of a sequence of %d" % (i, len(s)))
    def __add__(s, o): return Seq(tuple.__add__(s, o))
    def __lt__(s, o): raise TypeError("<")
    __gt__ = __le__ = __ge__ = __lt__
    def m_len(s): return len(s)
    def m_view(s): return s
    m_ext_equal = lambda s, o: s == o
    def m_index(s, i): return s[i]
    m_spec_index = m_index
    def m_push(s, x): return Seq(tuple(s) + (x,))
    def m_update(s, i, x):
        if not 0 <= i < len(s): return s
        t = list(s); t[i] = x; return Seq(t)
    def m_insert(s, i, x):
        if not 0 <= i <= len(s): raise Unjudged("insert")
        t = list(s); t.insert(i, x); return Seq(t)
    def m_remove(s, i):
        if not 0 <= i < len(s): raise Unjudged("remove")
        t = list(s); del t[i]; return Seq(t)
    def m_subrange(s, a, b):
        if not 0 <= a <= b <= len(s): raise Unjudged("subrange")
        return Seq(tuple(s)[a:b])
    def m_take(s, n): return s.m_subrange(0, n)
    def m_skip(s, n): return s.m_subrange(n, len(s))
    def m_drop_last(s): return s.m_subrange(0, len(s) - 1)
    def m_drop_first(s): return s.m_subrange(1, len(s))
    def m_first(s): return s[0]
    def m_last(s): return s[len(s) - 1]
    def m_add(s, o): return s + o
    def m_contains(s, x): return tuple.__contains__(s, x)
    def m_index_of(s, x):
        for i, y in enumerate(s):
            if y == x: return i
        raise Unjudged("index_of")
    m_index_of_first = lambda s, x: Some(s.m_index_of(x)) if s.m_contains(x) else NONE
    def m_map(s, f): return Seq(f(i, x) for i, x in enumerate(s))
    def m_map_values(s, f): return Seq(f(x) for x in s)
    def m_filter(s, f): return Seq(x for x in s if f(x))
    def m_to_set(s): return Set(tuple(s))
    def m_to_multiset(s):
        d = {}
        for x in s: d[x] = d.get(x, 0) + 1
        return Multiset(d)
    def m_no_duplicates(s): return len(set(s)) == len(s)
    def m_fold_left(s, b, f):
        for x in s: b = f(b, x)
        return b
    m_fold_left_alt = m_fold_left
    def m_zip_with(a, b): return Seq(zip(a, b))
    def m_fold_right(s, f, b):
        for x in reversed(s): b = f(x, b)
        return b
    m_fold_right_alt = m_fold_right
    def m_reverse(s): return Seq(reversed(s))
    def m_is_prefix_of(s, o): return len(s) <= len(o) and tuple(o)[:len(s)] == tuple(s)
    def m_unzip(s): return (Seq(x[0] for x in s), Seq(x[1] for x in s))
    m_to_vec = m_view
    @staticmethod
    def m_empty(): return Seq()
    @staticmethod
    def m_new(n, f): return Seq(f(i) for i in range(n))
class Set(V):
    """a set; with `pred` membership is decided by the predicate and the enumeration is of the candidates only"""
    __slots__ = ("s", "pred"); _fields = ("s",); _variants = ()
    def __init__(self, it=(), pred=None): self.s = frozenset(it); self.pred = pred
    def __repr__(s): return "{" + ", ".join(sorted(map(repr, s.s))) + ("..." if s.pred else "") + "}"
    def __eq__(a, b): return isinstance(b, Set) and a.s == b.s
    def __hash__(a): return hash(a.s)
    def __le__(a, b):
        if not isinstance(b, Set): raise TypeError("<=")
        return all(b.m_contains(x) for x in a.s)
    def __ge__(a, b): return b <= a
    def __lt__(a, b): return a <= b and a != b
    def m_contains(s, x): return s.pred(x) if s.pred else x in s.s
    m_has = m_contains
    def _mk(a, b, it, p): return Set(it, p if a.pred or b.pred else None)
    def __add__(a, b): return a._mk(b, a.s | b.s, lambda x: a.m_contains(x) or b.m_contains(x))
    def __mul__(a, b): return a._mk(b, [x for x in a.s | b.s if a.m_contains(x) and b.m_contains(x)], lambda x: a.m_contains(x) and b.m_contains(x))
    def __sub__(a, b): return a._mk(b, [x for x in a.s if not b.m_contains(x)], lambda x: a.m_contains(x) and not b.m_contains(x))
    m_union = m_add = __add__; m_intersect = __mul__; m_difference = m_sub = __sub__
    m_subset_of = __le__
    def m_superset_of(a, b): return b <= a
    def m_insert(a, x): return a + Set((x,))
    def m_remove(a, x): return a - Set((x,))
    def m_disjoint(a, b): return not any(b.m_contains(x) for x in a.s) and not any(a.m_contains(x) for x in b.s)
    def m_len(s): return len(s.s)
    def m_finite(s): return True
    def m_is_empty(s): return not s.s
    def m_choose(s):
        if not s.s: raise Unjudged("choose")
        return min(s.s, key=repr)
    def m_map(s, f): return Set(f(x) for x in s.s)
    def m_filter(s, f): return Set((x for x in s.s if f(x)), (lambda x: s.m_contains(x) and f(x)) if s.pred else None)
    def m_is_singleton(s): return len(s.s) == 1
    def m_to_seq(s): return Seq(sorted(s.s, key=repr))
    def m_mk_map(s, f): return Map({x: f(x) for x in s.s})
    def m_fold(s, b, f):
        for x in sorted(s.s, key=repr): b = f(b, x)
        return b
    def m_any(s, f): return any(f(x) for x in s.s)
    def m_all(s, f): return all(f(x) for x in s.s)
    def m_view(s): return s
    m_congruent = m_ext_equal = lambda s, o: s == o
    @staticmethod
    def m_empty(): return Set()
    @staticmethod
    def m_full(): raise Unjudged("full set")
class Map(V):
    __slots__ = ("d",); _fields = ("d",); _variants = ()
    def __init__(self, d=()): self.d = dict(d)
    def __repr__(s): return "{" + ", ".join("%r => %r" % i for i in sorted(s.d.items(), key=repr)) + "}"
    def __eq__(a, b): return isinstance(b, Map) and a.d == b.d
    def __hash__(a):
        try: return a._h
        except AttributeError: a._h = hash(frozenset(a.d.items())); return a._h
    def __getitem__(s, k):
        if k in s.d: return s.d[k]
        raise Unjudged("no entry %r" % (k,))
    m_index = m_spec_index = __getitem__
    def __le__(a, b):
        if not isinstance(b, Map): raise TypeError("<=")
        return all(k in b.d and b.d[k] == v for k, v in a.d.items())
    m_submap_of = __le__
    def __ge__(a, b): return b <= a
    def m_dom(s): return Set(s.d)
    def m_contains_key(s, k): return k in s.d
    def m_contains_value(s, v): return v in s.d.values()
    def m_contains_pair(s, k, v): return k in s.d and s.d[k] == v
    def m_values(s): return Set(s.d.values())
    def m_insert(s, k, v): d = dict(s.d); d[k] = v; return Map(d)
    def m_remove(s, k): d = dict(s.d); d.pop(k, None); return Map(d)
    def m_remove_keys(s, ks): return Map({k: v for k, v in s.d.items() if not ks.m_contains(k)})
    def m_restrict(s, ks): return Map({k: v for k, v in s.d.items() if ks.m_contains(k)})
    def m_union_prefer_right(a, b): d = dict(a.d); d.update(b.d); return Map(d)
    def m_union_prefer_left(a, b): d = dict(b.d); d.update(a.d); return Map(d)
    def m_agrees(a, b): return all(b.d[k] == v for k, v in a.d.items() if k in b.d)
    def m_len(s): return len(s.d)
    def m_is_empty(s): return not s.d
    def m_get(s, k): return Some(s.d[k]) if k in s.d else NONE
    def m_map_values(s, f): return Map({k: f(v) for k, v in s.d.items()})
    def m_map_entries(s, f): return Map({k: f(k, v) for k, v in s.d.items()})
    def m_map_keys(s, f): return Map({f(k): v for k, v in s.d.items()})
    def m_kv_pairs(s): return Set(s.d.items())
    def m_is_injective(s): return len(set(s.d.values())) == len(s.d)
    def m_invert(s): return Map({v: k for k, v in s.d.items()})
    def m_finite(s): return True
    def m_view(s): return s
    m_congruent = m_ext_equal = lambda s, o: s == o
    @staticmethod
    def m_empty(): return Map()
class Multiset(V):
    __slots__ = ("d",); _fields = ("d",); _variants = ()
    def __init__(self, d=()): self.d = {k: n for k, n in dict(d).items() if n > 0}
    def __repr__(s): return "{" + ", ".join("%rx%d" % i for i in sorted(s.d.items(), key=repr)) + "}"
    def __eq__(a, b): return isinstance(b, Multiset) and a.d == b.d
    def __hash__(a): return hash(frozenset(a.d.items()))
    def m_count(s, x): return s.d.get(x, 0)
    __getitem__ = m_count
    def m_contains(s, x): return x in s.d
    def m_add(a, b):
        if not isinstance(b, Multiset): raise TypeError("add")
        d = dict(a.d)
        for k, n in b.d.items(): d[k] = d.get(k, 0) + n
        return Multiset(d)
    __add__ = m_add
    def m_sub(a, b):
        if not isinstance(b, Multiset): raise TypeError("sub")
        return Multiset({k: n - b.d.get(k, 0) for k, n in a.d.items()})
    __sub__ = m_sub
    def m_insert(s, x): return s.m_add(Multiset({x: 1}))
    def m_remove(s, x): return s.m_sub(Multiset({x: 1}))
    def m_dom(s): return Set(s.d)
    def m_len(s): return sum(s.d.values())
    def m_subset_of(a, b): return all(n <= b.d.get(k, 0) for k, n in a.d.items())
    __le__ = m_le = m_subset_of
    def m_is_disjoint_from(a, b): return not set(a.d) & set(b.d)
    def m_intersection_with(a, b): return Multiset({k: min(n, b.d.get(k, 0)) for k, n in a.d.items()})
    def m_filter(s, f): return Multiset({k: n for k, n in s.d.items() if f(k)})
    def m_to_set(s): return Set(s.d)
    def m_finite(s): return True
    def m_is_empty(s): return not s.d
    m_ext_equal = lambda s, o: s == o
    def m_choose(s):
        if not s.d: raise Unjudged("choose")
        return min(s.d, key=repr)
    @staticmethod
    def m_empty(): return Multiset()
    @staticmethod
    def m_singleton(x): return Multiset({x: 1})
    @staticmethod
    def m_from_map(m): return Multiset(m.d)
# ---- quantifiers: binds = [(type, [guards]...)]; each guard is a thunk over the earlier binders giving candidates or None
def members(x):
    """values v for which x.contains(v) / x.contains_key(v) can hold"""
    if isinstance(x, Set): return None if x.pred else x.s
    if isinstance(x, (Map, Multiset)): return x.d
    if isinstance(x, Seq): return set(x)
    return None
def indices(x):
    if isinstance(x, Seq): return range(len(x))
    return None
def some(x): return members(x) or ()
def cands(spec, env):
    t, hard, soft = spec
    for g in hard:
        try: c = g(*env)
        except (Unjudged,) + BAD: continue
        if c is not None: return c
    out = None
    for g in soft:
        try: c = g(*env)
        except (Unjudged,) + BAD: continue
        if c: out = (out or set()) | set(c)
    try: u = universe(t)
    except Unjudged:
        if out is None: raise
        u = []
    if out:
        seen = set(u) if len(u) < 4000 else set()
        return list(u) + [x for x in out if x not in seen]
    return u
def assigns(specs, env=()):
    if len(env) == len(specs): yield env; return
    for x in cands(specs[len(env)], env): yield from assigns(specs, env + (x,))
LIMIT = 400000
def forall(f, specs):
    n = 0; bad = False; tried = False; typ = False
    for env in assigns(specs):
        n += 1
        if n > LIMIT: raise Unjudged("quantifier too wide")
        try:
            if not f(*env): return False
            tried = True
        except Unjudged: bad = True
        except BAD:
            if all(s[0] is not None for s in specs): raise
            typ = True
    if bad or typ and not tried: raise Unjudged("forall")
    return True
def exists(f, specs):
    n = 0; bad = False; tried = False; typ = False
    for env in assigns(specs):
        n += 1
        if n > LIMIT: raise Unjudged("quantifier too wide")
        try:
            if f(*env): return True
            tried = True
        except Unjudged: bad = True
        except BAD:
            if all(s[0] is not None for s in specs): raise
            typ = True
    if bad or typ and not tried: raise Unjudged("exists")
    return False
def choose(f, specs):
    n = 0
    for env in assigns(specs):
        n += 1
        if n > LIMIT: raise Unjudged("choose too wide")
        try:
            if f(*env): return env[0] if len(env) == 1 else env
        except Unjudged: pass
        except BAD: pass
    raise Unjudged("choose")
def set_new(f, spec):
    out = set()
    for (x,) in assigns([spec]):
        try:
            if f(x): out.add(x)
        except BAD: pass
    return Set(out, None if spec[1] else f)
def map_new(f, g, spec):
    out = {}
    for (x,) in assigns([spec]):
        try: ok = f(x)
        except BAD: continue
        if ok:
            try: out[x] = g(x)
            except Unjudged as e: out[x] = Junk()
    return Map(out)
class Junk:
    """an unspecified value: any use of it is unjudged"""
    def __getattr__(s, n):
        if n.startswith("__"): raise AttributeError(n)
        raise Unjudged("unspecified value")
    def __eq__(a, b):
        if a is b: return True
        raise Unjudged("unspecified value")
    def __hash__(a): return id(a)
def wit(name, recv, args, pos):
    h = U.wit.get(name)
    if not h: return None
    try: return h(recv, args, pos)
    except BAD: return None
def and_(*fs):
    """conjunction: a false conjunct decides even when an earlier one is open"""
    for f in fs:
        if not f(): return False
    return True
def eq(a, b):
    if a.__class__ is bool and b.__class__ is int or a.__class__ is int and b.__class__ is bool: raise TypeError("==")
    return a == b
LAX = [False]       # steps that must be refused: a negative natural is given a value, so that what follows the guards can be looked at
def nat(x):
    if isinstance(x, int) and not isinstance(x, bool) and x < 0:
        if LAX[0]: return 0
        raise Unjudged("negative natural")
    return x
class Arb(Junk):
    """arbitrary(): one value that only equals itself"""
    def __eq__(a, b):
        if a is b: return True
        raise Unjudged("arbitrary")
    def __hash__(a): return id(a)
    def __repr__(a): return "arbitrary()"
    def _op(s, *a): raise Unjudged("arbitrary")
    __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __getitem__ = __bool__ = __call__ = __len__ = __iter__ = _op
ARB = Arb()
def arb(*a): return ARB
def unsupported(m): raise Unjudged("not translated: " + m)
def idx(x, i):
    return x[i]
def div(a, b):
    if b == 0: raise Unjudged("division by zero")
    return a // b if b > 0 else -(a // -b)
def mod(a, b):
    if b == 0: raise Unjudged("division by zero")
    return a % abs(b)
def max_(a, b): return a if a > b else b
def min_(a, b): return a if a < b else b
def require(b):
    if not b: raise Disabled()
def tassert(b):
    if not b: raise Broken()
