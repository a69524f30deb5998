"""The journal machines: LinkedJournal, LikesJournal and AllocationJournal with their refinements to PagedJournal and AbstractJournal."""
import mon, rt
from mon import judge
from rt import Seq, Set, Map, Some, NONE
ADDR = "spec__AsyncDisk_t__Address"
class Abs:
    """what a journal holds: the messages from `start` up to `end`"""
    def __init__(s, start, end, msgs): s.start, s.end, s.msgs = start, end, msgs
    def __eq__(a, b): return (a.start, a.end, a.msgs) == (b.start, b.end, b.msgs)
    def __repr__(s): return "[%s,%s) %s" % (s.start, s.end, {k: v.key._0 * 100 + v.message._0_ if hasattr(v.message, "_0_") else "%r" % (v,) for k, v in sorted(s.msgs.items())})
class Bad(Exception): pass
def hist(h):
    if h.seq_start > h.seq_end or set(h.msgs.d) != set(range(h.seq_start, h.seq_end)): raise Bad("history %r is not contiguous" % (h,))
    return Abs(h.seq_start, h.seq_end, dict(h.msgs.d))
def walk(tj):
    """the messages of a truncated journal, read by following the records from the freshest one"""
    b, ents = tj.disk_view.boundary_lsn, tj.disk_view.entries.d
    p, msgs, end, low, n = tj.freshest_rec, {}, None, None, 0
    while p._v == "Some":
        a = p._0; n += 1
        if a not in ents: raise Bad("record %r is missing" % (a,))
        if n > len(ents): raise Bad("the records form a cycle")
        h = hist(ents[a].message_seq)
        if h.start == h.end: raise Bad("empty record %r" % (a,))
        if end is None: end = low = h.end
        if h.end != low: raise Bad("gap below lsn %s" % low)
        for l, m in h.msgs.items():
            if l >= b: msgs[l] = m
        low = h.start
        if low <= b: break
        p = ents[a].prior_rec
    if end is None: return Abs(b, b, {})
    if low > b: raise Bad("the messages from %s to %s cannot be reached" % (b, low))
    if end <= b: raise Bad("freshest record ends at %s, below the boundary %s" % (end, b))
    return Abs(b, end, msgs)
def absj(st):
    """LinkedJournal state"""
    a = walk(st.truncated_journal); t = hist(st.unmarshalled_tail)
    if t.start != a.end: raise Bad("tail starts at %s, the records end at %s" % (t.start, a.end))
    m = dict(a.msgs); m.update({l: x for l, x in t.msgs.items() if l >= a.start})
    return Abs(a.start, max(t.end, a.start), m)
def cut(a, lo, hi): return Abs(lo, hi, {l: m for l, m in a.msgs.items() if lo <= l < hi})
def expect(kind, arg, pre, post):
    """the abstract journal's rules, restated: what a step of this kind may do. Returns a complaint or None"""
    if kind == "put":
        h = hist(arg)
        if h.start != pre.end: return "messages from %s put on a journal that ends at %s" % (h.start, pre.end)
        want = Abs(pre.start, h.end, {**pre.msgs, **h.msgs})
        return None if post == want else "after the put it holds %r, not %r" % (post, want)
    if kind == "discard":
        to, end = arg
        if end != pre.end: return "discarded for the end %s, the journal ends at %s" % (end, pre.end)
        if not pre.start <= to <= pre.end: return "discarded up to %s from %r" % (to, pre)
        want = cut(pre, to, pre.end)
        return None if post == want else "after discarding up to %s it holds %r, not %r" % (to, post, want)
    if post != pre: return "the step changed the journal from %r to %r" % (pre, post)
    if kind == "end": return None if arg == pre.end else "reported the end %s, the journal ends at %s" % (arg, pre.end)
    if kind in ("freeze", "read"):
        if not pre.start <= arg.start <= arg.end <= pre.end: return "%s [%s,%s) of a journal [%s,%s)" % (kind, arg.start, arg.end, pre.start, pre.end)
        return None if arg == cut(pre, arg.start, arg.end) else "%s gave %r from %r" % (kind, arg, pre)
class Env:
    def __init__(s, run, pages=3, aus=12):
        s.r, s.rng = run, run.rng
        s.pages, s.aus = pages, aus
        g = run.w.G
        s.Addr = g[ADDR]; s.KM = g["abstract_system__MsgHistory_v__KeyedMessage"]; s.MH = g["abstract_system__MsgHistory_v__MsgHistory"]
        s.Key = g["spec__KeyType_t__Key"]; s.Def = g["spec__Messages_t__Message__Define"]; s.Val = g["spec__Messages_t__Value"]; s.Upd = g["spec__Messages_t__Message__Update"]; s.Delta = g["spec__Messages_t__Delta"]
        g["spec__AsyncDisk_t__page_count"] = lambda: s.pages
        g["spec__AsyncDisk_t__au_count"] = lambda: s.aus
        s.addrs = [s.Addr(au=a, page=p) for a in range(aus) for p in range(pages)]
        rt.U.by[ADDR] = s.addrs
        rt.U.by["#ints"] = lambda: s.window
        s.window = list(range(-1, 14)); s.n = 0
    def msg(s):
        s.n += 1
        return s.KM(key=s.Key(s.rng.randrange(4)), message=s.Def(value=s.Val(s.n)) if s.rng.random() < .8 else s.Upd(delta=s.Delta(s.n)))
    def msgs(s, at, n): return s.MH(msgs=Map({at + i: s.msg() for i in range(n)}), seq_start=at, seq_end=at + n)
    def mh(s, a): return s.MH(msgs=Map(a.msgs), seq_start=a.start, seq_end=a.end)
