// Packed string arrays and key/message packages for the D03 harness.
include "@REPO@/lib/Buckets/PackedKVMarshalling.i.dfy"
module DrvP {
  import opened NativeTypes
  import opened Options
  import opened LinearSequence_s
  import P = PackedStringArray
  import U = Upperbounded_Lexicographic_Byte_Order
  method FromSeq(s: seq<seq<byte>>) returns (p: P.Psa) { p := P.FromSeq(s); }
  method ToSeq(p: P.Psa) returns (s: seq<seq<byte>>) { s := P.ToSeq(p); }
  method Sub(p: P.Psa, a: uint64, b: uint64) returns (q: P.Psa) { q := P.PsaSubSeq(p, a, b); }
  method Prefix(p: P.Psa, a: uint64) returns (q: P.Psa) { q := P.PsaPrefix(p, a); }
  method Suffix(p: P.Psa, a: uint64) returns (q: P.Psa) { q := P.PsaSuffix(p, a); }
  method First(p: P.Psa) returns (k: seq<byte>) { k := P.FirstElement(p); }
  method Last(p: P.Psa) returns (k: seq<byte>) { k := P.LastElement(p); }
  method At(p: P.Psa, i: uint64) returns (k: seq<byte>) { k := P.psaElement(p, i); }
  method Num(p: P.Psa) returns (n: uint64) { n := P.psaNumStrings(p); }
  method Total(p: P.Psa) returns (n: uint64) { n := P.psaTotalLength(p); }
  method Size(p: P.Psa) returns (n: uint64) { n := P.SizeOfPsaUint64(p); }
  method SeqTotal(s: seq<seq<byte>>) returns (n: uint64) { n := P.psaSeqTotalLength(s); }
  method CanAppend(p: P.Psa, k: seq<byte>) returns (b: bool) { b := P.PsaCanAppend(p, k); }
  method Lte(p: P.Psa, k: seq<byte>) returns (i: int64) { i := P.LargestLte(p, k); }
  method Gte(p: P.Psa, k: seq<byte>) returns (i: uint64) { i := P.BinarySearchIndexOfFirstKeyGte(p, k); }
  method GteFrom(p: P.Psa, k: seq<byte>, l: uint64) returns (i: uint64) { i := P.BinarySearchIndexOfFirstKeyGteWithLowerBound(p, k, l); }
  method Gt(p: P.Psa, k: seq<byte>) returns (i: uint64) { i := P.BinarySearchIndexOfFirstKeyGt(p, k); }
  method GtePivot(p: P.Psa, top: bool, k: seq<byte>) returns (i: uint64) { i := P.BinarySearchIndexOfFirstKeyGtePivot(p, if top then U.Max_Element else U.Element(k)); }
  method New(n: uint32, l: uint32) returns (d: P.DynamicPsa) { d := new P.DynamicPsa.PreSized(n, l); }
  method NewFrom(s: seq<seq<byte>>) returns (d: P.DynamicPsa) { d := new P.DynamicPsa.FromSeq(s); }
  method Append(d: P.DynamicPsa, k: seq<byte>) { d.Append(k); }
  method Fits(d: P.DynamicPsa, k: seq<byte>) returns (b: bool) { b := d.CanAppendWORealloc(k); }
  method AppendFit(d: P.DynamicPsa, k: seq<byte>) { d.append(k); }
  method AppendAll(d: P.DynamicPsa, s: seq<seq<byte>>) {
    linear var l := seq_alloc<seq<byte>>(|s| as uint64, []);
    var i: uint64 := 0;
    while i < |s| as uint64 { l := seq_set(l, i, s[i]); i := i + 1; }
    d.AppendSeq(l);
    var _ := seq_free(l);
  }
  method Cut(d: P.DynamicPsa, n: uint64) { d.Prefix(n); }
  method DTotal(d: P.DynamicPsa) returns (n: uint64) { n := d.TotalLength(); }
  method DWeight(d: P.DynamicPsa) returns (n: uint64) { n := d.weight(); }
  method DTo(d: P.DynamicPsa) returns (p: P.Psa) { p := d.toPsa(); }
}
module DrvK {
  import opened NativeTypes
  import opened Options
  import K = PackedKV
  import D = DynamicPkv
  import M = PackedKVMarshalling
  import G = GenericMarshalling
  import V = ValueMessage
  method New(n: uint32, kl: uint32, ml: uint32) returns (d: D.DynamicPkv) { d := new D.DynamicPkv.PreSized(D.Capacity(n, kl, ml)); }
  method Append(d: D.DynamicPkv, k: seq<byte>, v: seq<byte>) { d.Append(k, V.Define(v)); }
  method AppendRaw(d: D.DynamicPkv, k: seq<byte>, v: seq<byte>) { d.AppendEncodedMessage(k, v); }
  method AppendPkv(d: D.DynamicPkv, p: K.Pkv, a: uint64, b: uint64) { d.AppendPkv(p, a, b); }
  method To(d: D.DynamicPkv) returns (p: K.Pkv) { p := d.toPkv(); }
  method DWeight(d: D.DynamicPkv) returns (n: uint64) { n := d.weight(); }
  method Empty() returns (p: K.Pkv) { p := K.EmptyPkv(); }
  method Num(p: K.Pkv) returns (n: uint64) { n := K.NumKVPairs(p); }
  method Key(p: K.Pkv, i: uint64) returns (k: seq<byte>) { k := K.GetKey(p, i); }
  method Msg(p: K.Pkv, i: uint64) returns (some: bool, v: seq<byte>) { var m := K.GetMessage(p, i); if m.Define? { some := true; v := m.value; } else { some := false; v := []; } }
  method Query(p: K.Pkv, k: seq<byte>) returns (some: bool, v: seq<byte>) { var o := K.BinarySearchQuery(p, k); if o.Some? && o.value.Define? { some := true; v := o.value.value; } else { some := false; v := []; } }
  method First(p: K.Pkv) returns (k: seq<byte>) { k := K.FirstKey(p); }
  method Last(p: K.Pkv) returns (k: seq<byte>) { k := K.LastKey(p); }
  method Sub(p: K.Pkv, a: uint64, b: uint64) returns (q: K.Pkv) { q := K.SubPkv(p, a, b); }
  method Left(p: K.Pkv, k: seq<byte>) returns (q: K.Pkv) { q := K.SplitLeft(p, k); }
  method Right(p: K.Pkv, k: seq<byte>) returns (q: K.Pkv) { q := K.SplitRight(p, k); }
  method Sorted(p: K.Pkv) returns (b: bool) { b := K.ComputeIsSorted(p); }
  method Lens(p: K.Pkv, n: uint64) returns (b: bool) { b := K.ComputeValidStringLens(p.keys, n); }
  method Size(p: K.Pkv) returns (n: uint64) { n := K.SizeOfPkvUint64(p); }
  method Weight(p: K.Pkv) returns (n: uint64) { n := K.WeightPkv(p); }
  method Pack(p: K.Pkv) returns (b: seq<byte>) { var v := M.ToVal(p); var a := G.Marshall(v, M.grammar()); b := a[..]; }
  method PackSize(p: K.Pkv) returns (n: uint64) { var v := M.ToVal(p); n := G.ComputeSizeOf(v); }
  method Unpack(b: seq<byte>) returns (some: bool, p: K.Pkv) {
    p := K.EmptyPkv(); some := false;
    var ok, v := G.Demarshall(b, M.grammar());
    if ok { var o := M.FromVal(v); if o.Some? { some := true; p := o.value; } }
  }
}
