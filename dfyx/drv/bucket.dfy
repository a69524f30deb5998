// Message buffers for the D04 harness.
include "@REPO@/lib/Buckets/BucketImpl.i.dfy"
module DrvB {
  import opened NativeTypes
  import opened LinearSequence_s
  import opened LinearSequence_i
  import opened Options
  import I = BucketImpl
  import K = PackedKV
  import D = DynamicPkv
  import V = ValueMessage
  import T = BoundedPivotsLib
  import Bounds
  import W = BucketWeights
  method Alloc() returns (linear b: I.MutBucket) { b := I.MutBucket.Alloc(); }
  method Pkv(keys: seq<seq<byte>>, vals: seq<seq<byte>>) returns (p: K.Pkv) {
    var d := new D.DynamicPkv.PreSized(D.EmptyCapacity());
    var i: uint64 := 0;
    while i < |keys| as uint64 { d.Append(keys[i], V.Define(vals[i])); i := i + 1; }
    p := d.toPkv();
  }
  method AllocPkv(p: K.Pkv, sorted: bool) returns (linear b: I.MutBucket) { b := I.MutBucket.AllocPkv(p, sorted); }
  method Free(linear b: I.MutBucket) { var _ := I.FreeMutBucket(b); }
  method GetPkv(shared b: I.MutBucket) returns (p: K.Pkv) { p := b.GetPkv(); }
  method GetPkvSorted(shared b: I.MutBucket, s: bool) returns (p: K.Pkv) { p := b.GetPkvSorted(s); }
  method Num(p: K.Pkv) returns (n: uint64) { n := K.NumKVPairs(p); }
  method Key(p: K.Pkv, i: uint64) returns (k: seq<byte>) { k := K.GetKey(p, i); }
  method Msg(p: K.Pkv, i: uint64) returns (some: bool, v: seq<byte>) { var m := K.GetMessage(p, i); if m.Define? { some := true; v := m.value; } else { some := false; v := []; } }
  method Marshalled(shared b: I.MutBucket) returns (r: bool) { r := b.WellMarshalled(); }
  method Empty(shared b: I.MutBucket) returns (r: bool) { r := b.Empty(); }
  method IsTree(shared b: I.MutBucket) returns (r: bool) { r := b.format.BFTree?; }
  method Weight(shared b: I.MutBucket) returns (r: uint64) { r := b.weight; }
  method Sorted(shared b: I.MutBucket) returns (r: bool) { r := b.sorted; }
  method First(shared b: I.MutBucket) returns (k: seq<byte>) { k := b.GetFirstKey(); }
  method Middle(shared b: I.MutBucket) returns (k: seq<byte>) { k := b.GetMiddleKey(); }
  method Last(shared b: I.MutBucket) returns (k: seq<byte>) { k := b.GetLastKey(); }
  method Insert(linear inout b: I.MutBucket, k: seq<byte>, v: seq<byte>) { inout b.Insert(k, V.Define(v)); }
  method InsertIdentity(linear inout b: I.MutBucket, k: seq<byte>) { inout b.Insert(k, V.IdentityMessage()); }
  method Query(shared b: I.MutBucket, k: seq<byte>) returns (some: bool, v: seq<byte>) { var o := b.Query(k); if o.Some? && o.value.Define? { some := true; v := o.value.value; } else { some := false; v := []; } }
  method Left(shared b: I.MutBucket, k: seq<byte>) returns (linear c: I.MutBucket) { c := b.SplitLeft(k); }
  method Right(shared b: I.MutBucket, k: seq<byte>) returns (linear c: I.MutBucket) { c := b.SplitRight(k); }
  method Both(shared b: I.MutBucket, k: seq<byte>) returns (linear l: I.MutBucket, linear r: I.MutBucket) { l, r := I.MutBucket.SplitLeftRight(b, k); }
  method Clone(shared b: I.MutBucket) returns (linear c: I.MutBucket) { c := b.Clone(); }
  method NoPrefix(shared b: I.MutBucket, p: seq<byte>) returns (r: bool) { r := b.NoKeyWithPrefix(p); }
  method At(shared b: I.MutBucket, lo: seq<seq<byte>>, top: bool, i: uint64) returns (r: bool) { var pt := Pivots(lo, top); r := b.WFBucketAt(pt, i); }
  // lists
  method Pivots(lo: seq<seq<byte>>, top: bool) returns (pt: T.PivotTable) {
    var a := new T.Element[|lo| as uint64];
    var i: uint64 := 0;
    while i < |lo| as uint64 { a[i] := T.Keyspace.Element(lo[i]); i := i + 1; }
    if top { pt := a[..] + [T.Keyspace.Max_Element]; } else { pt := a[..]; }
  }
  method LNew(n: uint64) returns (linear l: lseq<I.MutBucket>) { l := I.MutBucket.EmptySeq(n); }
  method LPut(linear inout l: lseq<I.MutBucket>, i: uint64, linear b: I.MutBucket) { linear var x := lseq_swap_inout(inout l, i, b); var _ := I.FreeMutBucket(x); }
  method LGet(shared l: lseq<I.MutBucket>, i: uint64) returns (p: K.Pkv, w: uint64, s: bool) { p := lseq_peek(l, i).GetPkv(); w := lseq_peek(l, i).weight; s := lseq_peek(l, i).sorted; }
  method LLen(shared l: lseq<I.MutBucket>) returns (n: uint64) { n := lseq_length_raw(l); }
  method LFree(linear l: lseq<I.MutBucket>) { var _ := I.FreeMutBucketSeq(l); }
  method LSplitOne(linear inout l: lseq<I.MutBucket>, i: uint64, k: seq<byte>) { I.MutBucket.SplitOneInList(inout l, i, k); }
  method LWeight(shared l: lseq<I.MutBucket>) returns (w: uint64) { w := I.MutBucket.computeWeightOfSeq(l); }
  method LTryWeight(shared l: lseq<I.MutBucket>, a: uint64, b: uint64) returns (ok: bool, w: uint64) { ok, w := I.MutBucket.tryComputeWeightOfSeq(l, a, b); }
  method LClone(shared l: lseq<I.MutBucket>, a: uint64, b: uint64) returns (linear m: lseq<I.MutBucket>) { m := I.MutBucket.CloneSeq(l, a, b); }
  method LSplit(linear l: lseq<I.MutBucket>, a: uint64) returns (linear x: lseq<I.MutBucket>, linear y: lseq<I.MutBucket>) { x, y := I.MutBucket.SplitSeq(l, a); }
  method LNoPrefix(shared l: lseq<I.MutBucket>, p: seq<byte>, a: uint64, b: uint64) returns (r: bool) { r := I.MutBucket.SeqNoKeyWithPrefix(l, p, a, b); }
  method LConcat(linear x: lseq<I.MutBucket>, linear b: I.MutBucket, linear y: lseq<I.MutBucket>) returns (linear l: lseq<I.MutBucket>) { l := I.MutBucket.BucketListConcat(x, b, y); }
  method LConcat3(linear x: lseq<I.MutBucket>, linear b: I.MutBucket, linear y: lseq<I.MutBucket>, linear c: I.MutBucket, linear z: lseq<I.MutBucket>) returns (linear l: lseq<I.MutBucket>) { l := I.MutBucket.BucketListConcat3(x, b, y, c, z); }
  method Flush(linear inout l: lseq<I.MutBucket>, shared t: I.MutBucket, lo: seq<seq<byte>>, top: bool) returns (linear u: I.MutBucket) { var pt := Pivots(lo, top); u := I.PartialFlush(inout l, t, pt); }
  method Limit() returns (n: uint64) { n := Bounds.MaxTotalBucketWeightUint64(); }
  method KeyWeight(k: seq<byte>) returns (w: uint64) { w := W.WeightKeyUint64(k); }
  method MsgWeight(v: seq<byte>) returns (w: uint64) { w := W.WeightMessageUint64(V.Define(v)); }
}
