// Concrete instances of the repository's hash maps, for the D01 harness.
include "@REPO@/lib/DataStructures/LinearMutableMap.i.dfy"
include "@REPO@/lib/DataStructures/LinearContentMutableMap.i.dfy"
include "@REPO@/lib/DataStructures/MutableMapImpl.i.dfy"
include "@REPO@/lib/Base/LinearOption.i.dfy"
module DrvL {
  import opened NativeTypes
  import opened Options
  import M = LinearMutableMap
  import B = LinearMutableMapBase
  method New(size: uint64) returns (linear m: M.LinearHashMap<uint64>) { m := M.Constructor(size); }
  method Insert(linear inout m: M.LinearHashMap<uint64>, k: uint64, v: uint64) { M.Insert(inout m, k, v); }
  method InsertOld(linear inout m: M.LinearHashMap<uint64>, k: uint64, v: uint64) returns (o: Option<uint64>) { o := M.InsertAndGetOld(inout m, k, v); }
  method Remove(linear inout m: M.LinearHashMap<uint64>, k: uint64) { M.Remove(inout m, k); }
  method RemoveGet(linear inout m: M.LinearHashMap<uint64>, k: uint64) returns (o: Option<uint64>) { o := M.RemoveAndGet(inout m, k); }
  method Get(shared m: M.LinearHashMap<uint64>, k: uint64) returns (o: Option<uint64>) { o := M.Get(m, k); }
  method MaxKey(shared m: M.LinearHashMap<uint64>) returns (k: uint64) { k := M.MaxKey(m); }
  method Count(shared m: M.LinearHashMap<uint64>) returns (k: uint64) { k := m.count; }
  method Clone(shared m: M.LinearHashMap<uint64>) returns (linear n: M.LinearHashMap<uint64>) { n := M.Clone(m); }
  method Free(linear m: M.LinearHashMap<uint64>) { M.Destructor(m); }
  method Start(shared m: M.LinearHashMap<uint64>) returns (it: M.Iterator<uint64>) { it := M.IterStart(m); }
  method Inc(shared m: M.LinearHashMap<uint64>, it: M.Iterator<uint64>) returns (it': M.Iterator<uint64>) { it' := M.IterInc(m, it); }
  method At(it: M.Iterator<uint64>) returns (done: bool, k: uint64, v: uint64) { if it.next.Next? { done := false; k := it.next.key; v := it.next.value; } else { done := true; k := 0; v := 0; } }
  method SStart(shared m: M.LinearHashMap<uint64>) returns (it: M.SimpleIterator) { it := M.SimpleIterStart(m); }
  method SInc(shared m: M.LinearHashMap<uint64>, it: M.SimpleIterator) returns (it': M.SimpleIterator) { it' := M.SimpleIterInc(m, it); }
  method SAt(shared m: M.LinearHashMap<uint64>, it: M.SimpleIterator) returns (done: bool, k: uint64, v: uint64) { var n := M.SimpleIterOutput(m, it); if n.Next? { done := false; k := n.key; v := n.value; } else { done := true; k := 0; v := 0; } }
  method SFind(shared m: M.LinearHashMap<uint64>, k: uint64) returns (it: M.SimpleIterator) { it := M.FindSimpleIter(m, k); }
  method SUpdate(linear inout m: M.LinearHashMap<uint64>, it: M.SimpleIterator, v: uint64) { M.UpdateByIter(inout m, it, v); }
  // the fixed-size map underneath
  method FNew(size: uint64) returns (linear m: M.FixedSizeLinearHashMap<uint64>) { m := M.ConstructorFromSize(size); }
  method FInsert(linear inout m: M.FixedSizeLinearHashMap<uint64>, k: uint64, v: uint64) returns (o: Option<uint64>) { o := M.FixedSizeInsert(inout m, k, v); }
  method FGet(shared m: M.FixedSizeLinearHashMap<uint64>, k: uint64) returns (o: Option<uint64>) { o := M.FixedSizeGet(m, k); }
  method FRemove(linear inout m: M.FixedSizeLinearHashMap<uint64>, k: uint64) returns (o: Option<uint64>) { o := M.FixedSizeRemove(inout m, k); }
  method FCount(shared m: M.FixedSizeLinearHashMap<uint64>) returns (k: uint64) { k := m.count; }
  method Hash(k: uint64) returns (h: uint64) { h := B.hash64(k); }
}
module DrvC {
  import opened NativeTypes
  import opened LinearOption
  import M = LinearContentMutableMap
  linear datatype Cell = Cell(x: uint64)
  method New(size: uint64) returns (linear m: M.LinearHashMap<Cell>) { m := M.Constructor(size); }
  method Out(linear o: lOption<Cell>) returns (some: bool, x: uint64) {
    linear match o { case lNone => { some := false; x := 0; } case lSome(c) => { some := true; linear var Cell(y) := c; x := y; } }
  }
  method Insert(linear inout m: M.LinearHashMap<Cell>, k: uint64, v: uint64) returns (some: bool, x: uint64) { linear var o := M.Insert(inout m, k, Cell(v)); some, x := Out(o); }
  method Remove(linear inout m: M.LinearHashMap<Cell>, k: uint64) returns (some: bool, x: uint64) { linear var o := M.Remove(inout m, k); some, x := Out(o); }
  method Get(shared m: M.LinearHashMap<Cell>, k: uint64) returns (x: uint64) { shared var c := M.Get(m, k); x := c.x; }
  method Has(shared m: M.LinearHashMap<Cell>, k: uint64) returns (b: bool) { b := M.IsEntry(m.underlying, k); }
  method Count(shared m: M.LinearHashMap<Cell>) returns (k: uint64) { k := m.count; }
}
module DrvM {
  import opened NativeTypes
  import opened Options
  import M = MutableMap
  import Mod = MutableMapModel
  method New(size: uint64) returns (m: M.ResizingHashMap<uint64>) { m := new M.ResizingHashMap(size); }
  method Insert(m: M.ResizingHashMap<uint64>, k: uint64, v: uint64) { m.Insert(k, v); }
  method InsertOld(m: M.ResizingHashMap<uint64>, k: uint64, v: uint64) returns (o: Option<uint64>) { o := m.InsertAndGetOld(k, v); }
  method Remove(m: M.ResizingHashMap<uint64>, k: uint64) { m.Remove(k); }
  method RemoveGet(m: M.ResizingHashMap<uint64>, k: uint64) returns (o: Option<uint64>) { o := m.RemoveAndGet(k); }
  method Get(m: M.ResizingHashMap<uint64>, k: uint64) returns (o: Option<uint64>) { o := m.Get(k); }
  method MaxKey(m: M.ResizingHashMap<uint64>) returns (k: uint64) { k := m.MaxKey(); }
  method Count(m: M.ResizingHashMap<uint64>) returns (k: uint64) { k := m.Count; }
  method Clone(m: M.ResizingHashMap<uint64>) returns (n: M.ResizingHashMap<uint64>) { n := m.Clone(); }
  method SStart(m: M.ResizingHashMap<uint64>) returns (it: Mod.SimpleIterator) { it := m.SimpleIterStart(); }
  method SInc(m: M.ResizingHashMap<uint64>, it: Mod.SimpleIterator) returns (it': Mod.SimpleIterator) { it' := m.SimpleIterInc(it); }
  method SAt(m: M.ResizingHashMap<uint64>, it: Mod.SimpleIterator) returns (done: bool, k: uint64, v: uint64) { var n := m.SimpleIterOutput(it); if n.Next? { done := false; k := n.key; v := n.value; } else { done := true; k := 0; v := 0; } }
  method SFind(m: M.ResizingHashMap<uint64>, k: uint64) returns (it: Mod.SimpleIterator) { it := m.FindSimpleIter(k); }
  method SUpdate(m: M.ResizingHashMap<uint64>, it: Mod.SimpleIterator, v: uint64) { m.UpdateByIter(it, v); }
}
