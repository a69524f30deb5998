// Instances of the in-memory B-tree for the D02 harness: the repository's own (fan-out 64) and smaller ones.
include "@REPO@/lib/DataStructures/KMBtree.i.dfy"
module Small refines LMutableBtree {
  import Model = KMBtreeModel
  function method MaxKeysPerLeaf() : uint64 { 3 }
  function method MaxChildren() : uint64 { 4 }
  function method DefaultValue() : Value { Model.Messages.DefineDefault() }
  function method DefaultKey() : Key { [] }
}
module Odd refines LMutableBtree {
  import Model = KMBtreeModel
  function method MaxKeysPerLeaf() : uint64 { 6 }
  function method MaxChildren() : uint64 { 5 }
  function method DefaultValue() : Value { Model.Messages.DefineDefault() }
  function method DefaultKey() : Key { [] }
}
module DrvBase {
  import opened NativeTypes
  import opened Options
  import Mdl = KMBtreeModel
  import Msg = ValueMessage
  method Out(o: Option<Msg.Message>) returns (some: bool, v: seq<byte>) { if o.Some? && o.value.Define? { some := true; v := o.value.value; } else { some := false; v := []; } }
}
module DrvBig {
  import opened NativeTypes
  import opened Options
  import B = LKMBtree`All
  import Mdl = KMBtreeModel
  import Msg = ValueMessage
  import D = DrvBase
  method New() returns (linear t: Mdl.Node) { t := B.EmptyTree(); }
  method Insert(linear t: Mdl.Node, k: seq<byte>, v: seq<byte>) returns (linear t': Mdl.Node, some: bool, was: seq<byte>) { var o; t', o := B.Insert(t, k, Msg.Define(v)); some, was := D.Out(o); }
  method Query(shared t: Mdl.Node, k: seq<byte>) returns (some: bool, v: seq<byte>) { var o := B.Query(t, k); some, v := D.Out(o); }
  method Empty(shared t: Mdl.Node) returns (b: bool) { b := B.Empty(t); }
  method MinKey(shared t: Mdl.Node) returns (k: seq<byte>) { k := B.MinKey(t); }
  method MaxKey(shared t: Mdl.Node) returns (k: seq<byte>) { k := B.MaxKey(t); }
  method Count(shared t: Mdl.Node) returns (n: uint64) { n := B.CountElements(t); }
  method Free(linear t: Mdl.Node) { var _ := B.FreeNode(t); }
  method LeafMax() returns (n: uint64) { n := B.MaxKeysPerLeaf(); }
  method IndexMax() returns (n: uint64) { n := B.MaxChildren(); }
}
module DrvSmall {
  import opened NativeTypes
  import opened Options
  import B = Small`All
  import Mdl = KMBtreeModel
  import Msg = ValueMessage
  import D = DrvBase
  method New() returns (linear t: Mdl.Node) { t := B.EmptyTree(); }
  method Insert(linear t: Mdl.Node, k: seq<byte>, v: seq<byte>) returns (linear t': Mdl.Node, some: bool, was: seq<byte>) { var o; t', o := B.Insert(t, k, Msg.Define(v)); some, was := D.Out(o); }
  method Query(shared t: Mdl.Node, k: seq<byte>) returns (some: bool, v: seq<byte>) { var o := B.Query(t, k); some, v := D.Out(o); }
  method Empty(shared t: Mdl.Node) returns (b: bool) { b := B.Empty(t); }
  method MinKey(shared t: Mdl.Node) returns (k: seq<byte>) { k := B.MinKey(t); }
  method MaxKey(shared t: Mdl.Node) returns (k: seq<byte>) { k := B.MaxKey(t); }
  method Count(shared t: Mdl.Node) returns (n: uint64) { n := B.CountElements(t); }
  method Free(linear t: Mdl.Node) { var _ := B.FreeNode(t); }
  method LeafMax() returns (n: uint64) { n := B.MaxKeysPerLeaf(); }
  method IndexMax() returns (n: uint64) { n := B.MaxChildren(); }
}
module DrvOdd {
  import opened NativeTypes
  import opened Options
  import B = Odd`All
  import Mdl = KMBtreeModel
  import Msg = ValueMessage
  import D = DrvBase
  method New() returns (linear t: Mdl.Node) { t := B.EmptyTree(); }
  method Insert(linear t: Mdl.Node, k: seq<byte>, v: seq<byte>) returns (linear t': Mdl.Node, some: bool, was: seq<byte>) { var o; t', o := B.Insert(t, k, Msg.Define(v)); some, was := D.Out(o); }
  method Query(shared t: Mdl.Node, k: seq<byte>) returns (some: bool, v: seq<byte>) { var o := B.Query(t, k); some, v := D.Out(o); }
  method Empty(shared t: Mdl.Node) returns (b: bool) { b := B.Empty(t); }
  method MinKey(shared t: Mdl.Node) returns (k: seq<byte>) { k := B.MinKey(t); }
  method MaxKey(shared t: Mdl.Node) returns (k: seq<byte>) { k := B.MaxKey(t); }
  method Count(shared t: Mdl.Node) returns (n: uint64) { n := B.CountElements(t); }
  method Free(linear t: Mdl.Node) { var _ := B.FreeNode(t); }
  method LeafMax() returns (n: uint64) { n := B.MaxKeysPerLeaf(); }
  method IndexMax() returns (n: uint64) { n := B.MaxChildren(); }
}
