S = []
M = "Splinter/src/marshalling/"
def m(id, prop, edits, needs, breaks, main):
    S.append({"id": id, "property": prop, "kit": "rust", "edits": edits, "needs": needs, "breaks": breaks, "demo": 'exec python3 "$here/rustdemo.py" demo.rs marshalling', "files": {"demo.rs": HEAD + main}})
HEAD = '''#![allow(warnings)]
#![feature(custom_inner_attributes, never_type, rustc_attrs, stmt_expr_attributes, proc_macro_hygiene)]
pub mod marshalling;
use marshalling::IntegerMarshalling_v::*; use marshalling::Marshalling_v::*; use marshalling::SeqMarshalling_v::*; use marshalling::Slice_v::*;
use marshalling::UniformSizedSeq_v::*; use marshalling::ResizableUniformSizedSeq_v::*; use marshalling::VariableSizedElementSeq_v::*;
'''
m("M01-useqwide", "M01", [(M + "UniformSizedSeq_v.rs", "end = self.eltf.exec_marshall(&value[i], data, end);", "end = self.eltf.exec_marshall(&value[(i as u8) as usize], data, end);")],
  "a sequence of more than 256 elements", "the elements after the 256th of a long sequence are written as copies of the first ones",
  '''fn main() {
    let f: UniformSizedElementSeqFormat<IntFormat<u32>> = UniformSizedElementSeqFormat::new(IntFormat::new());
    for n in [0usize, 1, 5, 255, 256, 257, 400] {
        let v: Vec<u32> = (0..n as u32).map(|x| x * 7 + 1).collect();
        let mut d = vec![0u8; n * 4]; let e = f.exec_marshall(&v, &mut d, 0);
        assert!(e == n * 4 && f.try_parse(&Slice { start: 0, end: e }, &d) == Some(v), "round trip of {} elements", n);
    }
}''')
m("M01-int56", "M01", [(M + "IntegerMarshalling_v.rs", "        assume( false );    // proof rotted\n        value\n", "        assume( false );    // proof rotted\n        T::from_usize(T::to_usize(value) & (0x00ff_ffff_ffff_ffffu64 as usize))\n")],
  "a 64-bit value of at least 2^56", "the unchecked parse of a 64-bit integer loses its top byte",
  '''fn main() {
    let f: IntFormat<u64> = IntFormat::new();
    for v in [0u64, 1, u32::MAX as u64, 1 << 40, (1 << 56) - 1, 1 << 56, u64::MAX] {
        let mut d = vec![0u8; 8]; f.exec_marshall(&v, &mut d, 0);
        assert!(f.exec_parse(&Slice { start: 0, end: 8 }, &d) == v, "round trip of {}", v);
    }
}''')
m("M01-rseqwide", "M01", [(M + "ResizableUniformSizedSeq_v.rs", "self.exec_set(&slice, data, i, &value[i]);\n            i += 1;", "self.exec_set(&slice, data, i & 0xff, &value[i]);\n            i += 1;")],
  "a resizable sequence of more than 256 elements", "writing a long resizable sequence puts the elements after the 256th over the first ones",
  '''fn main() {
    for n in [0usize, 1, 5, 255, 256, 257, 300] {
        let f: ResizableUniformSizedElementSeqFormat<IntFormat<u32>, u16> = ResizableUniformSizedElementSeqFormat::new(IntFormat::new(), IntFormat::new(), 2 + 4 * n);
        let v: Vec<u32> = (0..n as u32).map(|x| x * 7 + 1).collect();
        let mut d = vec![0u8; 2 + n * 4]; let e = f.exec_marshall(&v, &mut d, 0);
        assert!(f.try_parse(&Slice { start: 0, end: e }, &d) == Some(v), "round trip of {} elements", n);
    }
}''')
m("M02-parsewide", "M02", [(M + "ResizableUniformSizedSeq_v.rs", "let oelt = self.try_get_elt(dslice, data, i);\n                    if oelt.is_none() {\n                        return None;", "let oelt = self.try_get_elt(dslice, data, i & 0x7f);\n                    if oelt.is_none() {\n                        return None;")],
  "parsing a stored sequence of more than 128 elements", "parsing yields the first elements again in place of the 129th and later ones",
  '''fn main() {
    for n in [0usize, 1, 5, 127, 128, 129, 300] {
        let f: ResizableUniformSizedElementSeqFormat<IntFormat<u16>, u32> = ResizableUniformSizedElementSeqFormat::new(IntFormat::new(), IntFormat::new(), 4 + 2 * n);
        let v: Vec<u16> = (0..n as u16).map(|x| x * 7 + 1).collect();
        let mut d = (n as u32).to_le_bytes().to_vec(); for x in &v { d.extend(x.to_le_bytes()); }
        assert!(f.try_parse(&Slice { start: 0, end: d.len() }, &d) == Some(v), "parse of {} elements", n);
    }
}''')
m("M02-lastpair", "M02", [(M + "VariableSizedElementSeq_v.rs", "if BdyType::to_usize(tbl[i]) < BdyType::to_usize(tbl[i+1]) {", "if i + 2 < len && BdyType::to_usize(tbl[i]) < BdyType::to_usize(tbl[i+1]) {")],
  "a stored offset table of three or more entries whose last entry is out of order", "a table with its last offset above the one before is accepted as well formed",
  '''fn main() {
    let f: VariableSizedElementSeqFormat<UniformSizedElementSeqFormat<IntFormat<u8>>, u16, u16> = VariableSizedElementSeqFormat::new(UniformSizedElementSeqFormat::new(IntFormat::new()), IntFormat::new(), IntFormat::new(), 40);
    let chk = |t: &[u16]| { let mut d = (t.len() as u16).to_le_bytes().to_vec(); for x in t { d.extend(x.to_le_bytes()); } d.resize(40, 7); f.exec_well_formed(&Slice { start: 0, end: 40 }, &d) };
    assert!(chk(&[40, 30, 20])); assert!(chk(&[30, 30, 30])); assert!(!chk(&[20, 30, 20])); assert!(!chk(&[40, 20, 30]), "offsets out of order accepted"); assert!(!chk(&[40, 30, 20, 25]), "offsets out of order accepted");
}''')
