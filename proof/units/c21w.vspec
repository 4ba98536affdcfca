//@ include fe.rs
//@ include num.rs
//@ include bytes.rs
//@ include map.rs
//@ config
{"rename": {"HashMap": "VxMap"}, "methods": {"to_le_bytes": "vx_to_le"}}
//@ raw
pub mod cairo_vm { pub mod vm { pub mod trace { pub mod trace_entry {
    use vstd::prelude::*;
    verus! { pub struct TraceEntry { pub pc: usize, pub ap: usize, pub fp: usize } }
} } } }
use cairo_vm::vm::trace::trace_entry::TraceEntry;
/// A field element of the virtual machine; its view is below 2^256.
#[verifier::external_body]
pub struct Felt252 { x: u8 }
impl View for Felt252 { type V = int; uninterp spec fn view(&self) -> int; }
impl Felt252 { #[verifier::external_body] pub fn vx_to_le(&self) -> (r: Vec<u8>) ensures r@ == le_bytes(self@, 32) { unimplemented!() } }
pub enum CairoImportError { IncorrectNumberOfBytes, FileError }
//@ item cairo/register_states.rs RegistersState
//@ item cairo/register_states.rs RegisterStates
//@ item cairo/cairo_mem.rs CairoMemory
//@ item cairo/runner/vec_writer.rs VecWriter noclone
//@ raw
pub open spec fn step_bytes(t: TraceEntry) -> Seq<u8> { le_bytes(t.ap as int, 8) + le_bytes(t.fp as int, 8) + le_bytes(t.pc as int, 8) }
pub open spec fn trace_bytes(s: Seq<TraceEntry>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { trace_bytes(s, n - 1) + step_bytes(s[n - 1]) } }
pub open spec fn cell_bytes(a: int, c: Option<Felt252>) -> Seq<u8> { match c { None => Seq::empty(), Some(v) => le_bytes(a, 8) + le_bytes(v@, 32) } }
pub open spec fn memory_bytes(s: Seq<Option<Felt252>>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { memory_bytes(s, n - 1) + cell_bytes(n - 1, s[n - 1]) } }
//@ include recs.rs
//@ use c02 RegisterStates::from_bytes_le
//@ use c02 CairoMemory::from_bytes_le
//@ raw
pub axiom fn axiom_felt(v: Felt252) ensures 0 <= v@ < ipow(256, 32);
pub proof fn lemma_rec_prefix(b: Seq<u8>, c: Seq<u8>, i: int, w: int) requires 0 <= i, w > 0, i * w + w <= b.len() ensures rec(b + c, i, w) == rec(b, i, w) { assert(0 <= i * w) by (nonlinear_arith) requires i >= 0, w > 0; assert(rec(b + c, i, w) =~= rec(b, i, w)); }
pub proof fn lemma_last_prefix(b: Seq<u8>, c: Seq<u8>, k: int, a: int) requires k * 40 <= b.len() ensures last_rec(b + c, k, a) == last_rec(b, k, a), last_rec(b, k, a) < k || k < 0 decreases k
{ if k > 0 { lemma_rec_prefix(b, c, k - 1, 40); lemma_last_prefix(b, c, k - 1, a); } }
/// The steps written are the steps read back.
pub proof fn theorem_steps_read_back(s: Seq<TraceEntry>, n: int) requires 0 <= n <= s.len()
    ensures trace_bytes(s, n).len() == 24 * n, forall|i: int| 0 <= i < n ==> {
            &&& le((#[trigger] rec(trace_bytes(s, n), i, 24)).subrange(0, 8)) == s[i].ap
            &&& le(rec(trace_bytes(s, n), i, 24).subrange(8, 16)) == s[i].fp
            &&& le(rec(trace_bytes(s, n), i, 24).subrange(16, 24)) == s[i].pc }
    decreases n
{
    if n > 0 {
        theorem_steps_read_back(s, n - 1);
        let (t, b, c) = (s[n - 1], trace_bytes(s, n - 1), step_bytes(s[n - 1]));
        assert(ipow(256, 8) == 0x1_0000_0000_0000_0000) by (compute);
        axiom_le_bytes(t.ap as int, 8); axiom_le_bytes(t.fp as int, 8); axiom_le_bytes(t.pc as int, 8);
        assert forall|i: int| 0 <= i < n implies le((#[trigger] rec(b + c, i, 24)).subrange(0, 8)) == s[i].ap && le(rec(b + c, i, 24).subrange(8, 16)) == s[i].fp && le(rec(b + c, i, 24).subrange(16, 24)) == s[i].pc by {
            if i < n - 1 { lemma_rec_prefix(b, c, i, 24); assert(rec(b, i, 24) == rec(b + c, i, 24)); }
            else {
                assert(rec(b + c, i, 24) =~= c);
                assert(c.subrange(0, 8) =~= le_bytes(t.ap as int, 8)); assert(c.subrange(8, 16) =~= le_bytes(t.fp as int, 8)); assert(c.subrange(16, 24) =~= le_bytes(t.pc as int, 8));
            }
        }
    }
}
/// The cells written are the cells read back, and no others.
pub proof fn theorem_cells_read_back(s: Seq<Option<Felt252>>, n: int) requires 0 <= n <= s.len() <= u64::MAX
    ensures memory_bytes(s, n).len() % 40 == 0, forall|a: int| #![trigger last_rec(memory_bytes(s, n), memory_bytes(s, n).len() as int / 40, a)] {
            let r = last_rec(memory_bytes(s, n), memory_bytes(s, n).len() as int / 40, a);
            &&& (r >= 0) == (0 <= a < n && s[a] is Some)
            &&& r >= 0 ==> r < memory_bytes(s, n).len() as int / 40 && le(rec(memory_bytes(s, n), r, 40).subrange(8, 40)) == s[a]->Some_0@ }
    decreases n
{
    if n > 0 {
        theorem_cells_read_back(s, n - 1);
        let (b, c) = (memory_bytes(s, n - 1), cell_bytes(n - 1, s[n - 1]));
        if let Some(v) = s[n - 1] {
            assert(ipow(256, 8) == 0x1_0000_0000_0000_0000) by (compute);
            axiom_felt(v); axiom_le_bytes(n - 1, 8); axiom_le_bytes(v@, 32);
            let k = b.len() as int / 40;
            assert((b + c).len() as int / 40 == k + 1);
            assert(rec(b + c, k, 40) =~= c); assert(c.subrange(0, 8) =~= le_bytes(n - 1, 8)); assert(c.subrange(8, 40) =~= le_bytes(v@, 32));
            assert forall|a: int| #![trigger last_rec(b + c, k + 1, a)] ({ let r = last_rec(b + c, k + 1, a); (r >= 0) == (0 <= a < n && s[a] is Some) && (r >= 0 ==> r < k + 1 && le(rec(b + c, r, 40).subrange(8, 40)) == s[a]->Some_0@) }) by {
                lemma_last_prefix(b, c, k, a);
                let r = last_rec(b, k, a);
                if a != n - 1 { assert(last_rec(b + c, k + 1, a) == r); if r >= 0 { lemma_rec_prefix(b, c, r, 40); } }
            }
        } else { assert(b + c =~= b); }
    }
}
//@ fn cairo/runner/vec_writer.rs VecWriter::new
ensures *ret.buf_writer == *old(vec), *final(vec) == *final(ret.buf_writer),
//@ fn cairo/runner/vec_writer.rs VecWriter::write_encoded_trace
ensures (*final(self).buf_writer)@ == (*old(self).buf_writer)@ + trace_bytes(relocated_trace@, relocated_trace@.len() as int), *final(final(self).buf_writer) == *final(old(self).buf_writer),
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == relocated_trace@.len(), (*self.buf_writer)@ == b0 + trace_bytes(relocated_trace@, vi_0 as int), *final(self.buf_writer) == f0,
decreases vn_0 - vi_0
//@ bodystart
let ghost b0 = (*self.buf_writer)@; let ghost f0 = *final(self.buf_writer);
proof { assert(b0 + trace_bytes(relocated_trace@, 0) =~= b0); }
//@ loopend 0
proof { let n = vi_0 as int; assert(b0 + trace_bytes(relocated_trace@, n - 1) + le_bytes(entry.ap as int, 8) + le_bytes(entry.fp as int, 8) + le_bytes(entry.pc as int, 8) =~= b0 + trace_bytes(relocated_trace@, n)); }
//@ fn cairo/runner/vec_writer.rs VecWriter::write_encoded_memory
ensures (*final(self).buf_writer)@ == (*old(self).buf_writer)@ + memory_bytes(relocated_memory@, relocated_memory@.len() as int), *final(final(self).buf_writer) == *final(old(self).buf_writer),
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == relocated_memory@.len(), (*self.buf_writer)@ == b0 + memory_bytes(relocated_memory@, vi_0 as int), *final(self.buf_writer) == f0,
decreases vn_0 - vi_0
//@ bodystart
let ghost b0 = (*self.buf_writer)@; let ghost f0 = *final(self.buf_writer);
proof { assert(b0 + memory_bytes(relocated_memory@, 0) =~= b0); }
//@ loopstart 0
let ghost m0 = memory_bytes(relocated_memory@, vi_0 as int);
proof { let i = vi_0 as int; assert(relocated_memory@[i] is None ==> m0 + cell_bytes(i, relocated_memory@[i]) =~= m0);
  if let Some(v) = relocated_memory@[i] { assert(b0 + m0 + le_bytes(i, 8) + le_bytes(v@, 32) =~= b0 + (m0 + cell_bytes(i, relocated_memory@[i]))); } }
