// ---- prelude: public inputs of a run --------------------------------------------------------
pub open spec fn out_of(s: Map<int, Range<u64>>) -> Option<Range<u64>> { if s.dom().contains(1) { Some(s[1]) } else { None } }
pub open spec fn within(r: Option<Range<u64>>, a: int) -> bool { match r { Some(o) => o.start <= a < o.end, None => false } }
/// The addresses the statement makes public: the program's cells and those of the declared output segment.
pub open spec fn public_addr(size: int, out: Option<Range<u64>>, a: int) -> bool { 1 <= a <= size || within(out, a) }
/// The public inputs state this run.
pub open spec fn states(p: PublicInputs, rows: Seq<RegistersState>, m: Map<int, FE>, size: int, s: MemorySegmentMap) -> bool {
    &&& congr(p.pc_init@, rows[0].pc as int) && congr(p.ap_init@, rows[0].ap as int) && congr(p.fp_init@, rows[0].fp as int)
    &&& congr(p.pc_final@, rows.last().pc as int) && congr(p.ap_final@, rows.last().ap as int)
    &&& p.num_steps == rows.len() && p.memory_segments == s
    &&& forall|a: int| #[trigger] p.public_memory@.dom().contains(a) == public_addr(size, out_of(s@), a)
    &&& forall|a: int| public_addr(size, out_of(s@), a) ==> #[trigger] p.public_memory@[a] == m[a]
}
pub open spec fn derivable(rows: Seq<RegistersState>, m: Map<int, FE>, size: int, s: Map<int, Range<u64>>) -> bool {
    rows.len() > 0 && size < u64::MAX && forall|a: int| public_addr(size, out_of(s), a) ==> #[trigger] m.dom().contains(a)
}
