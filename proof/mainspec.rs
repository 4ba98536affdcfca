// ---- prelude: the finished main trace ------------------------------------------------------
/// The bounds on the inputs: a valid run whose memory (and public memory) lies below 2^60.
pub open spec fn run_ok(rows: Seq<RegistersState>, m: Map<int, FE>, p: PublicInputs) -> bool {
    &&& run_valid(rows, m, p) && rows.len() <= 0x100_0000_0000
    &&& forall|a: int| #[trigger] m.dom().contains(a) ==> 0 <= a < 0x1000_0000_0000_0000
    &&& forall|a: int| #[trigger] p.public_memory@.dom().contains(a) ==> 0 <= a < 0x1000_0000_0000_0000
    &&& p.public_memory@.dom().len() <= 0x1000_0000_0000_0000
}
pub open spec fn main_rows(t: TraceTable, n0: int, n1: int, n2: int, p: PublicInputs, mh: Seq<FE>, rh: Seq<FE>) -> bool {
    &&& n0 <= n1 <= n2 && fillers(t, n0, n1, mh, rh) && skips(t, n0, p, mh) && holes_placed(t, n1, mh)
    &&& forall|j: int| 0 <= j < rh.len() ==> 0 <= (#[trigger] rh[j])@ < 0x1_0000
    &&& t.nr() - n2 >= p.public_memory@.dom().len() as int / 4 + 1
    &&& forall|r: int, c: int| n2 <= r < t.nr() && FRAME_PC <= c <= FRAME_OP1 ==> (#[trigger] t.cell(r, c))@ == 0
}
