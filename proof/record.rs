// ---- shared: what a trace row records -----------------------------------------------------------
/// The machine can perform this step: the instruction is one it defines, the cells it touches exist, and they hold
/// what a call or an assertion requires of them.
pub open spec fn valid_step(m: Map<int, FE>, t: RegistersState) -> bool {
    let w = word(m[t.pc as int]);
    &&& m.dom().contains(t.pc as int) && defined(w) && t.pc + 2 <= u64::MAX
    &&& (fl(w, 7, 8) == 4 ==> fl(w, 5, 4) == 0 && fl(w, 12, 8) == 0 && fl(w, 10, 4) != 1)
    &&& addr_ok(m, s_dst_addr(w, t)) && addr_ok(m, s_op0_addr(w, t)) && addr_ok(m, s_op1_addr(w, t, m[s_op0_addr(w, t)]))
    &&& (fl(w, 2, 8) == 0 ==> rep(m[s_op0_addr(w, t)]) <= u64::MAX)
    &&& (fl(w, 12, 8) == 1 ==> congr(m[s_dst_addr(w, t)]@, t.fp as int) && congr(m[s_op0_addr(w, t)]@, t.pc + s_size(w)))
    &&& (fl(w, 12, 8) == 4 && fl(w, 7, 8) != 4 ==> congr(m[s_dst_addr(w, t)]@, s_res(w, m[s_op0_addr(w, t)]@, m[s_op1_addr(w, t, m[s_op0_addr(w, t)])]@)))
}
pub open spec fn s_dst_addr(w: int, t: RegistersState) -> int { f_base(fl(w, 0, 2) == 0, t) + off_of(w, 0) }
pub open spec fn s_op0_addr(w: int, t: RegistersState) -> int { f_base(fl(w, 1, 2) == 0, t) + off_of(w, 1) }
pub open spec fn s_op1_addr(w: int, t: RegistersState, op0: FE) -> int {
    (if fl(w, 2, 8) == 0 { rep(op0) } else if fl(w, 2, 8) == 1 { t.pc as int } else if fl(w, 2, 8) == 2 { t.fp as int } else { t.ap as int }) + off_of(w, 2)
}
pub open spec fn s_size(w: int) -> int { if fl(w, 2, 8) == 1 { 2 } else { 1 } }
pub open spec fn s_res(w: int, op0: int, op1: int) -> int { if fl(w, 5, 4) == 0 { op1 } else if fl(w, 5, 4) == 1 { op0 + op1 } else { op0 * op1 } }
pub open spec fn bit(w: int, i: int) -> int { (w / ipow(2, (48 + i) as nat)) % 2 }
/// Row i of the table is the step the machine performs from registers t.
pub open spec fn row_records(tb: TraceTable, i: int, m: Map<int, FE>, t: RegistersState, last: bool) -> bool {
    let w = word(m[t.pc as int]);
    let dst = m[s_dst_addr(w, t)]@;
    let op0 = m[s_op0_addr(w, t)]@;
    let op1 = m[s_op1_addr(w, t, m[s_op0_addr(w, t)])]@;
    let c = |k: int| tb.cell(i, k)@;
    &&& forall|k: int| 0 <= k < 15 ==> (#[trigger] tb.cell(i, k))@ == bit(w, k)
    &&& c(15) == 0
    &&& (if fl(w, 7, 8) == 4 { !congr(dst, 0) ==> congr(dst * c(16), 1) } else { congr(c(16), s_res(w, op0, op1)) })
    &&& c(17) == t.ap && c(18) == t.fp && c(19) == t.pc
    &&& c(20) == s_dst_addr(w, t) && c(21) == s_op0_addr(w, t) && c(22) == s_op1_addr(w, t, m[s_op0_addr(w, t)])
    &&& congr(c(23), m[t.pc as int]@) && congr(c(24), dst) && congr(c(25), op0) && congr(c(26), op1)
    &&& c(27) == off_of(w, 0) + 0x8000 && c(28) == off_of(w, 1) + 0x8000 && c(29) == off_of(w, 2) + 0x8000
    &&& c(30) == c(9) * c(24) && c(31) == c(30) * c(16) && c(32) == c(25) * c(26)
    &&& c(33) == (if last { 0int } else { 1 })
}
pub open spec fn rc_range(p: PublicInputs) -> Option<std::ops::Range<u64>> { if p.memory_segments@.dom().contains(0) { Some(p.memory_segments@[0]) } else { None } }
/// The builtin columns hold the range-check segment's values and their 16-bit limbs, then zeros.
pub open spec fn limb_columns(t: TraceTable, m: Map<int, FE>, r: Range<u64>) -> bool { limb_rows(t, m, r, t.nr()) }
pub open spec fn limb_rows(t: TraceTable, m: Map<int, FE>, r: Range<u64>, n: int) -> bool {
    (forall|j: int, i: int| RC_0 <= j < RC_0 + 8 && 0 <= i < r.end - r.start ==> congr((#[trigger] t.cell(i, j))@, rep(m[r.start + i]) / ipow(0x1_0000, (j - RC_0) as nat) % 0x1_0000))
    && (forall|i: int| 0 <= i < r.end - r.start ==> #[trigger] t.cell(i, RC_VALUE as int) == m[r.start + i])
    && (forall|j: int, i: int| RC_0 <= j < RC_0 + 9 && r.end - r.start <= i < n ==> (#[trigger] t.cell(i, j))@ == 0)
}
/// A run the trace can be built from.
pub open spec fn run_valid(rows: Seq<RegistersState>, m: Map<int, FE>, p: PublicInputs) -> bool {
    &&& rows.len() > 0 && rows.len() * 43 <= usize::MAX
    &&& forall|i: int| 0 <= i < rows.len() ==> valid_step(m, #[trigger] rows[i])
    &&& rc_range(p) is Some ==> { let r = rc_range(p).unwrap();
        &&& r.start <= r.end && r.end - r.start <= rows.len()
        &&& forall|a: int| r.start <= a < r.end ==> m.dom().contains(a) }
}
/// The first rows of the table are the steps of the run.
pub open spec fn all_recorded(t: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>) -> bool { forall|i: int| 0 <= i < rows.len() ==> row_records(t, i, m, #[trigger] rows[i], i + 1 == rows.len()) }
