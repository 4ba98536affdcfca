//@ include fe.rs
//@ include num.rs
//@ include map.rs
//@ include uint.rs
//@ consts cairo/air.rs
//@ consts cairo/execution_trace.rs
//@ config
{"rename": {"HashMap": "VxMap"}}
//@ item cairo/decode/instruction_flags.rs DstReg eq
//@ item cairo/decode/instruction_flags.rs Op0Reg eq
//@ item cairo/decode/instruction_flags.rs Op1Src eq
//@ item cairo/decode/instruction_flags.rs ResLogic eq
//@ item cairo/decode/instruction_flags.rs PcUpdate eq
//@ item cairo/decode/instruction_flags.rs ApUpdate eq
//@ item cairo/decode/instruction_flags.rs CairoOpcode eq
//@ item cairo/decode/instruction_flags.rs CairoInstructionFlags
//@ item cairo/decode/instruction_offsets.rs InstructionOffsets
//@ item cairo/register_states.rs RegistersState
//@ item cairo/register_states.rs RegisterStates
//@ item cairo/cairo_mem.rs CairoMemory
//@ item cairo/air.rs MemorySegment
//@ item starks/trace.rs TraceTable
//@ raw
impl VxKey for MemorySegment { open spec fn k(&self) -> int { match *self { MemorySegment::RangeCheck => 0, MemorySegment::Output => 1 } } }
pub type MemorySegmentMap = VxMap<MemorySegment, std::ops::Range<u64>>;
use std::ops::Range;
//@ item cairo/air.rs PublicInputs
//@ include decode.rs
//@ include step.rs
//@ include table.rs
//@ include record.rs
//@ include rc.rs
//@ include mainr.rs
//@ include mainspec.rs
//@ use c03 build_cairo_execution_trace
//@ use c08 TraceTable::get_cols
//@ use c08 TraceTable::n_rows
//@ use c07 get_rc_holes
//@ use c07 fill_rc_holes
//@ use c06 get_memory_holes
//@ use c06 fill_memory_holes
//@ use c06 add_pub_memory_dummy_accesses
//@ use c06 pad_with_last_row
//@ raw
pub open spec fn address_columns() -> Seq<usize> { seq![FRAME_PC, FRAME_DST_ADDR, FRAME_OP0_ADDR, FRAME_OP1_ADDR] }
pub proof fn lemma_gathered(t: TraceTable, g: Seq<FE>) requires t.wf(), exists|c: TraceTable, q: Seq<usize>| #[trigger] picks(c, t, q) && q == address_columns() && c.table@ == g ensures gathered(t, g)
{ let (c, q) = choose|c: TraceTable, q: Seq<usize>| #[trigger] picks(c, t, q) && q == address_columns() && c.table@ == g; assert forall|r: int, k: int| 0 <= r < t.nr() && 0 <= k < 4 implies g[r * 4 + k] == #[trigger] addr(t, r, k) by { assert(c.cell(r, k) == t.cell(r, q[k] as int)); } }
pub proof fn lemma_size(t: TraceTable, n: int, d: int) requires t.wf(), t.nr() == n, n <= 0x100_0000_0000, t.n_cols <= 43, 0 <= d <= 0x1_0002 ensures room(t.table@.len() as int, d, t.n_cols as int), n * 3 < usize::MAX - 0x1_0000
{ assert(t.table.len() as int == t.table@.len()); assert(n * t.n_cols <= 0x100_0000_0000 * 43) by (nonlinear_arith) requires n <= 0x100_0000_0000, t.n_cols <= 43, n >= 0 || t.n_cols >= 0, 0 <= t.n_cols; assert(d * t.n_cols <= 0x1_0002 * 43) by (nonlinear_arith) requires 0 <= d <= 0x1_0002, 0 <= t.n_cols <= 43; }
/// What run_ok says of the sizes and of the recorded steps.
pub proof fn lemma_run(rows: Seq<RegistersState>, m: Map<int, FE>, p: PublicInputs) requires run_ok(rows, m, p)
    ensures run_valid(rows, m, p), 0 < rows.len() <= 0x100_0000_0000, p.public_memory@.dom().len() <= 0x1000_0000_0000_0000 {}
pub proof fn lemma_addr_bound(t: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, r: int, k: int) requires run_ok(rows, m, p), all_recorded(t, m, rows), 0 <= r < rows.len(), 0 <= k < 4
    ensures rep(addr(t, r, k)) < 0x1000_0000_0000_0000
{
    broadcast use axiom_P;
    assert(valid_step(m, rows[r])); assert(row_records(t, r, m, rows[r], r + 1 == rows.len()));
    let a = addr(t, r, k)@;
    assert(m.dom().contains(a)) by { if k == 0 {} else if k == 1 {} else if k == 2 {} else {} }
    vstd::arithmetic::div_mod::lemma_small_mod(a as nat, P() as nat);
}
pub proof fn lemma_hole_count(t: TraceTable, m: Map<int, FE>, rows: Seq<RegistersState>, p: PublicInputs, g: Seq<FE>, ks: Seq<FE>, s: Seq<FE>, mh: Seq<FE>)
    requires run_ok(rows, m, p), all_recorded(t, m, rows), t.nr() == rows.len(), gathered(t, g), keys_of(ks, p.public_memory@), s.to_multiset() == (g + ks).to_multiset(), s.len() > 0,
        forall|i: int| 0 <= i < mh.len() ==> rep(s[0]) < rep(#[trigger] mh[i]) < rep(s.last()),
        forall|i: int, j: int| 0 <= i < j < mh.len() ==> rep(mh[i]) < rep(mh[j]),
    ensures mh.len() <= 0x1000_0000_0000_0000
{
    let v = rep(s.last());
    assert(listed(s, v)) by { assert(rep(s[s.len() - 1]) == v); }
    lemma_same_list(s, g + ks, v); lemma_listed_reached(t, g, ks, p, v);
    if touched(t, t.nr(), v) { let (r, k) = choose|r: int, k: int| 0 <= r < t.nr() && 0 <= k < 4 && rep(#[trigger] addr(t, r, k)) == v; lemma_addr_bound(t, m, rows, p, r, k); }
    if mh.len() > 0 { lemma_ascending(mh, v, mh.len() as int); }
}
/// What row_records says of a row stands when rows are added.
pub proof fn lemma_recorded(a: TraceTable, b: TraceTable, d: int, m: Map<int, FE>, rows: Seq<RegistersState>) requires all_recorded(a, m, rows), a.nr() == rows.len(), a.n_cols >= 34, grows(a, b, d), d >= 0 ensures all_recorded(b, m, rows)
{
    assert forall|i: int| 0 <= i < rows.len() implies row_records(b, i, m, #[trigger] rows[i], i + 1 == rows.len()) by {
        assert(row_records(a, i, m, rows[i], i + 1 == rows.len()));
        assert forall|k: int| 0 <= k < 34 implies b.cell(i, k) == #[trigger] a.cell(i, k) by {}
        lemma_same_record(a, b, i, m, rows[i], i + 1 == rows.len());
    }
}
pub proof fn lemma_same_record(a: TraceTable, b: TraceTable, i: int, m: Map<int, FE>, t: RegistersState, last: bool) requires row_records(a, i, m, t, last), forall|k: int| 0 <= k < 34 ==> b.cell(i, k) == #[trigger] a.cell(i, k) ensures row_records(b, i, m, t, last)
{
    assert forall|k: int| 0 <= k < 15 implies (#[trigger] b.cell(i, k))@ == bit(word(m[t.pc as int]), k) by { assert(a.cell(i, k)@ == bit(word(m[t.pc as int]), k)); }
    let s = seq![a.cell(i, 9), a.cell(i, 15), a.cell(i, 16), a.cell(i, 17), a.cell(i, 18), a.cell(i, 19), a.cell(i, 20), a.cell(i, 21), a.cell(i, 22), a.cell(i, 23), a.cell(i, 24), a.cell(i, 25), a.cell(i, 26), a.cell(i, 27), a.cell(i, 28), a.cell(i, 29), a.cell(i, 30), a.cell(i, 31), a.cell(i, 32), a.cell(i, 33)];
}
pub proof fn lemma_limb_rows(a: TraceTable, b: TraceTable, d: int, m: Map<int, FE>, p: PublicInputs) requires grows(a, b, d), d >= 0, a.n_cols == (if rc_range(p) is Some { 43int } else { 34 }), rc_range(p) is Some ==> limb_columns(a, m, rc_range(p).unwrap()), rc_range(p) is Some ==> rc_range(p).unwrap().start <= rc_range(p).unwrap().end && rc_range(p).unwrap().end - rc_range(p).unwrap().start <= a.nr()
    ensures rc_range(p) is Some ==> limb_rows(b, m, rc_range(p).unwrap(), a.nr())
{
    if rc_range(p) is Some {
        let r = rc_range(p).unwrap(); let n = a.nr();
        assert forall|j: int, i: int| RC_0 <= j < RC_0 + 8 && 0 <= i < r.end - r.start implies congr((#[trigger] b.cell(i, j))@, rep(m[r.start + i]) / ipow(0x1_0000, (j - RC_0) as nat) % 0x1_0000) by { assert(b.cell(i, j) == a.cell(i, j)); }
        assert forall|i: int| 0 <= i < r.end - r.start implies #[trigger] b.cell(i, RC_VALUE as int) == m[r.start + i] by { assert(b.cell(i, RC_VALUE as int) == a.cell(i, RC_VALUE as int)); }
        assert forall|j: int, i: int| RC_0 <= j < RC_0 + 9 && r.end - r.start <= i < n implies (#[trigger] b.cell(i, j))@ == 0 by { assert(b.cell(i, j) == a.cell(i, j)); }
    }
}
//@ fn cairo/execution_trace.rs build_main_trace {"rlimit": 30, "methods": {"extend": "fn vx_extend_keys&mut ", "sort_by_key": "fn vx_sort_by_key&mut ", "next_power_of_two": "fn vx_next_power_of_two"}, "closures": [{"params": ["&FE"], "ret": "k: UnsignedInteger<4>", "ensures": "k@ == rep(*vp_0)"}]}
requires run_ok(register_states.rows@, memory.data@, *old(public_input)),
ensures
    ret.wf(), is_pow2(ret.nr()), ret.n_cols == (if rc_range(*old(public_input)) is Some { 43int } else { 34 }),
    all_recorded(ret, memory.data@, register_states.rows@),
    rc_range(*old(public_input)) is Some ==> limb_rows(ret, memory.data@, rc_range(*old(public_input)).unwrap(), register_states.rows@.len() as int),
    exists|lo: u16, hi: u16| *final(public_input) == (PublicInputs { range_check_min: Some(lo), range_check_max: Some(hi), ..*old(public_input) }) && #[trigger] continuous(ret, lo as int, hi as int),
    exists|n1: int, n2: int, mh: Seq<FE>, rh: Seq<FE>| #[trigger] main_rows(ret, register_states.rows@.len() as int, n1, n2, *old(public_input), mh, rh),
//@ bodystart
let ghost p0 = *public_input;
let ghost m = memory.data@;
let ghost rows = register_states.rows@;
let ghost n0 = register_states.rows@.len() as int;
proof { lemma_run(rows, m, p0); }
//@ let main_trace
let ghost t0 = main_trace;
proof { assert(all_recorded(t0, m, rows)); lemma_size(t0, n0, 0); }
//@ let address_cols
let ghost g = address_cols@;
proof { let a = [FRAME_PC, FRAME_DST_ADDR, FRAME_OP0_ADDR, FRAME_OP1_ADDR]; assert(a@ =~= address_columns()); lemma_gathered(t0, g); }
//@ stmt extend
let ghost l = address_cols@;
let ghost ks = choose|ks: Seq<FE>| l == g + ks && keys_of(ks, p0.public_memory@);
//@ let rc_max
let ghost rh = rc_holes@;
let ghost s = address_cols@;
let ghost mm = choose|mm: int| 0 <= mm <= rh.len() <= mm + 2 && #[trigger] missing_then_max(t0, off_cols(), rh, rc_min as int, rc_max as int, mm);
proof { lemma_size(t0, n0, rh.len() as int / 3); assert(s.len() > 0); }
//@ let memory_holes
let ghost t1 = main_trace;
let ghost mh = memory_holes@;
proof { lemma_hole_count(t0, m, rows, p0, g, ks, s, mh); }
proof { lemma_skips(t0, g, ks, s, p0, mh); }
//@ stmt if_
let ghost t2 = main_trace;
proof { if mh.len() == 0 { lemma_no_holes(t1, mh); } }
//@ stmt add_pub_memory_dummy_accesses
let ghost t3 = main_trace;
//@ stmt pad_with_last_row
proof {
    let t4 = main_trace; let (lo, hi) = (rc_min, rc_max); let d = p0.public_memory@.dom().len() as int / 4 + 1; let e = t4.nr() - t3.nr();
    assert(rc_rows(t0, t1, rh)); assert(hole_rows(t1, t2, mh)); assert(dummy_rows(t2, t3, d)); assert(copy_rows(t3, t4, e));
    lemma_staged(t0, t1, t2, t3, t4, mh, rh, d, e);
    lemma_recorded(t0, t4, t4.nr() - n0, m, rows);
    lemma_limb_rows(t0, t4, t4.nr() - n0, m, p0);
    lemma_reached_grown(t0, t4, t4.nr() - n0, p0, mh);
    lemma_continuous(t0, t4, t1.nr(), mh, rh, lo, hi, mm);
    assert(continuous(t4, lo as int, hi as int));
    assert(main_rows(t4, n0, t1.nr(), t2.nr(), p0, mh, rh));
}
