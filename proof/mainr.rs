// ---- shared: the rows build_main_trace adds after the recorded steps -----------------------------
pub open spec fn addr(t: TraceTable, r: int, k: int) -> FE { t.cell(r, FRAME_PC + k) }
pub open spec fn val(t: TraceTable, r: int, k: int) -> FE { t.cell(r, FRAME_INST + k) }
pub open spec fn offs(t: TraceTable, r: int, k: int) -> FE { t.cell(r, OFF_DST + k) }
/// A column that is neither an address, a value nor an offset.
pub open spec fn plain(c: int) -> bool { !(FRAME_PC <= c <= OFF_OP1) }
/// One of the first n rows accesses address v.
pub open spec fn touched(t: TraceTable, n: int, v: int) -> bool { exists|r: int, k: int| 0 <= r < n && 0 <= k < 4 && rep(#[trigger] addr(t, r, k)) == v }
/// One of the first n rows accesses v, or v is a cell of the public memory.
pub open spec fn reached(t: TraceTable, n: int, p: PublicInputs, v: int) -> bool { touched(t, n, v) || p.public_memory@.dom().contains(v) }
pub open spec fn blank(t: TraceTable, r: int) -> bool { forall|c: int| 0 <= c < t.n_cols && plain(c) ==> (#[trigger] t.cell(r, c))@ == 0 }
pub open spec fn copies(t: TraceTable, r: int, q: int) -> bool { forall|c: int| 0 <= c < t.n_cols && plain(c) ==> #[trigger] t.cell(r, c) == t.cell(q, c) }
/// Outside the address, value and offset columns the row is zero or that of the last step.
pub open spec fn idle(t: TraceTable, r: int, n0: int) -> bool { blank(t, r) || copies(t, r, n0 - 1) }
pub open spec fn member(h: Seq<FE>, x: FE) -> bool { exists|j: int| 0 <= j < h.len() && #[trigger] h[j] == x }
/// The row's offsets are the last step's or missing ones.
pub open spec fn off_cell(t: TraceTable, r: int, k: int, n0: int, rh: Seq<FE>) -> bool { offs(t, r, k) == offs(t, n0 - 1, k) || member(rh, offs(t, r, k)) }
pub open spec fn no_access(t: TraceTable, r: int, k: int) -> bool { addr(t, r, k)@ == 0 && val(t, r, k)@ == 0 }
pub open spec fn last_access(t: TraceTable, r: int, k: int, n0: int) -> bool { addr(t, r, k) == addr(t, n0 - 1, k) && val(t, r, k) == val(t, n0 - 1, k) }
pub open spec fn fills(t: TraceTable, r: int, k: int, n1: int, mh: Seq<FE>) -> bool { n1 <= r && 0 <= 4 * (r - n1) + k < mh.len() && addr(t, r, k) == mh[4 * (r - n1) + k] }
/// The access is (0, 0), that of the last step, or to a hole.
pub open spec fn mem_cell(t: TraceTable, r: int, k: int, n0: int, n1: int, mh: Seq<FE>) -> bool { no_access(t, r, k) || last_access(t, r, k, n0) || fills(t, r, k, n1, mh) }
pub open spec fn filler(t: TraceTable, r: int, n0: int, n1: int, mh: Seq<FE>, rh: Seq<FE>) -> bool {
    idle(t, r, n0) && (forall|k: int| 0 <= k < 3 ==> #[trigger] off_cell(t, r, k, n0, rh)) && (forall|k: int| 0 <= k < 4 ==> #[trigger] mem_cell(t, r, k, n0, n1, mh))
}
/// All rows from the last step on are fillers.
pub open spec fn fillers(t: TraceTable, n0: int, n1: int, mh: Seq<FE>, rh: Seq<FE>) -> bool { 1 <= n0 <= t.nr() && t.wf() && t.n_cols > OFF_OP1 && forall|r: int| n0 - 1 <= r < t.nr() ==> #[trigger] filler(t, r, n0, n1, mh, rh) }
pub proof fn lemma_same_row(a: TraceTable, b: TraceTable, r: int, n0: int, n1: int, mh: Seq<FE>, rh: Seq<FE>)
    requires filler(a, r, n0, n1, mh, rh), a.n_cols == b.n_cols, a.n_cols > OFF_OP1, forall|c: int| 0 <= c < a.n_cols ==> #[trigger] b.cell(r, c) == a.cell(r, c), forall|c: int| 0 <= c < a.n_cols ==> #[trigger] b.cell(n0 - 1, c) == a.cell(n0 - 1, c)
    ensures filler(b, r, n0, n1, mh, rh)
{
    assert(idle(b, r, n0)) by { if blank(a, r) { assert(blank(b, r)) by { assert forall|c: int| 0 <= c < b.n_cols && plain(c) implies (#[trigger] b.cell(r, c))@ == 0 by { assert(a.cell(r, c)@ == 0); } } } else { assert(copies(b, r, n0 - 1)) by { assert forall|c: int| 0 <= c < b.n_cols && plain(c) implies #[trigger] b.cell(r, c) == b.cell(n0 - 1, c) by { assert(a.cell(r, c) == a.cell(n0 - 1, c)); } } } }
    assert forall|k: int| 0 <= k < 3 implies #[trigger] off_cell(b, r, k, n0, rh) by { assert(off_cell(a, r, k, n0, rh)); }
    assert forall|k: int| 0 <= k < 4 implies #[trigger] mem_cell(b, r, k, n0, n1, mh) by { assert(mem_cell(a, r, k, n0, n1, mh)); }
}
/// Rows added after fillers leave these what they were.
pub proof fn lemma_grown(a: TraceTable, b: TraceTable, d: int, n0: int, n1: int, mh: Seq<FE>, rh: Seq<FE>) requires fillers(a, n0, n1, mh, rh), grows(a, b, d), d >= 0
    ensures forall|r: int| n0 - 1 <= r < a.nr() ==> #[trigger] filler(b, r, n0, n1, mh, rh), b.n_cols > OFF_OP1
{ assert forall|r: int| n0 - 1 <= r < a.nr() implies #[trigger] filler(b, r, n0, n1, mh, rh) by { assert(filler(a, r, n0, n1, mh, rh)); lemma_same_row(a, b, r, n0, n1, mh, rh); } }
pub proof fn lemma_first(a: TraceTable, n1: int, mh: Seq<FE>, rh: Seq<FE>) requires a.wf(), a.nr() >= 1, a.n_cols > OFF_OP1 ensures fillers(a, a.nr(), n1, mh, rh)
{ assert forall|r: int| a.nr() - 1 <= r < a.nr() implies #[trigger] filler(a, r, a.nr(), n1, mh, rh) by { assert(copies(a, r, a.nr() - 1)); assert forall|k: int| 0 <= k < 3 implies #[trigger] off_cell(a, r, k, a.nr(), rh) by {} assert forall|k: int| 0 <= k < 4 implies #[trigger] mem_cell(a, r, k, a.nr(), n1, mh) by { assert(last_access(a, r, k, a.nr())); } } }
/// A row with the offsets and plain columns of a filler.
pub proof fn lemma_like(t: TraceTable, q: int, r: int, n0: int, n1: int, mh: Seq<FE>, rh: Seq<FE>)
    requires filler(t, q, n0, n1, mh, rh), t.n_cols > OFF_OP1, forall|c: int| 0 <= c < t.n_cols && !(FRAME_PC <= c <= FRAME_OP1) ==> #[trigger] t.cell(r, c) == t.cell(q, c), forall|k: int| 0 <= k < 4 ==> #[trigger] mem_cell(t, r, k, n0, n1, mh)
    ensures filler(t, r, n0, n1, mh, rh)
{
    assert(idle(t, r, n0)) by { if blank(t, q) { assert(blank(t, r)) by { assert forall|c: int| 0 <= c < t.n_cols && plain(c) implies (#[trigger] t.cell(r, c))@ == 0 by { assert(t.cell(q, c)@ == 0); } } } else { assert(copies(t, r, n0 - 1)) by { assert forall|c: int| 0 <= c < t.n_cols && plain(c) implies #[trigger] t.cell(r, c) == t.cell(n0 - 1, c) by { assert(t.cell(q, c) == t.cell(n0 - 1, c)); } } } }
    assert forall|k: int| 0 <= k < 3 implies #[trigger] off_cell(t, r, k, n0, rh) by { assert(off_cell(t, q, k, n0, rh)); assert(t.cell(r, OFF_DST + k) == t.cell(q, OFF_DST + k)); }
}
pub open spec fn rc_rows(a: TraceTable, b: TraceTable, h: Seq<FE>) -> bool {
    h.len() % 3 == 0 && grows(a, b, h.len() as int / 3)
    && (forall|i: int, k: int| 0 <= i < h.len() / 3 && 0 <= k < 3 ==> #[trigger] b.cell(a.nr() + i, OFF_DST + k) == h[3 * i + k])
    && (forall|i: int, c: int| 0 <= i < h.len() / 3 && 0 <= c < a.n_cols && !(OFF_DST <= c <= OFF_OP1) ==> (#[trigger] b.cell(a.nr() + i, c))@ == 0)
}
pub open spec fn hole_rows(a: TraceTable, b: TraceTable, h: Seq<FE>) -> bool {
    grows(a, b, (h.len() as int + 3) / 4)
    && (forall|i: int, k: int| 0 <= i < (h.len() as int + 3) / 4 && 0 <= k < 4 ==> #[trigger] b.cell(a.nr() + i, FRAME_PC + k) == (if 4 * i + k < h.len() { h[4 * i + k] } else { a.cell(a.nr() - 1, FRAME_PC + k) }))
    && (forall|i: int, c: int| 0 <= i < (h.len() as int + 3) / 4 && 0 <= c < a.n_cols && !(FRAME_PC <= c <= FRAME_OP1_ADDR) ==> #[trigger] b.cell(a.nr() + i, c) == a.cell(a.nr() - 1, c))
}
pub open spec fn dummy_rows(a: TraceTable, b: TraceTable, d: int) -> bool {
    grows(a, b, d)
    && (forall|i: int, c: int| 0 <= i < d && FRAME_PC <= c <= FRAME_OP1 ==> (#[trigger] b.cell(a.nr() + i, c))@ == 0)
    && (forall|i: int, c: int| 0 <= i < d && 0 <= c < a.n_cols && !(FRAME_PC <= c <= FRAME_OP1) ==> #[trigger] b.cell(a.nr() + i, c) == a.cell(a.nr() - 1, c))
}
pub open spec fn copy_rows(a: TraceTable, b: TraceTable, d: int) -> bool {
    grows(a, b, d) && (forall|i: int, c: int| 0 <= i < d && 0 <= c < a.n_cols ==> #[trigger] b.cell(a.nr() + i, c) == a.cell(a.nr() - 1, c))
}
pub proof fn lemma_rc_rows(a: TraceTable, b: TraceTable, n1: int, mh: Seq<FE>, h: Seq<FE>) requires a.wf(), a.nr() >= 1, a.n_cols > OFF_OP1, rc_rows(a, b, h)
    ensures fillers(b, a.nr(), n1, mh, h)
{
    let n0 = a.nr();
    lemma_first(a, n1, mh, h); lemma_grown(a, b, h.len() as int / 3, n0, n1, mh, h);
    assert forall|r: int| n0 - 1 <= r < b.nr() implies #[trigger] filler(b, r, n0, n1, mh, h) by { if r >= n0 {
        let i = r - n0;
        assert(blank(b, r)) by { assert forall|c: int| 0 <= c < b.n_cols && plain(c) implies (#[trigger] b.cell(r, c))@ == 0 by { assert(b.cell(a.nr() + i, c)@ == 0); } }
        assert forall|k: int| 0 <= k < 3 implies #[trigger] off_cell(b, r, k, n0, h) by { assert(b.cell(a.nr() + i, OFF_DST + k) == h[3 * i + k]); assert(member(h, h[3 * i + k])); }
        assert forall|k: int| 0 <= k < 4 implies #[trigger] mem_cell(b, r, k, n0, n1, mh) by { assert(b.cell(a.nr() + i, FRAME_PC + k)@ == 0); assert(b.cell(a.nr() + i, FRAME_INST + k)@ == 0); assert(no_access(b, r, k)); }
    } }
}
pub proof fn lemma_hole_rows(a: TraceTable, b: TraceTable, n0: int, mh: Seq<FE>, rh: Seq<FE>) requires fillers(a, n0, a.nr(), mh, rh), hole_rows(a, b, mh)
    ensures fillers(b, n0, a.nr(), mh, rh)
{
    let n1 = a.nr(); let d = (mh.len() as int + 3) / 4;
    lemma_grown(a, b, d, n0, n1, mh, rh);
    assert(filler(b, n1 - 1, n0, n1, mh, rh));
    assert forall|r: int| n0 - 1 <= r < b.nr() implies #[trigger] filler(b, r, n0, n1, mh, rh) by { if r >= n1 {
        let i = r - n1;
        assert forall|c: int| 0 <= c < b.n_cols && !(FRAME_PC <= c <= FRAME_OP1) implies #[trigger] b.cell(r, c) == b.cell(n1 - 1, c) by { assert(b.cell(a.nr() + i, c) == a.cell(a.nr() - 1, c)); assert(b.cell(n1 - 1, c) == a.cell(n1 - 1, c)); }
        assert forall|k: int| 0 <= k < 4 implies #[trigger] mem_cell(b, r, k, n0, n1, mh) by {
            assert(mem_cell(b, n1 - 1, k, n0, n1, mh)); assert(!fills(b, n1 - 1, k, n1, mh));
            assert(b.cell(a.nr() + i, FRAME_PC + k) == (if 4 * i + k < mh.len() { mh[4 * i + k] } else { a.cell(a.nr() - 1, FRAME_PC + k) }));
            assert(b.cell(a.nr() + i, FRAME_INST + k) == a.cell(a.nr() - 1, FRAME_INST + k));
            assert(b.cell(n1 - 1, FRAME_PC + k) == a.cell(n1 - 1, FRAME_PC + k)); assert(b.cell(n1 - 1, FRAME_INST + k) == a.cell(n1 - 1, FRAME_INST + k));
            if 4 * i + k < mh.len() { assert(fills(b, r, k, n1, mh)); } else if no_access(b, n1 - 1, k) { assert(no_access(b, r, k)); } else { assert(last_access(b, r, k, n0)); }
        }
        lemma_like(b, n1 - 1, r, n0, n1, mh, rh);
    } }
}
pub proof fn lemma_dummy_rows(a: TraceTable, b: TraceTable, d: int, n0: int, n1: int, mh: Seq<FE>, rh: Seq<FE>) requires fillers(a, n0, n1, mh, rh), dummy_rows(a, b, d), d >= 0
    ensures fillers(b, n0, n1, mh, rh), forall|r: int, c: int| a.nr() <= r < b.nr() && FRAME_PC <= c <= FRAME_OP1 ==> (#[trigger] b.cell(r, c))@ == 0
{
    let q = a.nr() - 1;
    lemma_grown(a, b, d, n0, n1, mh, rh);
    assert(filler(b, q, n0, n1, mh, rh));
    assert forall|r: int, c: int| a.nr() <= r < b.nr() && FRAME_PC <= c <= FRAME_OP1 implies (#[trigger] b.cell(r, c))@ == 0 by { let i = r - a.nr(); assert(b.cell(a.nr() + i, c)@ == 0); }
    assert forall|r: int| n0 - 1 <= r < b.nr() implies #[trigger] filler(b, r, n0, n1, mh, rh) by { if r >= a.nr() {
        let i = r - a.nr();
        assert forall|c: int| 0 <= c < b.n_cols && !(FRAME_PC <= c <= FRAME_OP1) implies #[trigger] b.cell(r, c) == b.cell(q, c) by { assert(b.cell(a.nr() + i, c) == a.cell(a.nr() - 1, c)); assert(b.cell(q, c) == a.cell(q, c)); }
        assert forall|k: int| 0 <= k < 4 implies #[trigger] mem_cell(b, r, k, n0, n1, mh) by { assert(b.cell(r, FRAME_PC + k)@ == 0 && b.cell(r, FRAME_INST + k)@ == 0); assert(no_access(b, r, k)); }
        lemma_like(b, q, r, n0, n1, mh, rh);
    } }
}
/// Copies of a row without accesses.
pub proof fn lemma_copy_rows(a: TraceTable, b: TraceTable, d: int, n0: int, n1: int, mh: Seq<FE>, rh: Seq<FE>) requires fillers(a, n0, n1, mh, rh), copy_rows(a, b, d), d >= 0, forall|c: int| FRAME_PC <= c <= FRAME_OP1 ==> (#[trigger] a.cell(a.nr() - 1, c))@ == 0
    ensures fillers(b, n0, n1, mh, rh), forall|r: int, c: int| a.nr() <= r < b.nr() && FRAME_PC <= c <= FRAME_OP1 ==> (#[trigger] b.cell(r, c))@ == 0
{
    assert forall|i: int, c: int| 0 <= i < d && FRAME_PC <= c <= FRAME_OP1 implies (#[trigger] b.cell(a.nr() + i, c))@ == 0 by { assert(b.cell(a.nr() + i, c) == a.cell(a.nr() - 1, c)); }
    assert(dummy_rows(a, b, d));
    lemma_dummy_rows(a, b, d, n0, n1, mh, rh);
}
/// The rows from n1 on hold the holes, four in a row, and those from n0 on the missing offsets, three in a row.
pub open spec fn hole_at(t: TraceTable, n1: int, mh: Seq<FE>, j: int) -> bool { n1 + j / 4 < t.nr() && mh[j] == addr(t, n1 + j / 4, j % 4) }
pub open spec fn holes_placed(t: TraceTable, n1: int, mh: Seq<FE>) -> bool { n1 >= 0 && forall|j: int| 0 <= j < mh.len() ==> #[trigger] hole_at(t, n1, mh, j) }
pub open spec fn rc_at(t: TraceTable, n0: int, rh: Seq<FE>, j: int) -> bool { n0 + j / 3 < t.nr() && rh[j] == offs(t, n0 + j / 3, j % 3) }
pub open spec fn rc_placed(t: TraceTable, n0: int, rh: Seq<FE>) -> bool { n0 >= 0 && forall|j: int| 0 <= j < rh.len() ==> #[trigger] rc_at(t, n0, rh, j) }
pub proof fn lemma_placed_grown(a: TraceTable, b: TraceTable, d: int, n0: int, n1: int, mh: Seq<FE>, rh: Seq<FE>) requires grows(a, b, d), d >= 0, a.n_cols > OFF_OP1
    ensures rc_placed(a, n0, rh) ==> rc_placed(b, n0, rh), holes_placed(a, n1, mh) ==> holes_placed(b, n1, mh)
{
    if rc_placed(a, n0, rh) { assert forall|j: int| 0 <= j < rh.len() implies #[trigger] rc_at(b, n0, rh, j) by { assert(rc_at(a, n0, rh, j)); let (r, k) = (n0 + j / 3, j % 3); assert(b.cell(r, OFF_DST + k) == a.cell(r, OFF_DST + k)); } }
    if holes_placed(a, n1, mh) { assert forall|j: int| 0 <= j < mh.len() implies #[trigger] hole_at(b, n1, mh, j) by { assert(hole_at(a, n1, mh, j)); let (r, k) = (n1 + j / 4, j % 4); assert(b.cell(r, FRAME_PC + k) == a.cell(r, FRAME_PC + k)); } }
}
pub proof fn lemma_rc_placed(a: TraceTable, b: TraceTable, h: Seq<FE>) requires rc_rows(a, b, h), a.nr() >= 0 ensures rc_placed(b, a.nr(), h)
{ assert forall|j: int| 0 <= j < h.len() implies #[trigger] rc_at(b, a.nr(), h, j) by { let (i, k) = (j / 3, j % 3); assert(b.cell(a.nr() + i, OFF_DST + k) == h[3 * i + k]); } }
pub proof fn lemma_holes_placed(a: TraceTable, b: TraceTable, h: Seq<FE>) requires hole_rows(a, b, h), a.nr() >= 0 ensures holes_placed(b, a.nr(), h)
{ assert forall|j: int| 0 <= j < h.len() implies #[trigger] hole_at(b, a.nr(), h, j) by { let (i, k) = (j / 4, j % 4); assert(i < (h.len() as int + 3) / 4); assert(b.cell(a.nr() + i, FRAME_PC + k) == (if 4 * i + k < h.len() { h[4 * i + k] } else { a.cell(a.nr() - 1, FRAME_PC + k) })); } }
pub proof fn lemma_grows_trans(a: TraceTable, b: TraceTable, c: TraceTable, d: int, e: int) requires grows(a, b, d), grows(b, c, e), d >= 0, e >= 0 ensures grows(a, c, d + e)
{ assert forall|r: int, k: int| 0 <= r < a.nr() && 0 <= k < a.n_cols implies #[trigger] c.cell(r, k) == a.cell(r, k) by { assert(b.cell(r, k) == a.cell(r, k)); assert(c.cell(r, k) == b.cell(r, k)); } }
pub open spec fn off_cols() -> Seq<usize> { seq![OFF_DST, OFF_OP0, OFF_OP1] }
/// The offsets are exactly the values from lo to hi.
pub open spec fn continuous(t: TraceTable, lo: int, hi: int) -> bool { forall|v: int| in_use(t, off_cols(), v) == (lo <= v <= hi) }
pub proof fn lemma_off_cell(t: TraceTable, r: int, k: int) requires 0 <= k < 3 ensures t.cell(r, off_cols()[k] as int) == offs(t, r, k) {}
pub proof fn lemma_continuous(t0: TraceTable, t: TraceTable, n1: int, mh: Seq<FE>, rh: Seq<FE>, lo: u16, hi: u16, m: int)
    requires t0.wf(), t0.nr() > 0, t0.n_cols > OFF_OP1, t.nr() >= t0.nr(), grows(t0, t, t.nr() - t0.nr()), fillers(t, t0.nr(), n1, mh, rh), rc_placed(t, t0.nr(), rh), lo <= hi,
        in_use(t0, off_cols(), lo as int), in_use(t0, off_cols(), hi as int), forall|v: int| in_use(t0, off_cols(), v) ==> lo <= v <= hi, 0 <= m <= rh.len(), missing_then_max(t0, off_cols(), rh, lo as int, hi as int, m)
    ensures continuous(t, lo as int, hi as int)
{
    broadcast use axiom_P;
    let n0 = t0.nr();
    assert forall|v: int| in_use(t0, off_cols(), v) implies in_use(t, off_cols(), v) by {
        let (r, k) = choose|r: int, k: int| 0 <= r < t0.nr() && 0 <= k < off_cols().len() && off16(#[trigger] t0.cell(r, off_cols()[k] as int)) == v;
        assert(t.cell(r, off_cols()[k] as int) == t0.cell(r, off_cols()[k] as int)); }
    assert forall|j: int| 0 <= j < rh.len() implies lo <= (#[trigger] rh[j])@ <= hi && off16(rh[j]) == rh[j]@ by { assert(lo <= rh[j]@ <= hi) by { if j >= m { assert(rh[j]@ == hi); } } vstd::arithmetic::div_mod::lemma_small_mod(rh[j]@ as nat, P() as nat); }
    assert forall|v: int| lo <= v <= hi implies in_use(t, off_cols(), v) by {
        if !in_use(t0, off_cols(), v) {
            assert(lo < v < hi);
            let j = choose|j: int| 0 <= j < m && (#[trigger] rh[j])@ == v;
            let (r, k) = (n0 + j / 3, j % 3);
            assert(rc_at(t, n0, rh, j)); lemma_off_cell(t, r, k);
            assert(off16(t.cell(r, off_cols()[k] as int)) == v);
        } }
    assert forall|v: int| in_use(t, off_cols(), v) implies lo <= v <= hi by {
        let (r, k) = choose|r: int, k: int| 0 <= r < t.nr() && 0 <= k < off_cols().len() && off16(#[trigger] t.cell(r, off_cols()[k] as int)) == v;
        lemma_off_cell(t, r, k);
        if r >= n0 {
            assert(filler(t, r, n0, n1, mh, rh)); assert(off_cell(t, r, k, n0, rh));
            if offs(t, r, k) == offs(t, n0 - 1, k) { lemma_off_cell(t, n0 - 1, k); lemma_off_cell(t0, n0 - 1, k); assert(t.cell(n0 - 1, OFF_DST + k) == t0.cell(n0 - 1, OFF_DST + k)); assert(off16(t0.cell(n0 - 1, off_cols()[k] as int)) == v); assert(in_use(t0, off_cols(), v)); }
        } else { assert(t.cell(r, off_cols()[k] as int) == t0.cell(r, off_cols()[k] as int)); assert(in_use(t0, off_cols(), v)); }
    }
}
/// v lies between two addresses reached.
pub open spec fn between(t: TraceTable, n0: int, p: PublicInputs, v: int) -> bool { exists|lo: int, hi: int| #[trigger] reached(t, n0, p, lo) && #[trigger] reached(t, n0, p, hi) && lo < v < hi }
/// mh lists the addresses that the first n0 rows and the public memory skip, in order.
pub open spec fn skips(t: TraceTable, n0: int, p: PublicInputs, mh: Seq<FE>) -> bool {
    (forall|j: int| 0 <= j < mh.len() ==> rep(#[trigger] mh[j]) > 0 && !reached(t, n0, p, rep(mh[j])) && between(t, n0, p, rep(mh[j])))
    && (forall|i: int, j: int| 0 <= i < j < mh.len() ==> rep(mh[i]) < rep(mh[j]))
    && forall|lo: int, v: int, hi: int| #[trigger] reached(t, n0, p, lo) && #[trigger] reached(t, n0, p, hi) && lo < v < hi && !#[trigger] reached(t, n0, p, v) ==> listed(mh, v)
}
pub proof fn lemma_same_list(a: Seq<FE>, b: Seq<FE>, v: int) requires a.to_multiset() == b.to_multiset(), listed(a, v) ensures listed(b, v)
{ a.to_multiset_ensures(); b.to_multiset_ensures(); let i = choose|i: int| 0 <= i < a.len() && rep(#[trigger] a[i]) == v; assert(a.contains(a[i])); assert(a.to_multiset().count(a[i]) > 0); assert(b.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(rep(b[j]) == v); }
pub open spec fn gathered(t: TraceTable, g: Seq<FE>) -> bool { g.len() == t.nr() * 4 && forall|r: int, k: int| 0 <= r < t.nr() && 0 <= k < 4 ==> g[r * 4 + k] == #[trigger] addr(t, r, k) }
pub proof fn lemma_listed_reached(t: TraceTable, g: Seq<FE>, ks: Seq<FE>, p: PublicInputs, v: int) requires t.nr() >= 0, gathered(t, g), keys_of(ks, p.public_memory@) ensures listed(g + ks, v) == reached(t, t.nr(), p, v)
{
    let l = g + ks;
    if touched(t, t.nr(), v) { let (r, k) = choose|r: int, k: int| 0 <= r < t.nr() && 0 <= k < 4 && rep(#[trigger] addr(t, r, k)) == v; lemma_idx(r, k, t.nr(), 4); assert(rep(l[r * 4 + k]) == v); }
    if p.public_memory@.dom().contains(v) { let i = choose|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).k() == v; assert(rep(l[g.len() + i]) == v); }
    if listed(l, v) {
        let i = choose|i: int| 0 <= i < l.len() && rep(#[trigger] l[i]) == v;
        if i < g.len() { let (r, k) = (i / 4, i % 4); assert(g[r * 4 + k] == addr(t, r, k)); assert(touched(t, t.nr(), v)); } else { assert(ks[i - g.len()].k() == v); }
    }
}
pub proof fn lemma_skips(t: TraceTable, g: Seq<FE>, ks: Seq<FE>, s: Seq<FE>, p: PublicInputs, mh: Seq<FE>)
    requires t.nr() >= 0, gathered(t, g), keys_of(ks, p.public_memory@), s.to_multiset() == (g + ks).to_multiset(), sorted_reps(s), s.len() > 0,
        forall|i: int| 0 <= i < mh.len() ==> rep(s[0]) < rep(#[trigger] mh[i]) < rep(s.last()) && !listed(s, rep(mh[i])),
        forall|v: int| rep(s[0]) < v < rep(s.last()) && v > 0 && !listed(s, v) ==> #[trigger] listed(mh, v),
        forall|i: int, j: int| 0 <= i < j < mh.len() ==> rep(mh[i]) < rep(mh[j]),
    ensures skips(t, t.nr(), p, mh)
{
    broadcast use axiom_P;
    let n0 = t.nr();
    assert forall|v: int| #[trigger] listed(s, v) == reached(t, n0, p, v) by { lemma_listed_reached(t, g, ks, p, v); if listed(s, v) { lemma_same_list(s, g + ks, v); } if listed(g + ks, v) { lemma_same_list(g + ks, s, v); } }
    assert forall|j: int| 0 <= j < mh.len() implies rep(#[trigger] mh[j]) > 0 && !reached(t, n0, p, rep(mh[j])) && between(t, n0, p, rep(mh[j])) by { assert(rep(s[0]) >= 0); assert(!listed(s, rep(mh[j]))); let (lo, hi) = (rep(s[0]), rep(s.last())); assert(listed(s, lo) && listed(s, hi)); assert(reached(t, n0, p, lo) && reached(t, n0, p, hi)); }
    assert forall|lo: int, v: int, hi: int| #[trigger] reached(t, n0, p, lo) && #[trigger] reached(t, n0, p, hi) && lo < v < hi && !#[trigger] reached(t, n0, p, v) implies listed(mh, v) by {
        assert(listed(s, lo) && listed(s, hi) && !listed(s, v));
        let i = choose|i: int| 0 <= i < s.len() && rep(#[trigger] s[i]) == lo; let j = choose|j: int| 0 <= j < s.len() && rep(#[trigger] s[j]) == hi;
        assert(rep(s[0]) <= rep(s[i])); assert(rep(s[j]) <= rep(s.last())); assert(rep(s[i]) >= 0);
    }
}
pub proof fn lemma_reached_grown(a: TraceTable, b: TraceTable, d: int, p: PublicInputs, mh: Seq<FE>) requires grows(a, b, d), d >= 0, a.n_cols > OFF_OP1, skips(a, a.nr(), p, mh) ensures skips(b, a.nr(), p, mh)
{
    let n0 = a.nr();
    assert forall|v: int| #[trigger] reached(b, n0, p, v) == reached(a, n0, p, v) by {
        if touched(a, n0, v) { let (r, k) = choose|r: int, k: int| 0 <= r < n0 && 0 <= k < 4 && rep(#[trigger] addr(a, r, k)) == v; assert(rep(addr(b, r, k)) == v); }
        if touched(b, n0, v) { let (r, k) = choose|r: int, k: int| 0 <= r < n0 && 0 <= k < 4 && rep(#[trigger] addr(b, r, k)) == v; assert(b.cell(r, FRAME_PC + k) == a.cell(r, FRAME_PC + k)); assert(rep(addr(a, r, k)) == v); }
    }
    assert forall|j: int| 0 <= j < mh.len() implies rep(#[trigger] mh[j]) > 0 && !reached(b, n0, p, rep(mh[j])) && between(b, n0, p, rep(mh[j])) by { let v = rep(mh[j]); assert(!reached(a, n0, p, v) && between(a, n0, p, v)); let (lo, hi) = choose|lo: int, hi: int| #[trigger] reached(a, n0, p, lo) && #[trigger] reached(a, n0, p, hi) && lo < v < hi; assert(reached(b, n0, p, lo) && reached(b, n0, p, hi)); }
    assert forall|lo: int, v: int, hi: int| #[trigger] reached(b, n0, p, lo) && #[trigger] reached(b, n0, p, hi) && lo < v < hi && !#[trigger] reached(b, n0, p, v) implies listed(mh, v) by { assert(reached(a, n0, p, lo) && reached(a, n0, p, hi) && !reached(a, n0, p, v)); }
}
/// Strictly ascending representatives below a bound are at most that many.
pub proof fn lemma_ascending(h: Seq<FE>, b: int, n: int) requires 0 < n <= h.len(), forall|i: int, j: int| 0 <= i < j < h.len() ==> rep(h[i]) < rep(h[j]) ensures rep(h[n - 1]) >= n - 1 decreases n
{ broadcast use axiom_P; if n > 1 { lemma_ascending(h, b, n - 1); assert(rep(h[n - 2]) < rep(h[n - 1])); } else { assert(rep(h[0]) >= 0); } }
/// The table has this shape.
pub open spec fn shape(t: TraceTable, n: int, w: int) -> bool { t.wf() && t.nr() == n && t.n_cols == w }
/// One stage after another: the recorded rows, range-check holes, memory holes, dummy accesses, copies.
pub open spec fn staged(t0: TraceTable, t1: TraceTable, t2: TraceTable, t3: TraceTable, t4: TraceTable, mh: Seq<FE>, rh: Seq<FE>, d: int, e: int) -> bool {
    t0.wf() && t0.nr() >= 1 && t0.n_cols > OFF_OP1 && rc_rows(t0, t1, rh) && hole_rows(t1, t2, mh) && d >= 1 && dummy_rows(t2, t3, d) && e >= 0 && copy_rows(t3, t4, e)
}
pub proof fn lemma_no_holes(t: TraceTable, mh: Seq<FE>) requires t.wf(), mh.len() == 0 ensures hole_rows(t, t, mh) {}
pub proof fn lemma_staged(t0: TraceTable, t1: TraceTable, t2: TraceTable, t3: TraceTable, t4: TraceTable, mh: Seq<FE>, rh: Seq<FE>, d: int, e: int) requires staged(t0, t1, t2, t3, t4, mh, rh, d, e)
    ensures fillers(t4, t0.nr(), t1.nr(), mh, rh), rc_placed(t4, t0.nr(), rh), holes_placed(t4, t1.nr(), mh), t4.nr() >= t0.nr(), grows(t0, t4, t4.nr() - t0.nr()), t0.nr() <= t1.nr() <= t2.nr(), t4.nr() - t2.nr() >= d,
        forall|r: int, c: int| t2.nr() <= r < t4.nr() && FRAME_PC <= c <= FRAME_OP1 ==> (#[trigger] t4.cell(r, c))@ == 0
{
    let (n0, n1) = (t0.nr(), t1.nr()); let (a, b) = (rh.len() as int / 3, (mh.len() as int + 3) / 4);
    lemma_rc_rows(t0, t1, n1, mh, rh); lemma_rc_placed(t0, t1, rh);
    lemma_hole_rows(t1, t2, n0, mh, rh); lemma_holes_placed(t1, t2, mh); lemma_placed_grown(t1, t2, b, n0, n1, Seq::empty(), rh);
    lemma_dummy_rows(t2, t3, d, n0, n1, mh, rh); lemma_placed_grown(t2, t3, d, n0, n1, mh, rh);
    lemma_copy_rows(t3, t4, e, n0, n1, mh, rh); lemma_placed_grown(t3, t4, e, n0, n1, mh, rh);
    lemma_grows_trans(t0, t1, t2, a, b); lemma_grows_trans(t0, t2, t3, a + b, d); lemma_grows_trans(t0, t3, t4, a + b + d, e);
    assert forall|r: int, c: int| t2.nr() <= r < t4.nr() && FRAME_PC <= c <= FRAME_OP1 implies (#[trigger] t4.cell(r, c))@ == 0 by { if r < t3.nr() { assert(t4.cell(r, c) == t3.cell(r, c)); assert(t3.cell(r, c)@ == 0); } }
}
