// ---- prelude: column polynomials --------------------------------------------------------------
/// p takes column c's values on the trace domain.
pub open spec fn interpolates(p: Seq<int>, t: &TraceTable, c: int) -> bool {
    forall|r: int| 0 <= r < t.nr() ==> congr(peval(p, ipow(omega(log2(t.nr())), r as nat)), (#[trigger] t.cell(r, c))@)
}
