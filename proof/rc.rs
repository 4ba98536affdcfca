// ---- shared: values in use in the range-checked columns -----------------------------------------
/// The 16-bit value of a cell.
pub open spec fn off16(x: FE) -> int { rep(x) % 0x1_0000 }
/// Some row of one of the columns holds v.
pub open spec fn in_use(t: TraceTable, cols: Seq<usize>, v: int) -> bool {
    exists|r: int, k: int| 0 <= r < t.nr() && 0 <= k < cols.len() && off16(#[trigger] t.cell(r, cols[k] as int)) == v
}
/// The first m entries are, in order, the values strictly between lo and hi that are not in use; the rest repeat hi.
pub open spec fn missing_then_max(t: TraceTable, cols: Seq<usize>, a: Seq<FE>, lo: int, hi: int, m: int) -> bool {
    (forall|i: int| 0 <= i < m ==> lo < (#[trigger] a[i])@ < hi && !in_use(t, cols, a[i]@))
        && (forall|i: int, j: int| 0 <= i < j < m ==> a[i]@ < a[j]@)
        && (forall|v: int| lo < v < hi && !in_use(t, cols, v) ==> exists|i: int| 0 <= i < m && (#[trigger] a[i])@ == v)
        && (forall|i: int| m <= i < a.len() ==> (#[trigger] a[i])@ == hi)
}
/// The product of (z - s[k]) over k < n.
pub open spec fn gap_prod(z: int, s: Seq<FE>, n: int) -> int decreases n { if n <= 0 { 1 } else { gap_prod(z, s, n - 1) * (z - s[n - 1]@) } }
