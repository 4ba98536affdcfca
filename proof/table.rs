// ---- shared: row-major tables ---------------------------------------------------------------
impl TraceTable {
    pub open spec fn wf(&self) -> bool { self.n_cols > 0 && self.table.len() as int == self.nr() * self.n_cols }
    pub open spec fn nr(&self) -> int { self.table@.len() as int / self.n_cols as int }
    pub open spec fn cell(&self, r: int, c: int) -> FE { gcell(self.table@, self.n_cols as int, r, c) }
}
pub proof fn lemma_idx(r: int, c: int, rows: int, cols: int)
    requires 0 <= r < rows, 0 <= c < cols
    ensures 0 <= r * cols + c < rows * cols, r * cols + cols <= rows * cols, 0 <= r * cols
{ assert(r * cols + cols <= rows * cols) by (nonlinear_arith) requires r < rows, 0 <= cols; assert(0 <= r * cols) by (nonlinear_arith) requires 0 <= r, 0 <= cols; }
/// Exact multiples divide back.
pub proof fn lemma_rows(rows: int, cols: int) requires cols > 0, 0 <= rows ensures (rows * cols) / cols == rows
{ vstd::arithmetic::div_mod::lemma_div_multiples_vanish(rows, cols); assert(rows * cols == cols * rows) by (nonlinear_arith); }
pub open spec fn gcell(t: Seq<FE>, n: int, r: int, k: int) -> FE { t[r * n + k] }
/// t holds g's rows 0..row completely and the first j cells of row `row`.
pub open spec fn filled(t: Seq<FE>, n: int, row: int, j: int, g: spec_fn(int, int) -> FE) -> bool {
    t.len() == row * n + j && 0 <= j <= n && 0 <= row
    && forall|r: int, k: int| (0 <= r < row && 0 <= k < n || r == row && 0 <= k < j) ==> #[trigger] gcell(t, n, r, k) == g(r, k)
}
pub proof fn lemma_push(t: Seq<FE>, n: int, row: int, j: int, g: spec_fn(int, int) -> FE, x: FE)
    requires filled(t, n, row, j, g), j < n, x == g(row, j)
    ensures filled(t.push(x), n, row, j + 1, g)
{
    assert forall|r: int, k: int| (0 <= r < row && 0 <= k < n || r == row && 0 <= k < j + 1) implies #[trigger] gcell(t.push(x), n, r, k) == g(r, k) by {
        if r < row { lemma_idx(r, k, row, n); assert(gcell(t, n, r, k) == g(r, k)); } else if k < j { assert(0 <= row * n) by (nonlinear_arith) requires 0 <= row, 0 <= n; assert(gcell(t, n, r, k) == g(r, k)); }
    }
}
pub proof fn lemma_next_row(t: Seq<FE>, n: int, row: int, g: spec_fn(int, int) -> FE)
    requires filled(t, n, row, n, g)
    ensures filled(t, n, row + 1, 0, g)
{ assert((row + 1) * n == row * n + n) by (nonlinear_arith); }
/// Appends a whole run of cells of the current row.
pub proof fn lemma_append(t: Seq<FE>, n: int, row: int, j: int, g: spec_fn(int, int) -> FE, xs: Seq<FE>)
    requires filled(t, n, row, j, g), j + xs.len() <= n, forall|k: int| 0 <= k < xs.len() ==> #[trigger] xs[k] == g(row, j + k)
    ensures filled(t + xs, n, row, j + xs.len(), g)
    decreases xs.len()
{
    if xs.len() == 0 { assert(t + xs =~= t); } else {
        assert(t + xs =~= t.push(xs[0]) + xs.drop_first());
        assert(xs[0] == g(row, j + 0));
        lemma_push(t, n, row, j, g, xs[0]);
        assert forall|k: int| 0 <= k < xs.drop_first().len() implies #[trigger] xs.drop_first()[k] == g(row, j + 1 + k) by { assert(xs[k + 1] == g(row, j + (k + 1))); }
        lemma_append(t.push(xs[0]), n, row, j + 1, g, xs.drop_first());
    }
}
/// b is a with k rows appended.
pub open spec fn grows(a: TraceTable, b: TraceTable, k: int) -> bool {
    b.wf() && b.n_cols == a.n_cols && b.nr() == a.nr() + k && forall|r: int, c: int| 0 <= r < a.nr() && 0 <= c < a.n_cols ==> #[trigger] b.cell(r, c) == a.cell(r, c)
}
/// k more rows of n cells fit in memory after len cells.
pub open spec fn room(len: int, k: int, n: int) -> bool { len + k * n <= usize::MAX }
/// c consists of these columns of t.
pub open spec fn picks(c: TraceTable, t: TraceTable, columns: Seq<usize>) -> bool {
    c.n_cols == columns.len() && c.table@.len() == t.nr() * columns.len()
    && forall|r: int, k: int| 0 <= r < t.nr() && 0 <= k < columns.len() ==> #[trigger] c.cell(r, k) == t.cell(r, columns[k] as int)
}
/// The row a frame row is read from.
pub open spec fn mstep(step: int, o: int, b: int, n: int) -> int { (step + o * b) % n }
