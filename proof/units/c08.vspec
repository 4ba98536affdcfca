//@ include fe.rs
//@ include num.rs
//@ item starks/trace.rs TraceTable
//@ item starks/frame.rs Frame
//@ include table.rs
//@ raw
//@ fn starks/trace.rs TraceTable::new
ensures ret.table == table, ret.n_cols == n_cols,
//@ fn starks/trace.rs TraceTable::empty
ensures ret.table@.len() == 0, ret.n_cols == 0,
//@ fn starks/trace.rs TraceTable::is_empty
ensures ret == (self.n_cols == 0),
//@ fn starks/trace.rs TraceTable::n_rows
ensures self.n_cols > 0 ==> ret == self.nr(), self.n_cols == 0 ==> ret == 0,
//@ raw
proof fn lemma_self_bound(t: &TraceTable) requires t.wf() ensures t.table@.len() == t.nr() * t.n_cols, t.table@.len() <= usize::MAX, t.nr() >= 0, t.nr() <= t.table@.len()
{ assert(t.table.len() as int == t.table@.len()); vstd::arithmetic::div_mod::lemma_div_nonincreasing(t.table@.len() as int, t.n_cols as int); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(t.table@.len() as int, t.n_cols as int); }
//@ fn starks/trace.rs TraceTable::get_cols {"byval": ["columns"]}
requires self.wf(), forall|i: int| 0 <= i < columns@.len() ==> (#[trigger] columns@[i]) < self.n_cols,
ensures picks(ret, *self, columns@),
//@ bodystart
let ghost g = |r: int, k: int| self.cell(r, columns@[k] as int);
proof { lemma_self_bound(self); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == self.nr(), filled(table@, columns@.len() as int, vi_0 as int, 0, g),
decreases vn_0 - vi_0
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == columns@.len(), vi_0 == vj_0 + 1, filled(table@, columns@.len() as int, vj_0 as int, vi_1 as int, g),
decreases vn_1 - vi_1
//@ loopstart 1
proof { lemma_idx(vj_0 as int, columns@[vi_1 as int] as int, self.nr(), self.n_cols as int); lemma_push(table@, columns@.len() as int, vj_0 as int, vi_1 as int, g, g(vj_0 as int, vi_1 as int)); }
//@ after 1
proof { lemma_next_row(table@, columns@.len() as int, vj_0 as int, g); }
//@ fn starks/trace.rs TraceTable::get_row
requires self.wf(), row_idx < self.nr(),
ensures ret@.len() == self.n_cols, forall|c: int| 0 <= c < self.n_cols ==> #[trigger] ret@[c] == self.cell(row_idx as int, c),
//@ bodystart
proof { lemma_self_bound(self); lemma_idx(row_idx as int, 0, self.nr(), self.n_cols as int); }
//@ fn starks/trace.rs TraceTable::last_row
requires self.wf(), self.nr() > 0,
ensures ret@.len() == self.n_cols, forall|c: int| 0 <= c < self.n_cols ==> #[trigger] ret@[c] == self.cell(self.nr() - 1, c),
//@ fn starks/trace.rs TraceTable::get
requires self.wf(), step < self.nr(), col < self.n_cols,
ensures ret == self.cell(step as int, col as int),
//@ bodystart
proof { lemma_self_bound(self); lemma_idx(step as int, col as int, self.nr(), self.n_cols as int); }
//@ fn starks/trace.rs TraceTable::rows {"types": {"vo_0": "Vec<Vec<FE>>"}}
requires self.wf(),
ensures ret@.len() == self.nr(), forall|r: int| 0 <= r < self.nr() ==> (#[trigger] ret@[r])@.len() == self.n_cols,
    forall|r: int, c: int| 0 <= r < self.nr() && 0 <= c < self.n_cols ==> #[trigger] ret@[r]@[c] == self.cell(r, c),
//@ bodystart
proof { lemma_self_bound(self); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == self.nr(), vo_0@.len() == vi_0, forall|r: int| 0 <= r < vi_0 ==> (#[trigger] vo_0@[r])@.len() == self.n_cols,
    forall|r: int, c: int| 0 <= r < vi_0 && 0 <= c < self.n_cols ==> #[trigger] vo_0@[r]@[c] == self.cell(r, c),
decreases vn_0 - vi_0
//@ loopstart 0
proof { lemma_idx(vi_0 as int, 0, self.nr(), self.n_cols as int); }
//@ fn starks/trace.rs TraceTable::cols {"types": {"vo_0": "Vec<Vec<FE>>", "vo_1": "Vec<FE>"}}
requires self.wf(),
ensures ret@.len() == self.n_cols, forall|c: int| 0 <= c < self.n_cols ==> (#[trigger] ret@[c])@.len() == self.nr(),
    forall|c: int, r: int| 0 <= r < self.nr() && 0 <= c < self.n_cols ==> #[trigger] ret@[c]@[r] == self.cell(r, c),
//@ bodystart
proof { lemma_self_bound(self); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == self.n_cols, vo_0@.len() == vi_0, forall|c: int| 0 <= c < vi_0 ==> (#[trigger] vo_0@[c])@.len() == self.nr(),
    forall|c: int, r: int| 0 <= r < self.nr() && 0 <= c < vi_0 ==> #[trigger] vo_0@[c]@[r] == self.cell(r, c),
decreases vn_0 - vi_0
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == self.nr(), vo_1@.len() == vi_1, vi_0 == vj_0 + 1, vj_0 < vn_0, vn_0 == self.n_cols, vo_0@.len() == vj_0,
    forall|r: int| 0 <= r < vi_1 ==> #[trigger] vo_1@[r] == self.cell(r, vj_0 as int),
decreases vn_1 - vi_1
//@ loopstart 1
proof { lemma_idx(vi_1 as int, vj_0 as int, self.nr(), self.n_cols as int); }
//@ fn starks/trace.rs TraceTable::new_from_cols
requires cols@.len() > 0, forall|i: int| 0 <= i < cols@.len() ==> (#[trigger] cols@[i])@.len() == cols@[0]@.len(),
    cols@.len() * cols@[0]@.len() <= usize::MAX,
ensures ret.n_cols == cols@.len(), ret.table@.len() == cols@[0]@.len() * cols@.len(), ret.wf(), ret.nr() == cols@[0]@.len(),
    forall|r: int, c: int| 0 <= r < cols@[0]@.len() && 0 <= c < cols@.len() ==> #[trigger] ret.cell(r, c) == cols@[c]@[r],
//@ bodystart
let ghost g = |r: int, k: int| cols@[k]@[r];
proof { lemma_rows(cols@[0]@.len() as int, cols@.len() as int); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == cols@[0]@.len(), filled(table@, cols@.len() as int, vi_0 as int, 0, g),
decreases vn_0 - vi_0
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == cols@.len(), vi_0 == vj_0 + 1, filled(table@, cols@.len() as int, vj_0 as int, vi_1 as int, g),
decreases vn_1 - vi_1
//@ loopstart 1
proof { lemma_push(table@, cols@.len() as int, vj_0 as int, vi_1 as int, g, g(vj_0 as int, vi_1 as int)); }
//@ after 1
proof { lemma_next_row(table@, cols@.len() as int, vj_0 as int, g); }
//@ fn starks/trace.rs TraceTable::concatenate {"types": {"new_table": "Vec<FE>"}}
requires self.wf(), new_cols@.len() == self.nr() * n_cols, self.n_cols + n_cols <= usize::MAX,
ensures ret.n_cols == self.n_cols + n_cols, ret.table@.len() == self.nr() * (self.n_cols + n_cols), ret.wf(), ret.nr() == self.nr(),
    forall|r: int, c: int| 0 <= r < self.nr() && 0 <= c < self.n_cols ==> #[trigger] ret.cell(r, c) == self.cell(r, c),
    forall|r: int, c: int| 0 <= r < self.nr() && self.n_cols <= c < self.n_cols + n_cols ==> #[trigger] ret.cell(r, c) == gcell(new_cols@, n_cols as int, r, c - self.n_cols),
//@ bodystart
let ghost g = |r: int, c: int| if c < self.n_cols { self.cell(r, c) } else { gcell(new_cols@, n_cols as int, r, c - self.n_cols) };
let ghost w = self.n_cols + n_cols;
proof { lemma_self_bound(self); lemma_rows(self.nr(), w); assert(new_cols.len() == new_cols@.len()); }
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == self.nr(), i == vi_0 * n_cols, filled(new_table@, w, vi_0 as int, 0, g),
decreases vn_0 - vi_0
//@ before 0
proof { let (a, b) = (self.nr(), self.n_cols as int);
  assert((a * b + b - 1) / b == a) by (nonlinear_arith) requires b > 0, a >= 0; }
//@ loopstart 0
proof { lemma_idx(vi_0 as int, 0, self.nr(), self.n_cols as int);
  assert(vi_0 * n_cols + n_cols <= self.nr() * n_cols) by (nonlinear_arith) requires vi_0 < self.nr(), 0 <= n_cols;
  let (t, off) = (self.table@, (vi_0 * self.n_cols) as int);
  let a = t.subrange(off, off + self.n_cols); let b = new_cols@.subrange(i as int, i + n_cols);
  lemma_append(new_table@, w, vi_0 as int, 0, g, a);
  lemma_append(new_table@ + a, w, vi_0 as int, self.n_cols as int, g, b);
  lemma_next_row(new_table@ + a + b, w, vi_0 as int, g);
  assert((vi_0 + 1) * n_cols == vi_0 * n_cols + n_cols) by (nonlinear_arith); }
//@ include poly.rs
//@ include traces.rs
//@ fn starks/trace.rs TraceTable::compute_trace_polys {"types": {"vo_0": "Vec<Polynomial<FE>>", "ve_0": "Option<FFTError>"}}
requires self.wf(), is_pow2(self.nr()), log2(self.nr()) <= two_adicity(),
ensures ret@.len() == self.n_cols, forall|c: int| 0 <= c < self.n_cols ==> interpolates((#[trigger] ret@[c])@, self, c) && ret@[c]@.len() <= self.nr(),
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == self.n_cols, ve_0.is_none(), vo_0@.len() == vi_0, vsrc_0_0@.len() == self.n_cols,
    forall|c: int| 0 <= c < self.n_cols ==> (#[trigger] vsrc_0_0@[c])@.len() == self.nr(),
    forall|c: int, r: int| 0 <= r < self.nr() && 0 <= c < self.n_cols ==> #[trigger] vsrc_0_0@[c]@[r] == self.cell(r, c),
    forall|c: int| 0 <= c < vi_0 ==> interpolates((#[trigger] vo_0@[c])@, self, c) && vo_0@[c]@.len() <= self.nr(),
decreases vn_0 - vi_0
//@ loopend 0
proof { assert forall|r: int| 0 <= r < self.nr() implies congr(peval(vo_0@[vj_0 as int]@, ipow(omega(log2(self.nr())), r as nat)), (#[trigger] self.cell(r, vj_0 as int))@) by { assert(vsrc_0_0@[vj_0 as int]@[r] == self.cell(r, vj_0 as int)); } }
//@ fn starks/frame.rs Frame::new
ensures ret.data == data, ret.row_width == row_width,
//@ fn starks/frame.rs Frame::num_rows
requires self.row_width > 0,
ensures ret == self.data@.len() / self.row_width as nat,
//@ fn starks/frame.rs Frame::num_columns
ensures ret == self.row_width,
//@ fn starks/frame.rs Frame::has_shape
ensures ret == (self.row_width == num_columns && self.data@.len() == num_rows * num_columns),
//@ raw
//@ fn starks/frame.rs Frame::get_row
requires self.data.len() as int >= (row_idx + 1) * self.row_width,
ensures ret@.len() == self.row_width, forall|c: int| 0 <= c < self.row_width ==> #[trigger] ret@[c] == gcell(self.data@, self.row_width as int, row_idx as int, c),
//@ bodystart
proof { assert(self.data.len() as int == self.data@.len()); assert((row_idx + 1) * self.row_width == row_idx * self.row_width + self.row_width) by (nonlinear_arith); assert(0 <= row_idx * self.row_width) by (nonlinear_arith); }
//@ fn starks/frame.rs Frame::read_from_trace {"types": {"vo_0": "Vec<FE>"}}
requires trace.wf(), trace.nr() > 0, offsets@.len() * trace.n_cols <= usize::MAX,
    forall|i: int| 0 <= i < offsets@.len() ==> step + (#[trigger] offsets@[i]) * blowup <= usize::MAX,
ensures ret.row_width == trace.n_cols, ret.data@.len() == offsets@.len() * trace.n_cols,
    forall|k: int, c: int| 0 <= k < offsets@.len() && 0 <= c < trace.n_cols ==>
        #[trigger] gcell(ret.data@, trace.n_cols as int, k, c) == trace.cell(mstep(step as int, offsets@[k] as int, blowup as int, trace.nr()), c),
//@ bodystart
let ghost n = trace.n_cols as int;
let ghost g = |k: int, c: int| trace.cell(mstep(step as int, offsets@[k] as int, blowup as int, trace.nr()), c);
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == offsets@.len(), trace_steps == trace.nr(), filled(vo_0@, n, vi_0 as int, 0, g),
decreases vn_0 - vi_0
//@ loopstart 0
proof { assert(0 <= offsets@[vi_0 as int] * blowup) by (nonlinear_arith); assert(step + offsets@[vi_0 as int] * blowup <= usize::MAX); }
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == n, vsrc_1_0@.len() == n, vi_0 == vj_0 + 1, filled(vo_0@, n, vj_0 as int, vi_1 as int, g),
    forall|c: int| 0 <= c < n ==> #[trigger] vsrc_1_0@[c] == g(vj_0 as int, c),
decreases vn_1 - vi_1
//@ loopstart 1
proof { lemma_push(vo_0@, n, vj_0 as int, vi_1 as int, g, g(vj_0 as int, vi_1 as int)); }
//@ after 1
proof { lemma_next_row(vo_0@, n, vj_0 as int, g); }
//@ fn starks/frame.rs Frame::get_trace_evaluations {"types": {"vo_0": "Vec<Vec<FE>>", "vo_1": "Vec<FE>"}}
ensures ret@.len() == frame_offsets@.len(), forall|k: int| 0 <= k < frame_offsets@.len() ==> (#[trigger] ret@[k])@.len() == trace_polys@.len(),
    forall|k: int, c: int| 0 <= k < frame_offsets@.len() && 0 <= c < trace_polys@.len() ==>
        (#[trigger] ret@[k]@[c])@ == peval(trace_polys@[c]@, x@ * ipow(primitive_root@, frame_offsets@[k] as nat)),
//@ loop 0
invariant vi_0 <= vn_0, vn_0 == frame_offsets@.len(), vo_0@.len() == vi_0, forall|k: int| 0 <= k < vi_0 ==> (#[trigger] vo_0@[k])@.len() == trace_polys@.len(),
    forall|k: int, c: int| 0 <= k < vi_0 && 0 <= c < trace_polys@.len() ==>
        (#[trigger] vo_0@[k]@[c])@ == peval(trace_polys@[c]@, x@ * ipow(primitive_root@, frame_offsets@[k] as nat)),
decreases vn_0 - vi_0
//@ loop 1
invariant vi_1 <= vn_1, vn_1 == trace_polys@.len(), vo_1@.len() == vi_1, vi_0 == vj_0 + 1, vj_0 < vn_0, vo_0@.len() == vj_0, eval_point@ == x@ * ipow(primitive_root@, frame_offsets@[vj_0 as int] as nat),
    forall|c: int| 0 <= c < vi_1 ==> (#[trigger] vo_1@[c])@ == peval(trace_polys@[c]@, eval_point@),
decreases vn_1 - vi_1
