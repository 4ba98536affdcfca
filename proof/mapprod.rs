// ---- prelude: the public memory product ------------------------------------------------------------
/// The factor of the memory cell (address k, value v) under the challenges z and alpha.
pub open spec fn cell_factor(k: int, v: int, z: int, alpha: int) -> int { z - (k + alpha * v) }
/// The product of the factors of all cells of a memory.
pub open spec fn mem_product(m: Map<int, FE>, z: int, alpha: int) -> int decreases m.dom().len() when m.dom().finite() {
    if m.dom().len() == 0 { 1 } else { let k = m.dom().choose(); mem_product(m.remove(k), z, alpha) * cell_factor(k, m[k]@, z, alpha) }
}
/// Any cell may come last.
pub proof fn lemma_mem_product(m: Map<int, FE>, k: int, z: int, alpha: int) requires m.dom().finite(), m.dom().contains(k)
    ensures mem_product(m, z, alpha) == mem_product(m.remove(k), z, alpha) * cell_factor(k, m[k]@, z, alpha) decreases m.dom().len()
{
    let c = m.dom().choose();
    assert(m.dom().len() > 0);
    if c != k {
        let (mc, mk) = (m.remove(c), m.remove(k));
        assert(mc.dom() =~= m.dom().remove(c)); assert(mk.dom() =~= m.dom().remove(k));
        lemma_mem_product(mc, k, z, alpha); lemma_mem_product(mk, c, z, alpha);
        assert(mc.remove(k) =~= mk.remove(c));
        let r = mem_product(mc.remove(k), z, alpha); let (fk, fc) = (cell_factor(k, m[k]@, z, alpha), cell_factor(c, m[c]@, z, alpha));
        assert((r * fk) * fc == (r * fc) * fk) by (nonlinear_arith);
    }
}
/// The product over a list of cells, in this order.
pub open spec fn cells_product(es: Seq<(&FE, &FE)>, z: int, alpha: int, n: int) -> int decreases n {
    if n <= 0 { 1 } else { cells_product(es, z, alpha, n - 1) * cell_factor((*es[n - 1].0)@, (*es[n - 1].1)@, z, alpha) }
}
pub proof fn lemma_cells_prefix(a: Seq<(&FE, &FE)>, b: Seq<(&FE, &FE)>, z: int, alpha: int, n: int) requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures cells_product(a, z, alpha, n) == cells_product(b, z, alpha, n) decreases n { if n > 0 { lemma_cells_prefix(a, b, z, alpha, n - 1); } }
/// Every listing of a memory gives its product.
pub proof fn lemma_listed_product(es: Seq<(&FE, &FE)>, m: Map<int, FE>, z: int, alpha: int) requires entries_of(es, m), m.dom().finite()
    ensures congr(cells_product(es, z, alpha, es.len() as int), mem_product(m, z, alpha)) decreases es.len()
{
    broadcast use axiom_P;
    if es.len() == 0 {
        assert(m.dom() =~= Set::<int>::empty()) by { if exists|k: int| m.dom().contains(k) { let k = choose|k: int| m.dom().contains(k); assert(exists|i: int| 0 <= i < es.len() && (*(#[trigger] es[i]).0).k() == k); } }
    } else {
        let n = es.len() as int; let d = es.drop_last(); let k = (*es[n - 1].0).k(); let r = m.remove(k);
        assert forall|q: int| r.dom().contains(q) implies exists|i: int| 0 <= i < d.len() && (*(#[trigger] d[i]).0).k() == q by {
            assert(m.dom().contains(q)); let i = choose|i: int| 0 <= i < es.len() && (*(#[trigger] es[i]).0).k() == q; assert(i != n - 1); assert(d[i] == es[i]);
        }
        assert forall|i: int| 0 <= i < d.len() implies r.dom().contains((*(#[trigger] d[i]).0).k()) && r[(*d[i].0).k()] == *d[i].1 by { assert(d[i] == es[i]); }
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies (*d[i].0).k() != (*d[j].0).k() by { assert(d[i] == es[i] && d[j] == es[j]); }
        assert(r.dom() =~= m.dom().remove(k));
        lemma_listed_product(d, r, z, alpha); lemma_mem_product(m, k, z, alpha); lemma_cells_prefix(es, d, z, alpha, n - 1);
        let (a, v) = ((*es[n - 1].0)@, m[k]@);
        assert(congr(a, k)) by { vstd::arithmetic::div_mod::lemma_mod_twice(a, P()); }
        lemma_factor(a, k, v, z, alpha);
        lemma_congr_mul(cells_product(d, z, alpha, n - 1), mem_product(r, z, alpha), cell_factor(a, v, z, alpha), cell_factor(k, v, z, alpha));
    }
}
pub proof fn lemma_factor(a: int, k: int, v: int, z: int, alpha: int) requires congr(a, k) ensures congr(cell_factor(a, v, z, alpha), cell_factor(k, v, z, alpha)) {
    lemma_congr_add(a, k, alpha * v, alpha * v); lemma_congr_add(z, z, a + alpha * v, k + alpha * v);
}
