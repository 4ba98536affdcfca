// ---- prelude: a map's entries -------------------------------------------------------------------
pub open spec fn entries_of<K: VxKey, V>(es: Seq<(&K, &V)>, m: Map<int, V>) -> bool {
    (forall|i: int| 0 <= i < es.len() ==> m.dom().contains((*(#[trigger] es[i]).0).k()) && m[(*es[i].0).k()] == *es[i].1)
    && (forall|k: int| m.dom().contains(k) ==> exists|i: int| 0 <= i < es.len() && (*(#[trigger] es[i]).0).k() == k)
    && (forall|i: int, j: int| 0 <= i < j < es.len() ==> (*es[i].0).k() != (*es[j].0).k())
}
impl<K: VxKey, V> VxMap<K, V> {
    /// `iter()`: every entry once, in some order.
    #[verifier::external_body]
    pub fn vx_entries(&self) -> (r: Vec<(&K, &V)>) ensures entries_of(r@, self@), r@.len() == self@.dom().len(), self@.dom().finite() { unimplemented!() }
}
/// The map a list of entries makes when inserted in order.
pub open spec fn ins<T>(es: Seq<(int, T)>) -> Map<int, T> decreases es.len() { if es.len() == 0 { Map::empty() } else { ins(es.drop_last()).insert(es.last().0, es.last().1) } }
/// `es` lists the entries of m, each once.
pub open spec fn lists<T>(es: Seq<(int, T)>, m: Map<int, T>) -> bool {
    (forall|i: int| 0 <= i < es.len() ==> m.dom().contains((#[trigger] es[i]).0) && m[es[i].0] == es[i].1)
    && (forall|k: int| m.dom().contains(k) ==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k)
    && (forall|i: int, j: int| 0 <= i < j < es.len() ==> es[i].0 != es[j].0)
}
pub proof fn lemma_ins_dom<T>(es: Seq<(int, T)>, k: int) ensures ins(es).dom().contains(k) <==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k decreases es.len()
{
    if es.len() > 0 {
        lemma_ins_dom(es.drop_last(), k);
        if ins(es).dom().contains(k) {
            if k == es.last().0 { assert(es[es.len() - 1].0 == k); }
            else { let i = choose|i: int| 0 <= i < es.drop_last().len() && (#[trigger] es.drop_last()[i]).0 == k; assert(es[i].0 == k); }
        }
        if exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k {
            let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k;
            if i < es.len() - 1 { assert(es.drop_last()[i].0 == k); }
        }
    }
}
/// Distinct keys: every listed entry is in the map.
pub proof fn lemma_ins_val<T>(es: Seq<(int, T)>, i: int) requires 0 <= i < es.len(), forall|i: int, j: int| 0 <= i < j < es.len() ==> es[i].0 != es[j].0
    ensures ins(es)[es[i].0] == es[i].1 decreases es.len()
{
    if i < es.len() - 1 { assert(es.drop_last()[i] == es[i]); lemma_ins_val(es.drop_last(), i); assert(es[i].0 != es.last().0); }
}
pub proof fn lemma_lists_ins<T>(es: Seq<(int, T)>, m: Map<int, T>) requires lists(es, m) ensures ins(es) == m
{
    assert forall|k: int| ins(es).dom().contains(k) <==> m.dom().contains(k) by {
        lemma_ins_dom(es, k);
        if ins(es).dom().contains(k) { let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k; assert(m.dom().contains(es[i].0)); }
    }
    assert forall|k: int| ins(es).dom().contains(k) implies ins(es)[k] == m[k] by {
        lemma_ins_dom(es, k);
        let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k;
        lemma_ins_val(es, i);
    }
    assert(ins(es) =~= m);
}
