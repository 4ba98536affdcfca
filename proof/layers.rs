// ---- prelude: FRI layers on the prover's side -----------------------------------------------------
/// Even part plus beta times odd part.
pub open spec fn fold_of(c: Seq<int>, beta: int) -> Seq<int> { Seq::new(((c.len() + 1) / 2) as nat, |i: int| co(c, 2 * i) + co(c, 2 * i + 1) * beta) }
/// The values a layer commits to: its polynomial over offset * root^i in natural order.
pub open spec fn layer_ok(l: FriLayer, c: Seq<int>, offset: int, ds: int) -> bool {
    &&& l.domain_size == ds && congr(l.coset_offset@, offset)
    &&& l.evaluation@.len() == ds
    &&& forall|i: int| 0 <= i < ds ==> congr((#[trigger] l.evaluation@[i])@, peval(c, offset * ipow(omega(log2(ds)), i as nat)))
    &&& tree_of(l.merkle_tree, Seq::new(ds as nat, |i: int| l.evaluation@[i].leaf()))
}
/// The polynomial of layer k.
pub open spec fn layer_poly(p0: Seq<int>, log0: Seq<Ev>, roots: Seq<Seq<u8>>, k: int) -> Seq<int> decreases k {
    if k <= 0 { p0 } else { fold_of(layer_poly(p0, log0, roots, k - 1), zeta_of(log0, roots, k)) }
}
pub open spec fn root_list(l: Seq<FriLayer>) -> Seq<Seq<u8>> { Seq::new(l.len(), |i: int| l[i].merkle_tree.root@) }
/// Layer k of the list commits to the k-th folded polynomial on the k-th squared coset.
pub open spec fn layers_ok(l: Seq<FriLayer>, k: int, p0: Seq<int>, log0: Seq<Ev>, offset: int, ds: int) -> bool {
    &&& is_pow2(halved(ds, k))
    &&& congr(l[k].coset_offset@, sq(offset, k))
    &&& l[k].domain_size == halved(ds, k) && l[k].evaluation@.len() == halved(ds, k)
    &&& forall|i: int| 0 <= i < halved(ds, k) ==> congr((#[trigger] l[k].evaluation@[i])@, peval(layer_poly(p0, log0, root_list(l), k), sq(offset, k) * ipow(omega(log2(halved(ds, k))), i as nat)))
    &&& tree_of(l[k].merkle_tree, Seq::new(halved(ds, k) as nat, |i: int| l[k].evaluation@[i].leaf()))
}
/// What a query's decommitment holds: at every layer the value at the index and at the opposite index, with paths.
pub open spec fn query_holds(q: FriDecommitment, l: Seq<FriLayer>, iota: int) -> bool {
    &&& q.layers_evaluations@.len() == l.len() && q.layers_evaluations_sym@.len() == l.len() && q.layers_auth_paths@.len() == l.len() && q.layers_auth_paths_sym@.len() == l.len()
    &&& forall|k: int| 0 <= k < l.len() ==> #[trigger] query_layer(q, l, iota, k)
}
pub open spec fn query_layer(q: FriDecommitment, l: Seq<FriLayer>, iota: int, k: int) -> bool {
    let n = l[k].domain_size as int; let i = iota % n; let j = (iota + n / 2) % n;
    &&& q.layers_evaluations@[k] == l[k].evaluation@[i] && q.layers_evaluations_sym@[k] == l[k].evaluation@[j]
    &&& path_fits(q.layers_auth_paths@[k], l[k].merkle_tree.leaves@.len() as int) && path_fits(q.layers_auth_paths_sym@[k], l[k].merkle_tree.leaves@.len() as int)
    &&& opens(hashes(q.layers_auth_paths@[k].merkle_path@), l[k].merkle_tree.root@, i, l[k].evaluation@[i].leaf())
    &&& opens(hashes(q.layers_auth_paths_sym@[k].merkle_path@), l[k].merkle_tree.root@, j, l[k].evaluation@[j].leaf())
}
pub open spec fn layer_committed(l: FriLayer) -> bool {
    1 <= l.domain_size <= 0x4000_0000_0000_0000 && l.evaluation@.len() == l.domain_size && tree_of(l.merkle_tree, Seq::new(l.domain_size as nat, |i: int| l.evaluation@[i].leaf()))
}
pub proof fn lemma_halved(n: int, k: int) requires is_pow2(n), 0 <= k <= log2(n) ensures is_pow2(halved(n, k)), log2(halved(n, k)) == log2(n) - k, 1 <= halved(n, k) <= n decreases k {
    if k > 0 { lemma_halved(n, k - 1); let h = halved(n, k - 1); assert(log2(h) >= 1); assert(h > 1); }
}
