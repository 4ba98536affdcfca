// ---- prelude: the message order of the protocol --------------------------------------------------
/// The transcript after k layer roots: root, then for every further layer a challenge and its root.
pub open spec fn commit_log(log0: Seq<Ev>, roots: Seq<Seq<u8>>, k: int) -> Seq<Ev> decreases k {
    if k <= 0 { log0 } else if k == 1 { log0.push(Ev::App(roots[0])) } else { commit_log(log0, roots, k - 1).push(Ev::Smp).push(Ev::App(roots[k - 1])) }
}
/// The challenge that follows the k-th root.
pub open spec fn zeta_of(log0: Seq<Ev>, roots: Seq<Seq<u8>>, k: int) -> int { field_of(digest(commit_log(log0, roots, k))) }
