// ---- prelude: records of the binary files ---------------------------------------------------
/// Record i of width w.
pub open spec fn rec(b: Seq<u8>, i: int, w: int) -> Seq<u8> { b.subrange(i * w, i * w + w) }
/// Whether some record among the first n names address a, and the last one that does.
pub open spec fn last_rec(b: Seq<u8>, n: int, a: int) -> int decreases n { if n <= 0 { -1 } else if le(rec(b, n - 1, 40).subrange(0, 8)) == a { n - 1 } else { last_rec(b, n - 1, a) } }
