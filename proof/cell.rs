pub open spec fn gcell(t: Seq<FE>, n: int, r: int, k: int) -> FE { t[r * n + k] }
