// ---- prelude: slice iterators bound to a name --------------------------------------------------
pub struct VxIter<'a, T> { pub s: &'a [T], pub i: usize }
impl<'a, T> VxIter<'a, T> {
    pub open spec fn wf(&self) -> bool { self.i <= self.s@.len() }
    pub fn new(s: &'a [T]) -> (r: Self) ensures r.s == s, r.i == 0, r.wf() { VxIter { s, i: 0 } }
    pub fn next(&mut self) -> (r: Option<&'a T>) requires old(self).wf() ensures final(self).wf(), final(self).s == old(self).s, r.is_some() == (old(self).i < old(self).s@.len()),
        r.is_some() ==> *r.unwrap() == old(self).s@[old(self).i as int] && final(self).i == old(self).i + 1, r.is_none() ==> final(self).i == old(self).i
    { if self.i < self.s.len() { let x = &self.s[self.i]; self.i = self.i + 1; Some(x) } else { None } }
}
