// ---- prelude: machine integers --------------------------------------------------------------
pub open spec fn is_pow2(n: int) -> bool decreases n { n == 1 || (n > 1 && n % 2 == 0 && is_pow2(n / 2)) }
/// Number of times two divides n (n > 0).
pub open spec fn tz(n: int) -> int decreases n { if n <= 0 || n % 2 == 1 { 0 } else { 1 + tz(n / 2) } }
pub open spec fn log2(n: int) -> int decreases n { if n <= 1 { 0 } else { 1 + log2(n / 2) } }
pub proof fn lemma_tz_log2(n: int) requires is_pow2(n) ensures tz(n) == log2(n) decreases n { if n > 1 { lemma_tz_log2(n / 2); } }
pub trait VxNum: Sized + Copy {
    spec fn n(&self) -> int;
    spec fn top() -> int;
    spec fn bits() -> int;
    fn vx_saturating_add(self, o: Self) -> (r: Self) ensures r.n() == (if self.n() + o.n() > Self::top() { Self::top() } else { self.n() + o.n() });
    fn vx_saturating_sub(self, o: Self) -> (r: Self) ensures r.n() == (if self.n() < o.n() { 0 } else { self.n() - o.n() });
    fn vx_saturating_mul(self, o: Self) -> (r: Self) ensures r.n() == (if self.n() * o.n() > Self::top() { Self::top() } else { self.n() * o.n() });
    fn vx_checked_add(self, o: Self) -> (r: Option<Self>) ensures r.is_some() == (self.n() + o.n() <= Self::top()), r.is_some() ==> r.unwrap().n() == self.n() + o.n();
    fn vx_checked_sub(self, o: Self) -> (r: Option<Self>) ensures r.is_some() == (self.n() >= o.n()), r.is_some() ==> r.unwrap().n() == self.n() - o.n();
    fn vx_checked_mul(self, o: Self) -> (r: Option<Self>) ensures r.is_some() == (self.n() * o.n() <= Self::top()), r.is_some() ==> r.unwrap().n() == self.n() * o.n();
    fn vx_is_power_of_two(self) -> (r: bool) ensures r == is_pow2(self.n());
    fn vx_trailing_zeros(self) -> (r: u32) ensures self.n() > 0 ==> r == tz(self.n()), self.n() == 0 ==> r == Self::bits(), r <= Self::bits();
}
macro_rules! vxnum { ($t:ty, $top:expr, $bits:expr) => { verus! {
  impl VxNum for $t {
    open spec fn n(&self) -> int { *self as int }
    open spec fn top() -> int { $top }
    open spec fn bits() -> int { $bits }
    #[verifier::external_body] fn vx_saturating_add(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vx_saturating_sub(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vx_saturating_mul(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vx_checked_add(self, o: Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn vx_checked_sub(self, o: Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn vx_checked_mul(self, o: Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn vx_is_power_of_two(self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_trailing_zeros(self) -> (r: u32) { unimplemented!() }
  } } } }
vxnum!(u8, 0xff, 8);
vxnum!(u16, 0xffff, 16);
vxnum!(u32, 0xffff_ffff, 32);
vxnum!(u64, 0xffff_ffff_ffff_ffff, 64);
vxnum!(usize, 0xffff_ffff_ffff_ffff, 64);

pub trait VxU: Sized { spec fn u(&self) -> int; spec fn utop() -> int; fn vx_pow(self, e: u32) -> (r: Self) requires ipow(self.u(), e as nat) <= Self::utop() ensures r.u() == ipow(self.u(), e as nat); }
impl VxU for u64 { open spec fn u(&self) -> int { *self as int } open spec fn utop() -> int { 0xffff_ffff_ffff_ffff } #[verifier::external_body] fn vx_pow(self, e: u32) -> (r: Self) { unimplemented!() } }
impl VxU for usize { open spec fn u(&self) -> int { *self as int } open spec fn utop() -> int { 0xffff_ffff_ffff_ffff } #[verifier::external_body] fn vx_pow(self, e: u32) -> (r: Self) { unimplemented!() } }
impl VxU for u32 { open spec fn u(&self) -> int { *self as int } open spec fn utop() -> int { 0xffff_ffff } #[verifier::external_body] fn vx_pow(self, e: u32) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_unsigned_abs(x: i32) -> (r: u32) ensures r == (if x >= 0 { x as int } else { -(x as int) }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_overflowing_sub(x: u8, y: u8) -> (r: (u8, bool)) ensures r.0 == (if x >= y { x - y } else { x - y + 256 }), r.1 == (x < y) { unimplemented!() }
pub fn vx_i32_from(x: i16) -> (r: i32) ensures r == x { x as i32 }
pub fn div_ceil(a: usize, b: usize) -> (r: usize) requires b > 0 ensures r as int == (a + b - 1) / (b as int), r as int * b as int >= a, r > 0 ==> (r - 1) * b < a { vx_div_up(a, b) }
/// The least power of two that is at least n.
pub open spec fn next_pow2(n: int) -> int { if n <= 1 { 1 } else { choose|k: int| is_pow2(k) && k >= n && (k == 1 || k / 2 < n) } }
#[verifier::external_body]
pub fn vx_next_power_of_two(n: usize) -> (r: usize) requires n <= 0x4000_0000_0000_0000 ensures is_pow2(r as int), r >= n, r < 2 * n || r == 1 { n.next_power_of_two() }
