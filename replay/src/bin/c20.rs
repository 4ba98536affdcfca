use lambdaworks_math::field::fields::u64_prime_field::F17;
use lambdaworks_math::field::traits::IsPrimeField;
use lambdaworks_stark::starks::proof::{errors::InsecureOptionError, options::*};
use replay::{stark::F, *};
fn bits(q: usize, blow: u8, g: u8, provable: bool) -> i128 {
    let l = (7 - blow.leading_zeros() as i128) * q as i128; // queries * log2(blowup), blowup a power of two
    if provable { l / 2 + g as i128 } else { l + g as i128 - 1 }
}
fn main() {
    let mut c = Ctx::new("C20");
    c.rule("all named levels; every blowup factor x grinding x target at threshold query counts, corner and random parameters on both constructors and two fields; compared with the estimates of the scheme");
    type L = SecurityLevel;
    let named: Vec<(&str, fn() -> SecurityLevel, i128, bool)> = vec![
        ("Conjecturable80Bits", || L::Conjecturable80Bits, 80, false),
        ("Conjecturable100Bits", || L::Conjecturable100Bits, 100, false),
        ("Conjecturable128Bits", || L::Conjecturable128Bits, 128, false),
        ("Provable80Bits", || L::Provable80Bits, 80, true),
        ("Provable100Bits", || L::Provable100Bits, 100, true),
        ("Provable128Bits", || L::Provable128Bits, 128, true),
    ];
    for (name, l, t, prov) in &named {
        for off in [0u64, 1, 3, 7, u64::MAX, c.rng.u64()] {
            let txt = || format!("{name} coset_offset={off}");
            c.case(hash_of(&(name, off)), txt);
            let Some(o) = c.guard("named-panics", txt, || ProofOptions::new_secure(l(), off)) else { continue };
            let txt = || format!("{name}: {o:?}");
            c.check("named-blowup", o.blowup_factor >= 2 && o.blowup_factor.is_power_of_two(), txt);
            c.check("named-level-too-low", bits(o.fri_number_of_queries, o.blowup_factor, o.grinding_factor, *prov) >= *t, txt);
            c.check("named-offset", o.coset_offset == off, txt);
            let again = if *prov {
                ProofOptions::new_with_checked_provable_security::<F>(o.blowup_factor, o.fri_number_of_queries, off, o.grinding_factor, *t as u8)
            } else {
                ProofOptions::new_with_checked_security::<F>(o.blowup_factor, o.fri_number_of_queries, off, o.grinding_factor, *t as u8)
            };
            c.check("named-refused-by-checker", again.is_ok(), txt);
        }
    }
    let rounds = c.n(300_000, 5_000_000);
    for k in 0..rounds {
        if k % 4096 == 0 && c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let blow = if r.chance(3, 4) { 1u8 << r.below(8) } else { r.u64() as u8 };
        let grind = if r.bool() { r.below(40) as u8 } else { r.u64() as u8 };
        let t = if r.bool() { *r.pick(&[80u8, 100, 128, 0, 255, 211, 212]) } else { r.u64() as u8 };
        let lb = 7 - (blow.max(1)).leading_zeros() as i64;
        let q = match r.below(4) {
            0 | 1 if lb > 0 => {
                // around the threshold of either estimate
                let need = (t as i64 - grind as i64).max(0) * if r.bool() { 2 } else { 1 };
                (need / lb + r.below(7) as i64 - 3).max(0) as usize
            }
            2 => *r.pick(&[0usize, 1, usize::MAX, usize::MAX / 2, usize::MAX / 7, usize::MAX / 7 + 1, 1 << 63]),
            _ => r.below(400) as usize,
        };
        let off = r.u64();
        let big = !r.chance(1, 10);
        for prov in [false, true] {
            let txt = || format!("provable={prov} field_bits={} blowup={blow} queries={q} offset={off} grinding={grind} target={t}", if big { F::field_bit_size() } else { F17::field_bit_size() });
            c.case(hash_of(&(blow, q, grind, t, prov, big)), txt);
            let res = c.guard("checked-panics", txt, || match (prov, big) {
                (false, true) => ProofOptions::new_with_checked_security::<F>(blow, q, off, grind, t),
                (true, true) => ProofOptions::new_with_checked_provable_security::<F>(blow, q, off, grind, t),
                (false, false) => ProofOptions::new_with_checked_security::<F17>(blow, q, off, grind, t),
                (true, false) => ProofOptions::new_with_checked_provable_security::<F17>(blow, q, off, grind, t),
            });
            let Some(res) = res else { continue };
            let fb = if big { F::field_bit_size() } else { F17::field_bit_size() };
            let field_ok = fb as i128 > t as i128 + 40;
            let pow2 = blow.is_power_of_two();
            let want = field_ok && pow2 && bits(q, blow.max(1), grind, prov) > t as i128;
            match res {
                Ok(o) => {
                    c.check("weak-options-accepted", want, txt);
                    c.check("options-changed", o.blowup_factor == blow && o.fri_number_of_queries == q && o.coset_offset == off && o.grinding_factor == grind, txt);
                }
                Err(e) => {
                    c.check("strong-options-refused", !want, txt);
                    c.check("field-error", matches!(e, InsecureOptionError::FieldSize) == !field_ok, txt);
                }
            }
        }
    }
    c.finish()
}
