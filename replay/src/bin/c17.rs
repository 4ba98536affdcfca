use lambdaworks_math::traits::{Deserializable, Serializable};
use lambdaworks_stark::cairo::air::PublicInputs;
use lambdaworks_stark::starks::{
    frame::Frame,
    fri::fri_decommit::FriDecommitment,
    proof::stark::{DeepPolynomialOpenings, StarkProof},
    utils::{deserialize_proof, serialize_proof},
};
use replay::{stark::*, values::*, *};
fn main() {
    let mut c = Ctx::new("C17");
    c.rule("random proofs, FRI decommitments, openings, frames, paths and Cairo public inputs with every list empty, of one and of several entries, absent and present optional fields and every set of segments; plus honest proofs; serialized, deserialized and compared field by field");
    macro_rules! rt {
        ($name:literal, $v:expr, $t:ty) => {{
            let v = $v;
            let bytes = match c.guard(concat!($name, "-serialize-panics"), || format!("{v:?}"), || v.serialize()) {
                Some(b) => b,
                None => continue,
            };
            c.case(hash_of(&($name, &bytes)), || format!("{} {}", $name, hex(&bytes)));
            match c.guard(concat!($name, "-deserialize-panics"), || format!("{v:?}"), || <$t>::deserialize(&bytes)) {
                Some(Ok(w)) => {
                    let (a, b) = (format!("{v:?}"), format!("{w:?}"));
                    c.check(concat!($name, "-changed"), a == b, || format!("before {a}\nafter {b}"));
                    let again = quiet(|| w.serialize());
                    c.check(concat!($name, "-bytes-changed"), again == Ok(bytes.clone()), || format!("{v:?}"));
                    Some(w)
                }
                Some(Err(_)) => {
                    c.check(concat!($name, "-refused"), false, || format!("{v:?}"));
                    None
                }
                None => None,
            }
        }};
    }
    for k in 0..c.n(4000, 100000) {
        if c.out_of_time() {
            break;
        }
        let mut r = Rng::new(c.seed.wrapping_mul(1000003).wrapping_add(k as u64));
        let r = &mut r;
        rt!("decommitment", decommitment(r), FriDecommitment<F>);
        rt!("opening", opening(r), DeepPolynomialOpenings<F>);
        let f = frame(r);
        rt!("frame", f, Frame<F>);
        // path, with bytes behind it
        let p = path(r);
        let n = r.usize(0, 40);
        let tail = r.bytes(n);
        if let Some(mut b) = c.guard("path-serialize-panics", || format!("{p:?}"), || serialize_proof(&p)) {
            b.extend(&tail);
            let got = c.guard("path-deserialize-panics", || format!("{p:?}"), || deserialize_proof(&b).map(|(a, b)| (a, b.to_vec())).ok());
            let ok = matches!(&got, Some(Some((q, t))) if q.merkle_path == p.merkle_path && t == &tail) || got.is_none();
            c.check("path-changed", ok, || format!("{p:?} followed by {}", hex(&tail)));
        }
        let pi = public(r);
        if let Some(bytes) = c.guard("public-serialize-panics", || format!("{pi:?}"), || pi.serialize()) {
            c.case(hash_of(&("public", &bytes)), || format!("{pi:?}"));
            match c.guard("public-deserialize-panics", || format!("{pi:?}"), || PublicInputs::deserialize(&bytes)) {
                Some(Ok(q)) => {
                    let same = q.pc_init == pi.pc_init
                        && q.ap_init == pi.ap_init
                        && q.fp_init == pi.fp_init
                        && q.pc_final == pi.pc_final
                        && q.ap_final == pi.ap_final
                        && q.range_check_min == pi.range_check_min
                        && q.range_check_max == pi.range_check_max
                        && q.memory_segments == pi.memory_segments
                        && q.public_memory == pi.public_memory
                        && q.num_steps == pi.num_steps;
                    c.check("public-changed", same, || format!("before {pi:?}\nafter {q:?}"));
                }
                Some(Err(_)) => {
                    c.check("public-refused", false, || format!("{pi:?}"));
                }
                None => {}
            }
        }
        let p = proof(r);
        if let Some(w) = rt!("proof", clone_proof(&p), StarkProof<F>) {
            c.check("proof-differs", first_difference(&p, &w).is_none(), || format!("in {:?}: {p:?}", first_difference(&p, &w)));
        }
        if k % 20 == 0 {
            let (cfg, cols) = gen_air(r, 4);
            let s = spec_prove(&cfg, &cols, &Cheat::None);
            rt!("honest-proof", s.proof, StarkProof<F>);
        }
    }
    c.finish()
}
