//! Random values of every serialized type.
use lambdaworks_crypto::merkle_tree::proof::Proof;
use lambdaworks_stark::cairo::air::{MemorySegment, MemorySegmentMap, PublicInputs};
use lambdaworks_stark::starks::{
    frame::Frame,
    fri::fri_decommit::FriDecommitment,
    proof::stark::{DeepPolynomialOpenings, StarkProof},
};
use crate::{stark::*, Rng, FE};
use std::collections::HashMap;
pub fn size(r: &mut Rng) -> usize {
    *r.pick(&[0usize, 0, 1, 1, 2, 3, 5, 8])
}
pub fn path(r: &mut Rng) -> Proof<[u8; 32]> {
    Proof { merkle_path: (0..size(r)).map(|_| r.bytes(32).try_into().unwrap()).collect() }
}
pub fn fes(r: &mut Rng) -> Vec<FE> {
    (0..size(r)).map(|_| r.fe()).collect()
}
pub fn roots(r: &mut Rng) -> Vec<[u8; 32]> {
    (0..size(r)).map(|_| r.bytes(32).try_into().unwrap()).collect()
}
pub fn frame(r: &mut Rng) -> Frame<F> {
    let w = r.usize(0, 6);
    let d = if r.chance(1, 5) { fes(r) } else { (0..w * r.usize(0, 4)).map(|_| r.fe()).collect() };
    Frame::new(d, if r.chance(1, 20) { r.u64() as usize } else { w })
}
pub fn decommitment(r: &mut Rng) -> FriDecommitment<F> {
    let mut paths = |r: &mut Rng| (0..size(r)).map(|_| path(r)).collect::<Vec<_>>();
    FriDecommitment { layers_auth_paths_sym: paths(r), layers_evaluations_sym: fes(r), layers_auth_paths: paths(r), layers_evaluations: fes(r) }
}
pub fn opening(r: &mut Rng) -> DeepPolynomialOpenings<F> {
    DeepPolynomialOpenings {
        lde_composition_poly_proof: path(r),
        lde_composition_poly_even_evaluation: r.fe(),
        lde_composition_poly_odd_evaluation: r.fe(),
        lde_trace_merkle_proofs: (0..size(r)).map(|_| path(r)).collect(),
        lde_trace_evaluations: fes(r),
    }
}
pub fn proof(r: &mut Rng) -> P {
    StarkProof {
        trace_length: if r.bool() { r.u64() as usize } else { 1 << r.below(20) },
        lde_trace_merkle_roots: roots(r),
        trace_ood_frame_evaluations: frame(r),
        composition_poly_root: r.bytes(32).try_into().unwrap(),
        composition_poly_even_ood_evaluation: r.fe(),
        composition_poly_odd_ood_evaluation: r.fe(),
        fri_layers_merkle_roots: roots(r),
        fri_last_value: r.fe(),
        query_list: (0..size(r)).map(|_| decommitment(r)).collect(),
        deep_poly_openings: (0..size(r)).map(|_| opening(r)).collect(),
        nonce: if r.bool() { r.u64() } else { r.below(300) },
    }
}
pub fn public(r: &mut Rng) -> PublicInputs {
    let mut m: MemorySegmentMap = HashMap::new();
    let range = |r: &mut Rng| match r.below(4) {
        0 => 5..5,
        1 => r.u64()..r.u64(),
        _ => { let a = r.below(1000); a..a + r.below(50) }
    };
    for s in [MemorySegment::RangeCheck, MemorySegment::Output] {
        if r.bool() {
            m.insert(s, range(r));
        }
    }
    PublicInputs {
        pc_init: r.fe(),
        ap_init: r.fe(),
        fp_init: r.fe(),
        pc_final: r.fe(),
        ap_final: r.fe(),
        range_check_min: if r.bool() { Some(r.u64() as u16) } else { None },
        range_check_max: if r.bool() { Some(r.u64() as u16) } else { None },
        memory_segments: m,
        public_memory: (0..size(r) * 3).map(|_| (r.fe(), r.fe())).collect(),
        num_steps: if r.bool() { r.u64() as usize } else { r.below(100) as usize },
    }
}
