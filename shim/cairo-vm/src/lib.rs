//! Stand-in for cairo-vm 0.6.0: a small interpreter for hint-free Cairo 0 programs
//! (relocatable memory, deduction of operands, `plain`/`small`/`all_cairo` builtin segments,
//! relocation, trace), behind the API the runner uses.  Cairo 1 contracts are not executed.
pub mod felt {
    use lambdaworks_math::field::element::FieldElement;
    use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
    use lambdaworks_math::traits::ByteConversion;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Felt252(pub FieldElement<Stark252PrimeField>);
    impl Felt252 {
        pub fn to_le_bytes(&self) -> [u8; 32] {
            self.0.to_bytes_le().try_into().unwrap()
        }
        pub fn to_be_bytes(&self) -> [u8; 32] {
            self.0.to_bytes_be().try_into().unwrap()
        }
        pub fn new(v: u64) -> Self {
            Felt252(FieldElement::from(v))
        }
    }
    impl From<u64> for Felt252 {
        fn from(v: u64) -> Self {
            Felt252::new(v)
        }
    }
    impl From<usize> for Felt252 {
        fn from(v: usize) -> Self {
            Felt252::new(v as u64)
        }
    }
}
pub mod types {
    pub mod relocatable {
        use crate::felt::Felt252;
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub struct Relocatable {
            pub segment_index: isize,
            pub offset: usize,
        }
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub enum MaybeRelocatable {
            RelocatableValue(Relocatable),
            Int(Felt252),
        }
        impl From<Relocatable> for MaybeRelocatable {
            fn from(r: Relocatable) -> Self {
                MaybeRelocatable::RelocatableValue(r)
            }
        }
        impl From<usize> for MaybeRelocatable {
            fn from(r: usize) -> Self {
                MaybeRelocatable::Int(Felt252::from(r))
            }
        }
        impl core::ops::Add<usize> for Relocatable {
            type Output = Result<Relocatable, crate::vm::errors::vm_errors::VirtualMachineError>;
            fn add(self, o: usize) -> Self::Output {
                Ok(Relocatable { segment_index: self.segment_index, offset: self.offset + o })
            }
        }
    }
    pub mod program {
        use crate::felt::Felt252;
        #[derive(Clone, Debug, Default)]
        pub struct Program {
            pub data: Vec<Felt252>,
            pub builtins: Vec<String>,
            pub main: usize,
        }
        impl Program {
            pub fn data_len(&self) -> usize {
                self.data.len()
            }
        }
        impl TryFrom<cairo_lang_starknet::casm_contract_class::CasmContractClass> for Program {
            type Error = String;
            fn try_from(_: cairo_lang_starknet::casm_contract_class::CasmContractClass) -> Result<Self, String> {
                Err("Cairo 1 contracts are not modelled by this stand-in".into())
            }
        }
    }
}
pub mod serde {
    pub mod deserialize_program {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum BuiltinName {
            output,
            range_check,
            pedersen,
            ecdsa,
            keccak,
            bitwise,
            ec_op,
            poseidon,
        }
        impl BuiltinName {
            pub fn name(&self) -> &'static str {
                match self {
                    Self::output => "output_builtin",
                    Self::range_check => "range_check_builtin",
                    Self::pedersen => "pedersen_builtin",
                    Self::ecdsa => "ecdsa_builtin",
                    Self::keccak => "keccak_builtin",
                    Self::bitwise => "bitwise_builtin",
                    Self::ec_op => "ec_op_builtin",
                    Self::poseidon => "poseidon_builtin",
                }
            }
        }
    }
}
pub mod hint_processor {
    pub mod builtin_hint_processor {
        pub mod builtin_hint_processor_definition {
            pub struct BuiltinHintProcessor;
            impl BuiltinHintProcessor {
                pub fn new_empty() -> Self {
                    Self
                }
            }
        }
    }
    pub mod cairo_1_hint_processor {
        pub mod hint_processor {
            pub struct Cairo1HintProcessor;
            impl Cairo1HintProcessor {
                pub fn new<T>(_hints: &T) -> Self {
                    Self
                }
            }
        }
    }
}
pub mod vm {
    pub mod errors {
        macro_rules! err {
            ($m:ident, $e:ident) => {
                pub mod $m {
                    #[derive(Debug)]
                    pub struct $e(pub String);
                    impl core::fmt::Display for $e {
                        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                            write!(f, "{}", self.0)
                        }
                    }
                    impl std::error::Error for $e {}
                }
            };
        }
        err!(cairo_run_errors, CairoRunError);
        err!(trace_errors, TraceError);
        err!(vm_errors, VirtualMachineError);
        err!(runner_errors, RunnerError);
    }
    pub mod trace {
        pub mod trace_entry {
            #[derive(Clone, Debug, PartialEq, Eq)]
            pub struct TraceEntry {
                pub pc: usize,
                pub ap: usize,
                pub fp: usize,
            }
        }
    }
    pub mod vm_core {
        use super::errors::{runner_errors::RunnerError, trace_errors::TraceError, vm_errors::VirtualMachineError};
        use super::runners::builtin_runner::{BuiltinRunner, RangeCheckBuiltinRunner};
        use super::trace::trace_entry::TraceEntry;
        use crate::felt::Felt252;
        use crate::types::relocatable::{MaybeRelocatable, Relocatable};
        use lambdaworks_math::field::element::FieldElement;
        use std::collections::BTreeMap;

        pub struct VirtualMachine {
            pub(crate) trace_enabled: bool,
            pub(crate) mem: BTreeMap<(isize, usize), MaybeRelocatable>,
            pub(crate) n_segments: usize,
            pub(crate) trace: Vec<(Relocatable, Relocatable, Relocatable)>,
            pub(crate) relocated_trace: Option<Vec<TraceEntry>>,
            pub(crate) builtins: Vec<BuiltinRunner>,
        }
        fn rel(s: isize, o: usize) -> Relocatable {
            Relocatable { segment_index: s, offset: o }
        }
        type R<T> = Result<T, VirtualMachineError>;
        fn e<T>(s: &str) -> R<T> {
            Err(VirtualMachineError(s.into()))
        }
        impl VirtualMachine {
            pub fn new(trace_enabled: bool) -> Self {
                Self {
                    trace_enabled,
                    mem: BTreeMap::new(),
                    n_segments: 0,
                    trace: vec![],
                    relocated_trace: None,
                    builtins: vec![],
                }
            }
            pub fn add_memory_segment(&mut self) -> Relocatable {
                self.n_segments += 1;
                rel(self.n_segments as isize - 1, 0)
            }
            pub fn load_data(&mut self, ptr: Relocatable, data: &[MaybeRelocatable]) -> R<Relocatable> {
                for (i, v) in data.iter().enumerate() {
                    self.set(rel(ptr.segment_index, ptr.offset + i), v.clone())?;
                }
                Ok(rel(ptr.segment_index, ptr.offset + data.len()))
            }
            pub fn get_builtin_runners(&self) -> &Vec<BuiltinRunner> {
                &self.builtins
            }
            pub fn get_range_check_builtin(&self) -> R<&RangeCheckBuiltinRunner> {
                for b in self.builtins.iter() {
                    if let BuiltinRunner::RangeCheck(r) = b {
                        return Ok(r);
                    }
                }
                e("no range check builtin")
            }
            pub fn get_segment_size(&self, i: usize) -> Option<usize> {
                self.get_segment_used_size(i)
            }
            pub fn get_segment_used_size(&self, i: usize) -> Option<usize> {
                if i >= self.n_segments {
                    return None;
                }
                Some(
                    self.mem
                        .range((i as isize, 0)..(i as isize + 1, 0))
                        .next_back()
                        .map(|(k, _)| k.1 + 1)
                        .unwrap_or(0),
                )
            }
            pub fn get_relocated_trace(&self) -> Result<&Vec<TraceEntry>, TraceError> {
                self.relocated_trace
                    .as_ref()
                    .ok_or(TraceError("trace not relocated".into()))
            }
            pub(crate) fn get(&self, a: Relocatable) -> Option<&MaybeRelocatable> {
                self.mem.get(&(a.segment_index, a.offset))
            }
            pub(crate) fn set(&mut self, a: Relocatable, v: MaybeRelocatable) -> R<()> {
                if let Some(old) = self.get(a) {
                    if *old != v {
                        return e("inconsistent memory");
                    }
                    return Ok(());
                }
                self.mem.insert((a.segment_index, a.offset), v);
                Ok(())
            }
            fn addv(a: &MaybeRelocatable, b: &MaybeRelocatable) -> R<MaybeRelocatable> {
                use MaybeRelocatable::*;
                match (a, b) {
                    (Int(x), Int(y)) => Ok(Int(Felt252(x.0 + y.0))),
                    (RelocatableValue(r), Int(y)) | (Int(y), RelocatableValue(r)) => {
                        let off = FieldElement::from(r.offset as u64) + y.0;
                        let o = off.representative();
                        if o.limbs[0] | o.limbs[1] | o.limbs[2] != 0 {
                            return e("offset out of range");
                        }
                        Ok(RelocatableValue(rel(r.segment_index, o.limbs[3] as usize)))
                    }
                    _ => e("adding two pointers"),
                }
            }
            fn subv(a: &MaybeRelocatable, b: &MaybeRelocatable) -> R<MaybeRelocatable> {
                use MaybeRelocatable::*;
                match (a, b) {
                    (Int(x), Int(y)) => Ok(Int(Felt252(x.0 - y.0))),
                    (RelocatableValue(_), Int(y)) => Self::addv(a, &Int(Felt252(-y.0))),
                    (RelocatableValue(r), RelocatableValue(s)) if r.segment_index == s.segment_index => {
                        Ok(Int(Felt252(
                            FieldElement::from(r.offset as u64) - FieldElement::from(s.offset as u64),
                        )))
                    }
                    _ => e("cannot subtract"),
                }
            }
            fn mulv(a: &MaybeRelocatable, b: &MaybeRelocatable) -> R<MaybeRelocatable> {
                use MaybeRelocatable::*;
                match (a, b) {
                    (Int(x), Int(y)) => Ok(Int(Felt252(x.0 * y.0))),
                    _ => e("multiplying a pointer"),
                }
            }
            fn divv(a: &MaybeRelocatable, b: &MaybeRelocatable) -> R<MaybeRelocatable> {
                use MaybeRelocatable::*;
                match (a, b) {
                    (Int(x), Int(y)) if y.0 != FieldElement::zero() => Ok(Int(Felt252(x.0 / y.0))),
                    _ => e("cannot divide"),
                }
            }
            pub(crate) fn run(
                &mut self,
                pc0: Relocatable,
                ap0: Relocatable,
                end: Relocatable,
                max_steps: usize,
            ) -> R<Relocatable> {
                use MaybeRelocatable::*;
                let (mut pc, mut ap, mut fp) = (pc0, ap0, ap0);
                let off = |r: Relocatable, d: i64| -> R<Relocatable> {
                    let o = r.offset as i64 + d;
                    if o < 0 {
                        return e("negative offset");
                    }
                    Ok(rel(r.segment_index, o as usize))
                };
                let mut steps = 0;
                while pc != end {
                    steps += 1;
                    if steps > max_steps {
                        return e("out of steps");
                    }
                    if self.trace_enabled {
                        self.trace.push((pc, ap, fp));
                    }
                    let w = match self.get(pc) {
                        Some(Int(f)) => {
                            let r = f.0.representative();
                            if r.limbs[0] | r.limbs[1] | r.limbs[2] != 0 {
                                return e("instruction too large");
                            }
                            r.limbs[3]
                        }
                        _ => return e("no instruction"),
                    };
                    let o = |k: u32| ((w >> (16 * k)) & 0xffff) as i64 - 0x8000;
                    let fl = |k: u32| (w >> (48 + k)) & 1 == 1;
                    let (d0, d1, d2) = (o(0), o(1), o(2));
                    let dst_a = off(if fl(0) { fp } else { ap }, d0)?;
                    let op0_a = off(if fl(1) { fp } else { ap }, d1)?;
                    let op1_src = ((w >> 50) & 7) as u8;
                    let res_l = ((w >> 53) & 3) as u8;
                    let pc_u = ((w >> 55) & 7) as u8;
                    let ap_u = ((w >> 58) & 3) as u8;
                    let opc = ((w >> 60) & 7) as u8;
                    let size = if op1_src == 1 { 2 } else { 1 };
                    let mut op0 = self.get(op0_a).cloned();
                    if opc == 1 && op0.is_none() {
                        op0 = Some(off(pc, size)?.into());
                    }
                    let op1_a = match op1_src {
                        0 => match &op0 {
                            Some(RelocatableValue(r)) => off(*r, d2)?,
                            _ => return e("op0 is not a pointer"),
                        },
                        1 => off(pc, d2)?,
                        2 => off(fp, d2)?,
                        4 => off(ap, d2)?,
                        _ => return e("bad op1 src"),
                    };
                    let mut op1 = self.get(op1_a).cloned();
                    let mut dst = self.get(dst_a).cloned();
                    if opc == 1 && dst.is_none() {
                        dst = Some(fp.into());
                    }
                    if opc == 4 {
                        if let Some(d) = &dst {
                            if op0.is_none() {
                                if let Some(y) = &op1 {
                                    op0 = match res_l {
                                        1 => Some(Self::subv(d, y)?),
                                        2 => Some(Self::divv(d, y)?),
                                        _ => None,
                                    };
                                }
                            }
                            if op1.is_none() {
                                op1 = match (res_l, &op0) {
                                    (0, _) => Some(d.clone()),
                                    (1, Some(x)) => Some(Self::subv(d, x)?),
                                    (2, Some(x)) => Some(Self::divv(d, x)?),
                                    _ => None,
                                };
                            }
                        }
                    }
                    let unk = || VirtualMachineError("unknown operand".into());
                    // unknown op0 that does not influence the result reads as 0
                    let op1v = op1.ok_or_else(unk)?;
                    let op0v = match op0 {
                        Some(v) => v,
                        None if res_l == 0 => Int(Felt252::new(0)),
                        None => return e("unknown op0"),
                    };
                    let res = if pc_u == 4 && res_l == 0 && opc != 4 {
                        None
                    } else {
                        match res_l {
                            0 => Some(op1v.clone()),
                            1 => Some(Self::addv(&op0v, &op1v)?),
                            2 => Some(Self::mulv(&op0v, &op1v)?),
                            _ => return e("bad res logic"),
                        }
                    };
                    if opc == 4 && dst.is_none() {
                        dst = res.clone();
                    }
                    let dstv = match dst {
                        Some(v) => v,
                        None if opc == 0 && pc_u != 4 => Int(Felt252::new(0)),
                        None => return e("unknown dst"),
                    };
                    match opc {
                        0 | 2 => {}
                        1 => {
                            if dstv != RelocatableValue(fp) || op0v != RelocatableValue(off(pc, size)?) {
                                return e("call assertion");
                            }
                        }
                        4 => {
                            if Some(&dstv) != res.as_ref() {
                                return e("assert_eq failed");
                            }
                        }
                        _ => return e("bad opcode"),
                    }
                    self.set(op0_a, op0v)?;
                    self.set(op1_a, op1v.clone())?;
                    self.set(dst_a, dstv.clone())?;
                    let addp = |r: Relocatable, v: &MaybeRelocatable| -> R<Relocatable> {
                        match Self::addv(&r.into(), v)? {
                            RelocatableValue(r) => Ok(r),
                            _ => e("not a pointer"),
                        }
                    };
                    let npc = match pc_u {
                        0 => off(pc, size)?,
                        1 => match &res {
                            Some(RelocatableValue(r)) => *r,
                            _ => return e("jump to a non pointer"),
                        },
                        2 => addp(pc, res.as_ref().ok_or_else(unk)?)?,
                        4 => {
                            let zero = matches!(&dstv, Int(x) if x.0 == FieldElement::zero());
                            if zero {
                                off(pc, size)?
                            } else {
                                addp(pc, &op1v)?
                            }
                        }
                        _ => return e("bad pc update"),
                    };
                    let nap = match (opc, ap_u) {
                        (1, 0) => off(ap, 2)?,
                        (1, _) => return e("ap update in a call"),
                        (_, 0) => ap,
                        (_, 1) => addp(ap, res.as_ref().ok_or_else(unk)?)?,
                        (_, 2) => off(ap, 1)?,
                        _ => return e("bad ap update"),
                    };
                    let nfp = match opc {
                        1 => off(ap, 2)?,
                        2 => match &dstv {
                            RelocatableValue(r) => *r,
                            _ => return e("ret to a non pointer"),
                        },
                        _ => fp,
                    };
                    pc = npc;
                    ap = nap;
                    fp = nfp;
                }
                Ok(ap)
            }
            pub(crate) fn bases(&self) -> Vec<usize> {
                let mut b = vec![];
                let mut c = 1;
                for i in 0..self.n_segments {
                    b.push(c);
                    c += self.get_segment_used_size(i).unwrap();
                }
                b
            }
            pub(crate) fn relocate(&mut self) -> Result<Vec<Option<Felt252>>, RunnerError> {
                let b = self.bases();
                let total = 1 + (0..self.n_segments)
                    .map(|i| self.get_segment_used_size(i).unwrap())
                    .sum::<usize>();
                let mut out = vec![None; total];
                let rl = |r: &Relocatable| b[r.segment_index as usize] + r.offset;
                for ((s, o), v) in self.mem.iter() {
                    out[b[*s as usize] + o] = Some(match v {
                        MaybeRelocatable::Int(f) => f.clone(),
                        MaybeRelocatable::RelocatableValue(r) => Felt252::from(rl(r)),
                    });
                }
                self.relocated_trace = Some(
                    self.trace
                        .iter()
                        .map(|(pc, ap, fp)| TraceEntry { pc: rl(pc), ap: rl(ap), fp: rl(fp) })
                        .collect(),
                );
                Ok(out)
            }
        }
    }
    pub mod runners {
        pub mod builtin_runner {
            use crate::types::relocatable::{MaybeRelocatable, Relocatable};
            #[derive(Clone, Debug)]
            pub struct RangeCheckBuiltinRunner {
                pub(crate) base: usize,
                pub(crate) included: bool,
                pub(crate) stop_ptr: Option<usize>,
            }
            impl RangeCheckBuiltinRunner {
                pub fn get_memory_segment_addresses(&self) -> (usize, Option<usize>) {
                    (self.base, self.stop_ptr)
                }
            }
            #[derive(Clone, Debug)]
            pub struct OtherBuiltinRunner {
                pub(crate) name: &'static str,
                pub(crate) base: usize,
                pub(crate) included: bool,
                pub(crate) stop_ptr: Option<usize>,
            }
            #[derive(Clone, Debug)]
            pub enum BuiltinRunner {
                RangeCheck(RangeCheckBuiltinRunner),
                Other(OtherBuiltinRunner),
            }
            impl BuiltinRunner {
                pub fn name(&self) -> &'static str {
                    match self {
                        Self::RangeCheck(_) => "range_check_builtin",
                        Self::Other(o) => o.name,
                    }
                }
                pub fn base(&self) -> usize {
                    match self {
                        Self::RangeCheck(o) => o.base,
                        Self::Other(o) => o.base,
                    }
                }
                pub fn included(&self) -> bool {
                    match self {
                        Self::RangeCheck(o) => o.included,
                        Self::Other(o) => o.included,
                    }
                }
                pub(crate) fn set_stop(&mut self, v: usize) {
                    match self {
                        Self::RangeCheck(o) => o.stop_ptr = Some(v),
                        Self::Other(o) => o.stop_ptr = Some(v),
                    }
                }
                pub fn initial_stack(&self) -> Vec<MaybeRelocatable> {
                    if self.included() {
                        vec![Relocatable { segment_index: self.base() as isize, offset: 0 }.into()]
                    } else {
                        vec![]
                    }
                }
            }
        }
        pub mod cairo_runner {
            use crate::felt::Felt252;
            use crate::serde::deserialize_program::BuiltinName;
            use crate::types::program::Program;
            use crate::types::relocatable::{MaybeRelocatable, Relocatable};
            use crate::vm::errors::runner_errors::RunnerError;
            use crate::vm::vm_core::VirtualMachine;
            #[derive(Default, Clone, Debug)]
            pub struct RunResources;
            #[derive(Clone, Debug)]
            pub enum CairoArg {
                Single(MaybeRelocatable),
                Array(Vec<MaybeRelocatable>),
            }
            impl From<MaybeRelocatable> for CairoArg {
                fn from(m: MaybeRelocatable) -> Self {
                    CairoArg::Single(m)
                }
            }
            pub struct CairoRunner {
                pub(crate) program: Program,
                pub program_base: Option<Relocatable>,
                pub relocated_memory: Vec<Option<Felt252>>,
            }
            type R<T> = Result<T, RunnerError>;
            impl CairoRunner {
                pub fn new(program: &Program, _layout: &str, _proof_mode: bool) -> R<Self> {
                    Ok(Self { program: program.clone(), program_base: None, relocated_memory: vec![] })
                }
                pub fn get_program(&self) -> &Program {
                    &self.program
                }
                pub fn get_program_builtins(&self) -> &Vec<BuiltinName> {
                    const E: &Vec<BuiltinName> = &Vec::new();
                    E
                }
                pub fn initialize_function_runner_cairo_1(
                    &mut self,
                    _vm: &mut VirtualMachine,
                    _b: &[BuiltinName],
                ) -> R<()> {
                    Err(RunnerError("Cairo 1 is not modelled".into()))
                }
                #[allow(clippy::too_many_arguments)]
                pub fn run_from_entrypoint<H>(
                    &mut self,
                    _entrypoint: usize,
                    _args: &[&CairoArg],
                    _run_resources: &mut RunResources,
                    _verify_secure: bool,
                    _program_segment_size: Option<usize>,
                    _vm: &mut VirtualMachine,
                    _hint_processor: &mut H,
                ) -> R<()> {
                    Err(RunnerError("Cairo 1 is not modelled".into()))
                }
                pub fn relocate(&mut self, vm: &mut VirtualMachine, _mem: bool) -> R<()> {
                    self.relocated_memory = vm.relocate()?;
                    Ok(())
                }
            }
        }
    }
}
pub mod cairo_run {
    use crate::felt::Felt252;
    use crate::types::program::Program;
    use crate::types::relocatable::{MaybeRelocatable, Relocatable};
    use crate::vm::errors::cairo_run_errors::CairoRunError;
    use crate::vm::runners::builtin_runner::{BuiltinRunner, OtherBuiltinRunner, RangeCheckBuiltinRunner};
    use crate::vm::runners::cairo_runner::CairoRunner;
    use crate::vm::vm_core::VirtualMachine;
    use lambdaworks_math::field::element::FieldElement;
    use lambdaworks_math::unsigned_integer::element::UnsignedInteger;

    #[derive(Debug)]
    pub struct EncodeTraceError(pub usize);
    impl core::fmt::Display for EncodeTraceError {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for EncodeTraceError {}

    pub struct CairoRunConfig<'a> {
        pub entrypoint: &'a str,
        pub trace_enabled: bool,
        pub relocate_mem: bool,
        pub layout: &'a str,
        pub proof_mode: bool,
        pub secure_run: Option<bool>,
    }
    impl<'a> Default for CairoRunConfig<'a> {
        fn default() -> Self {
            CairoRunConfig {
                entrypoint: "main",
                trace_enabled: false,
                relocate_mem: false,
                layout: "plain",
                proof_mode: false,
                secure_run: None,
            }
        }
    }
    fn er<T>(s: impl Into<String>) -> Result<T, CairoRunError> {
        Err(CairoRunError(s.into()))
    }
    pub fn cairo_run<H>(
        program_content: &[u8],
        config: &CairoRunConfig,
        _hint_executor: &mut H,
    ) -> Result<(CairoRunner, VirtualMachine), CairoRunError> {
        let j: serde_json::Value =
            serde_json::from_slice(program_content).map_err(|x| CairoRunError(x.to_string()))?;
        let mut program = Program::default();
        for d in j["data"].as_array().ok_or(CairoRunError("no data".into()))? {
            let s = d.as_str().ok_or(CairoRunError("bad data".into()))?;
            let u = UnsignedInteger::<4>::from_hex(s).map_err(|x| CairoRunError(x.to_string()))?;
            program.data.push(Felt252(FieldElement::new(u)));
        }
        for b in j["builtins"].as_array().unwrap_or(&vec![]) {
            program.builtins.push(b.as_str().unwrap_or("").to_string());
        }
        let key = format!("__main__.{}", config.entrypoint);
        program.main = match j["identifiers"][&key]["pc"].as_u64() {
            Some(pc) => pc as usize,
            None => return er("entrypoint not found"),
        };
        let mut vm = VirtualMachine::new(config.trace_enabled);
        let prog_base = vm.add_memory_segment();
        let exec_base = vm.add_memory_segment();
        let names: &[&'static str] = match config.layout {
            "plain" => &[],
            "small" => &["output", "pedersen", "range_check", "ecdsa"],
            "dex" => &["output", "pedersen", "range_check", "ecdsa"],
            _ => &["output", "pedersen", "range_check", "ecdsa", "bitwise", "ec_op", "keccak", "poseidon"],
        };
        for b in program.builtins.iter() {
            if !names.contains(&b.as_str()) {
                return er("builtin not in layout");
            }
        }
        for n in names {
            let base = vm.add_memory_segment().segment_index as usize;
            let included = program.builtins.iter().any(|b| b == n);
            vm.builtins.push(if *n == "range_check" {
                BuiltinRunner::RangeCheck(RangeCheckBuiltinRunner { base, included, stop_ptr: None })
            } else {
                BuiltinRunner::Other(OtherBuiltinRunner { name: n, base, included, stop_ptr: None })
            });
        }
        let f = |x: crate::vm::errors::vm_errors::VirtualMachineError| CairoRunError(x.0);
        let data: Vec<MaybeRelocatable> =
            program.data.iter().map(|d| MaybeRelocatable::Int(d.clone())).collect();
        vm.load_data(prog_base, &data).map_err(f)?;
        let mut stack: Vec<MaybeRelocatable> = vec![];
        for b in vm.builtins.iter() {
            stack.extend(b.initial_stack());
        }
        let n_builtins = stack.len();
        let fp_seg = vm.add_memory_segment();
        let end = vm.add_memory_segment();
        stack.push(fp_seg.into());
        stack.push(end.into());
        let ap0 = vm.load_data(exec_base, &stack).map_err(f)?;
        let pc0 = Relocatable { segment_index: 0, offset: program.main };
        let ap = vm.run(pc0, ap0, end, 1 << 20).map_err(f)?;
        // final stack: one stop pointer per included builtin, in order, ending at ap
        let mut k = n_builtins;
        for i in 0..vm.builtins.len() {
            if !vm.builtins[i].included() {
                continue;
            }
            let Some(o) = ap.offset.checked_sub(k) else { return er("no stop pointer") };
            k -= 1;
            let p = vm.get(Relocatable { segment_index: ap.segment_index, offset: o }).cloned();
            match p {
                Some(MaybeRelocatable::RelocatableValue(r))
                    if r.segment_index as usize == vm.builtins[i].base() =>
                {
                    vm.builtins[i].set_stop(r.offset)
                }
                _ => return er("bad stop pointer"),
            }
        }
        let mut runner = CairoRunner {
            program,
            program_base: Some(prog_base),
            relocated_memory: vec![],
        };
        runner.relocated_memory = vm.relocate().map_err(|x| CairoRunError(x.0))?;
        Ok((runner, vm))
    }
}
