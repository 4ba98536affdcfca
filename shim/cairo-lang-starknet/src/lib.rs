//! Stand-in: only the type the runner names (Cairo 1 execution is not modelled).
pub mod casm_contract_class {
    #[derive(Clone, Debug, serde::Deserialize)]
    pub struct CasmContractClass {
        #[serde(default)]
        pub bytecode: serde_json::Value,
        #[serde(default)]
        pub hints: serde_json::Value,
    }
}
