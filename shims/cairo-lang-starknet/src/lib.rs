//! Offline stand-in: the compiled-contract container of cairo-lang-starknet 1.1.0.
pub mod casm_contract_class {
    use serde::{Deserialize, Serialize};

    #[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
    pub struct CasmContractEntryPoint {
        pub selector: String,
        pub offset: usize,
        pub builtins: Vec<String>,
    }

    #[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
    pub struct CasmContractEntryPoints {
        #[serde(rename = "EXTERNAL")]
        pub external: Vec<CasmContractEntryPoint>,
        #[serde(rename = "L1_HANDLER")]
        pub l1_handler: Vec<CasmContractEntryPoint>,
        #[serde(rename = "CONSTRUCTOR")]
        pub constructor: Vec<CasmContractEntryPoint>,
    }

    pub type Hint = serde_json::Value;

    #[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
    pub struct CasmContractClass {
        pub prime: String,
        pub compiler_version: String,
        pub bytecode: Vec<String>,
        pub hints: Vec<(usize, Vec<Hint>)>,
        #[serde(default)]
        pub pythonic_hints: Option<Vec<(usize, Vec<String>)>>,
        #[serde(default)]
        pub entry_points_by_type: CasmContractEntryPoints,
    }
}
