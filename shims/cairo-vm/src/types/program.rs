use crate::felt::Felt252;
use crate::serde::deserialize_program::BuiltinName;
use crate::types::relocatable::MaybeRelocatable;
use crate::vm::errors::cairo_run_errors::ProgramError;
use cairo_lang_starknet::casm_contract_class::CasmContractClass;

#[derive(Clone, Debug, Default)]
pub struct Program {
    pub(crate) builtins: Vec<BuiltinName>,
    pub(crate) data: Vec<MaybeRelocatable>,
    pub(crate) main: Option<usize>,
    pub(crate) has_hints: bool,
}

impl Program {
    pub fn from_bytes(bytes: &[u8], entrypoint: Option<&str>) -> Result<Program, ProgramError> {
        let json: serde_json::Value =
            serde_json::from_slice(bytes).map_err(|e| ProgramError::Parse(e.to_string()))?;
        let bad = |m: &str| ProgramError::Parse(m.to_string());
        let builtins = json["builtins"]
            .as_array()
            .ok_or_else(|| bad("builtins"))?
            .iter()
            .map(|b| b.as_str().and_then(BuiltinName::from_name).ok_or_else(|| bad("builtin")))
            .collect::<Result<Vec<_>, _>>()?;
        let data = json["data"]
            .as_array()
            .ok_or_else(|| bad("data"))?
            .iter()
            .map(|v| v.as_str().and_then(Felt252::from_hex).ok_or_else(|| bad("data")))
            .map(|v| v.map(MaybeRelocatable::from))
            .collect::<Result<Vec<_>, _>>()?;
        let main = match entrypoint {
            None => None,
            Some(e) => Some(
                json["identifiers"][format!("__main__.{e}")]["pc"]
                    .as_u64()
                    .ok_or_else(|| ProgramError::EntrypointNotFound(e.to_string()))?
                    as usize,
            ),
        };
        let has_hints = json["hints"].as_object().map(|h| !h.is_empty()).unwrap_or(false);
        Ok(Program { builtins, data, main, has_hints })
    }
    pub fn data_len(&self) -> usize {
        self.data.len()
    }
    pub fn builtins_len(&self) -> usize {
        self.builtins.len()
    }
}

impl TryFrom<CasmContractClass> for Program {
    type Error = ProgramError;
    fn try_from(value: CasmContractClass) -> Result<Self, ProgramError> {
        let data = value
            .bytecode
            .iter()
            .map(|b| Felt252::from_hex(b).map(MaybeRelocatable::from))
            .collect::<Option<Vec<_>>>()
            .ok_or_else(|| ProgramError::Parse("bytecode".into()))?;
        Ok(Program { builtins: vec![], data, main: None, has_hints: false })
    }
}
