#[allow(non_camel_case_types)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BuiltinName {
    output,
    range_check,
    pedersen,
    ecdsa,
    keccak,
    bitwise,
    ec_op,
    poseidon,
    segment_arena,
}

impl BuiltinName {
    pub fn name(&self) -> &'static str {
        match self {
            BuiltinName::output => "output_builtin",
            BuiltinName::range_check => "range_check_builtin",
            BuiltinName::pedersen => "pedersen_builtin",
            BuiltinName::ecdsa => "ecdsa_builtin",
            BuiltinName::keccak => "keccak_builtin",
            BuiltinName::bitwise => "bitwise_builtin",
            BuiltinName::ec_op => "ec_op_builtin",
            BuiltinName::poseidon => "poseidon_builtin",
            BuiltinName::segment_arena => "segment_arena_builtin",
        }
    }
    pub(crate) fn from_name(s: &str) -> Option<Self> {
        Some(match s {
            "output" => BuiltinName::output,
            "range_check" => BuiltinName::range_check,
            "pedersen" => BuiltinName::pedersen,
            "ecdsa" => BuiltinName::ecdsa,
            "keccak" => BuiltinName::keccak,
            "bitwise" => BuiltinName::bitwise,
            "ec_op" => BuiltinName::ec_op,
            "poseidon" => BuiltinName::poseidon,
            "segment_arena" => BuiltinName::segment_arena,
            _ => return None,
        })
    }
}
