use crate::rt::*;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::system_params::*;
use zkevm_opcode_defs::*;

fn forced<T>(t: &T) -> bool {
    let _ = t;
    true
}

// The tables are forced in an order in which every one of them comes before
// something it is needed by; the queries over the crate force each of them first.
fn check_tables() {
    prove(forced(&*PANIC_BITSPREAD_U64), "panic bitmask");
    prove(forced(&*NOP_BITSPREAD_U64), "nop bitmask");
    prove(forced(&*PANIC_OPCODE_VARIANT), "panic variant");
    prove(forced(&*NOP_OPCODE_VARIANT), "nop variant");
    prove(forced(&*OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP), "canonical index map");
    prove(forced(&*OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP), "monotonic number map");
    prove(forced(&*OPCODES_PROPS_INTEGER_BITMASKS), "bitmasks");
    prove(forced(&*OPCODES_PRICES), "prices");
    prove(forced(&*OPCODES_TABLE), "opcode table");
    prove(forced(&*OPCODE_PROTOTYPES), "prototypes");
    prove(forced(&*NUM_LOGICAL_OPCODES), "number of opcodes");
    prove(forced(&*NUM_INPUT_VARIANTS), "number of source modes");
    prove(forced(&*NUM_OUTPUT_VARIANTS), "number of destination modes");
}

fn check_addresses() {
    prove(forced(&*BOOTLOADER_FORMAL_ADDRESS), "bootloader address");
    prove(forced(&*DEPLOYER_SYSTEM_CONTRACT_ADDRESS), "deployer address");
    prove(forced(&*NONCE_MANAGER_SYSTEM_CONTRACT_ADDRESS), "nonce manager address");
    prove(forced(&*KNOWN_CODE_FACTORY_SYSTEM_CONTRACT_ADDRESS), "known code factory address");
    prove(forced(&*KECCAK256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS), "keccak address");
    prove(forced(&*SHA256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS), "sha256 address");
    prove(forced(&*ECRECOVER_INNER_FUNCTION_PRECOMPILE_FORMAL_ADDRESS), "ecrecover address");
}
