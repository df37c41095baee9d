use crate::rt::*;
use zkevm_opcode_defs::ethereum_types::Address;
use zkevm_opcode_defs::system_params::*;

fn all() -> [(u16, u16); 18] {
    [
        (ADDRESS_ECRECOVER, 1),
        (ADDRESS_SHA256, 2),
        (ADDRESS_RIPEMD160, 3),
        (ADDRESS_IDENTITY, 4),
        (ADDRESS_BOOTLOADER, 0x8001),
        (ADDRESS_ACCOUNT_CODE_STORAGE, 0x8002),
        (ADDRESS_NONCE_HOLDER, 0x8003),
        (ADDRESS_KNOWN_CODES_STORAGE, 0x8004),
        (ADDRESS_IMMUTABLE_SIMULATOR, 0x8005),
        (ADDRESS_CONTRACT_DEPLOYER, 0x8006),
        (ADDRESS_FORCE_DEPLOYER, 0x8007),
        (ADDRESS_L1_MESSENGER, 0x8008),
        (ADDRESS_MSG_VALUE, 0x8009),
        (ADDRESS_ETH_TOKEN, 0x800a),
        (ADDRESS_SYSTEM_CONTEXT, 0x800b),
        (ADDRESS_BOOTLOADER_UTILITIES, 0x800c),
        (ADDRESS_EVENT_WRITER, 0x800d),
        (ADDRESS_KECCAK256, 0x8010),
    ]
}

fn check_numbers() {
    let a = all();
    for i in 0..a.len() {
        note("address", &a[i].1);
        prove(a[i].0 == a[i].1, "the published address is the protocol's number");
        prove((a[i].0 as u64) < ADDRESS_UNRESTRICTED_SPACE, "the address is in the restricted space");
        for j in 0..i {
            prove(a[i].0 != a[j].0, "addresses are pairwise distinct");
        }
    }
    prove(ADDRESS_UNRESTRICTED_SPACE == 1 << 16, "the restricted space ends at 2^16");
}

fn formal(a: &Address, low: u16, what: &str) {
    let b = a.0;
    let mut ok = b[18] == (low >> 8) as u8 && b[19] == low as u8;
    for i in 0..18 {
        ok = ok & (b[i] == 0);
    }
    prove(ok, what);
}

fn check_formal() {
    formal(&BOOTLOADER_FORMAL_ADDRESS, 0x8001, "bootloader formal address");
    prove(BOOTLOADER_FORMAL_ADDRESS_LOW == ADDRESS_BOOTLOADER, "bootloader names agree");
    formal(&DEPLOYER_SYSTEM_CONTRACT_ADDRESS, DEPLOYER_SYSTEM_CONTRACT_ADDRESS_LOW, "deployer formal address is that of its numeric form");
    prove(DEPLOYER_SYSTEM_CONTRACT_ADDRESS_LOW == 0x8002, "the legacy deployer address is 0x8002");
    formal(&NONCE_MANAGER_SYSTEM_CONTRACT_ADDRESS, ADDRESS_NONCE_HOLDER, "nonce manager formal address");
    formal(&KNOWN_CODE_FACTORY_SYSTEM_CONTRACT_ADDRESS, ADDRESS_KNOWN_CODES_STORAGE, "known code factory formal address");
    formal(&KECCAK256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS, ADDRESS_KECCAK256, "keccak formal address");
    prove(KECCAK256_ROUND_FUNCTION_PRECOMPILE_ADDRESS == ADDRESS_KECCAK256, "keccak names agree");
    formal(&SHA256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS, ADDRESS_SHA256, "sha256 formal address");
    prove(SHA256_ROUND_FUNCTION_PRECOMPILE_ADDRESS == ADDRESS_SHA256, "sha256 names agree");
    formal(&ECRECOVER_INNER_FUNCTION_PRECOMPILE_FORMAL_ADDRESS, ADDRESS_ECRECOVER, "ecrecover formal address");
    prove(ECRECOVER_INNER_FUNCTION_PRECOMPILE_ADDRESS == ADDRESS_ECRECOVER, "ecrecover names agree");
}
