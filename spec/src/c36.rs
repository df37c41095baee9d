use crate::rt::*;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::system_params::*;
use zkevm_opcode_defs::*;

fn check_layout() {
    prove(OPCODES_TABLE_WIDTH == 11 && CONDITIONAL_BITS_SHIFT == 13 && CONDITIONAL_BITS_WIDTH == 3, "variant and condition fields");
    prove(OPCODES_TABLE_WIDTH <= CONDITIONAL_BITS_SHIFT, "the condition lies above the variant number");
    prove(CONDITIONAL_BITS_SHIFT + CONDITIONAL_BITS_WIDTH == VARIANT_AND_CONDITION_ENCODING_BITS, "variant, gap and condition fill the low 16 bits");
    prove(VARIANT_AND_CONDITION_ENCODING_BITS == 16, "16 low bits");
    prove(SRC_REGS_SHIFT as usize == VARIANT_AND_CONDITION_ENCODING_BITS, "source registers follow the condition");
    prove(REGISTER_INDEX_ENCODING_BITS == 4, "register indexes take four bits");
    prove(DST_REGS_SHIFT as usize == SRC_REGS_SHIFT as usize + 2 * REGISTER_INDEX_ENCODING_BITS, "destination registers follow the source registers");
    prove(DST_REGS_SHIFT as usize + 2 * REGISTER_INDEX_ENCODING_BITS == 32, "immediates start at bit 32");
    prove(REGISTERS_COUNT == 15 && REGISTERS_COUNT < 1 << REGISTER_INDEX_ENCODING_BITS, "the registers and the zero register fit the index");
}

fn check_registers() {
    let mut used = [0u32; 15];
    used[CALL_IMPLICIT_CALLDATA_FAT_PTR_REGISTER as usize] += 1;
    used[CALL_IMPLICIT_CONSTRUCTOR_MARKER_REGISTER as usize] += 1;
    used[CALL_IMPLICIT_PARAMETER_REG_IDX as usize] += 1;
    for r in CALL_SYSTEM_ABI_REGISTERS {
        used[r as usize] += 1;
    }
    for r in CALL_RESERVED_RANGE {
        used[r as usize] += 1;
    }
    for r in 0..15 {
        note("register", &r);
        prove(used[r] == 1, "each register has exactly one role in a far call");
    }
    prove(CALL_IMPLICIT_CALLDATA_FAT_PTR_REGISTER == 0 && CALL_IMPLICIT_CONSTRUCTOR_MARKER_REGISTER == 1, "calldata pointer and constructor marker registers");
    prove(CALL_SYSTEM_ABI_REGISTERS.start == 2 && CALL_SYSTEM_ABI_REGISTERS.end == 12, "system ABI registers");
    prove(CALL_RESERVED_RANGE.start == 12 && CALL_RESERVED_RANGE.end == 14 && CALL_IMPLICIT_PARAMETER_REG_IDX == 14, "reserved and implicit parameter registers");
    let r = [RET_IMPLICIT_RETURNDATA_PARAMS_REGISTER, RET_RESERVED_REGISTER_0, RET_RESERVED_REGISTER_1, RET_RESERVED_REGISTER_2];
    for i in 0..4 {
        prove(r[i] as usize == i, "return registers are the first four");
    }
}

fn check_pages() {
    let p = [BOOTLOADER_CALLDATA_PAGE, BOOTLOADER_CODE_PAGE, BOOTLOADER_STACK_PAGE, BOOTLOADER_HEAP_PAGE, BOOTLOADER_AUX_HEAP_PAGE];
    for i in 0..5 {
        prove(p[i] != UNMAPPED_PAGE, "a bootloader page is not the unmapped page");
        prove(p[i] < STARTING_BASE_PAGE, "a bootloader page is below the first dynamic page");
        for j in 0..i {
            prove(p[i] != p[j], "bootloader pages are distinct");
        }
    }
    prove(BOOTLOADER_CODE_PAGE == BOOTLOADER_BASE_PAGE && BOOTLOADER_BASE_PAGE == 8, "the bootloader base page");
    prove(BOOTLOADER_CALLDATA_PAGE == 7 && BOOTLOADER_STACK_PAGE == 9 && BOOTLOADER_HEAP_PAGE == 10 && BOOTLOADER_AUX_HEAP_PAGE == 11, "the bootloader pages");
    prove(UNMAPPED_PAGE == 0, "the unmapped page is 0");
    prove(NEW_MEMORY_PAGES_PER_FAR_CALL >= 4 && STARTING_BASE_PAGE % NEW_MEMORY_PAGES_PER_FAR_CALL == 0, "a far call gets its own pages");
    prove(STARTING_BASE_PAGE == 2048 && STARTING_TIMESTAMP == 1024 && NEW_MEMORY_PAGES_PER_FAR_CALL == 8 && TIME_DELTA_PER_CYCLE == 4, "the starting counters");
    prove(INITIAL_SP_ON_FAR_CALL == 0, "the stack pointer starts at 0");
}

fn check_offsets() {
    let o: u32 = any("offset");
    assume(o <= MAX_OFFSET_TO_DEREF_LOW_U32);
    prove(o as u64 + 32 <= 0xffff_ffff, "a dereferenceable offset plus 32 stays in the 32-bit range");
    prove(MAX_OFFSET_TO_DEREF_LOW_U32 as u64 + 32 == 0xffff_ffff, "the maximum is the largest such offset");
    prove(MAX_OFFSET_TO_DEREF == U256([MAX_OFFSET_TO_DEREF_LOW_U32 as u64, 0, 0, 0]), "both forms of the maximum agree");
    prove(MAX_OFFSET_FOR_ADD_SUB == U256([1 << 32, 0, 0, 0]), "pointer arithmetic is bounded by 2^32");
}

fn check_misc() {
    let a = [STORAGE_AUX_BYTE, EVENT_AUX_BYTE, L1_MESSAGE_AUX_BYTE, PRECOMPILE_AUX_BYTE];
    for i in 0..4 {
        prove(a[i] as usize == i, "the log aux bytes are 0 to 3");
    }
    let f = [
        SET_FLAGS_FLAG_IDX,
        SWAP_OPERANDS_FLAG_IDX_FOR_ARITH_OPCODES,
        SWAP_OPERANDS_FLAG_IDX_FOR_PTR_OPCODE,
        FIRST_MESSAGE_FLAG_IDX,
        RET_TO_LABEL_BIT_IDX,
        FAR_CALL_STATIC_FLAG_IDX,
        FAR_CALL_SHARD_FLAG_IDX,
        UMA_INCREMENT_FLAG_IDX,
    ];
    for i in 0..8 {
        prove(f[i] < INVALID_OPCODE_VARIANT.flags.len(), "a flag index names one of the two flag slots");
    }
    prove(SET_FLAGS_FLAG_IDX != SWAP_OPERANDS_FLAG_IDX_FOR_ARITH_OPCODES, "arithmetic flags are distinct");
    prove(FAR_CALL_STATIC_FLAG_IDX != FAR_CALL_SHARD_FLAG_IDX, "far call flags are distinct");
    prove(MEMORY_GROWTH_ERGS_PER_BYTE == 1, "memory growth costs one erg per byte");
}
