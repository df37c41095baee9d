use crate::rt::*;
use zkevm_opcode_defs::system_params::*;
use zkevm_opcode_defs::*;

fn check_budgets() {
    prove(MAX_TX_ERGS_LIMIT == 80_000_000, "the ergs limit of a transaction");
    prove(VM_INITIAL_FRAME_ERGS == 0xffff_ffff, "the first frame has the full 32-bit budget");
    prove(ERGS_PER_CIRCUIT == 80_000 && MAX_TX_ERGS_LIMIT % ERGS_PER_CIRCUIT == 0, "the ergs of one circuit");
    prove(INVALID_OPCODE_ERGS == 0xffff_ffff, "the invalid instruction's price");
    prove(CALL_LIKE_ERGS_COST == 20, "the call surcharge");
    prove(ERGS_PER_CODE_WORD_DECOMMITTMENT == circuit_prices::CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS, "the price of one word of code");
}

fn check_pubdata() {
    prove(INITIAL_STORAGE_WRITE_PUBDATA_BYTES == 32 + 32, "a first write publishes its key and value");
    prove(REPEATED_STORAGE_WRITE_PUBDATA_BYTES == 8 + 32, "a repeated write publishes its index and value");
    prove(L1_MESSAGE_PUBDATA_BYTES == 88, "an L1 message publishes its 88 bytes");
    prove(MSG_VALUE_SIMULATOR_PUBDATA_BYTES_TO_PREPAY == 128, "the simulator prepays four words");
    prove(MAX_PUBDATA_PER_BLOCK == 110_000 && MAX_PUBDATA_PER_BLOCK < 128 * 1024, "the public data of a batch fits one L1 transaction");
}

fn check_simulator() {
    let o = DECOMMITMENT_MSG_VALUE_SIMULATOR_OVERHEAD;
    prove(o == 64_000, "the simulator's decommitment overhead");
    prove(MSG_VALUE_SIMULATOR_ADDITIVE_COST == 11_500 + o, "the simulator's additive cost includes the overhead");
    prove(MSG_VALUE_SIMULATOR_MIN_USED_ERGS == 8_000 + o, "the simulator's minimum use includes the overhead");
    prove(MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION == 3_501, "the reentrancy minimum");
}

fn check_frames() {
    prove(BOOTLOADER_MAX_MEMORY == 0xffff_ffff, "the bootloader has the whole heap");
    prove(NEW_FRAME_MEMORY_STIPEND == 1024, "a new frame has 1 KB of heap free");
    prove(LOG2_NUM_ADDRESSABLE_HEAP_BYTES == 24 && NEW_FRAME_MEMORY_STIPEND < 1 << LOG2_NUM_ADDRESSABLE_HEAP_BYTES, "the heap address width");
    prove(INITIAL_FRAME_SUCCESSFUL_EXIT_PC == 0 && INITIAL_FRAME_FORMAL_EH_LOCATION == 0xffff, "the exits of the first frame");
    prove(MAX_PENDING_CYCLES == 1 && NUM_SPONGES == 4, "the pending cycles and sponges of a cycle");
}

// The packed width is that of the packed form: nothing above it, everything below it used.
fn check_pointer_width() {
    let p = FatPointer { offset: any("offset"), memory_page: any("page"), start: any("start"), length: any("length") };
    let w = p.to_u256();
    prove(FatPointer::FAT_POINTER_PACKED_WIDTH == 128, "a packed pointer takes 128 bits");
    prove(w.0[2] == 0 && w.0[3] == 0, "packing a pointer leaves the bits above its width clear");
}
