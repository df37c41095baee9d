use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::circuit_prices::*;
use zkevm_opcode_defs::system_params::*;
use zkevm_opcode_defs::*;

fn check_storage_write() {
    let p = LogOpcode::StorageWrite.ergs_price() as u64;
    prove(p > 2300, "a storage write costs more than the transfer stipend");
    prove(MSG_VALUE_SIMULATOR_ADDITIVE_COST >= MSG_VALUE_SIMULATOR_MIN_USED_ERGS, "the simulator passes on a non-negative amount");
    prove(p > MSG_VALUE_SIMULATOR_ADDITIVE_COST as u64 - MSG_VALUE_SIMULATOR_MIN_USED_ERGS as u64, "a storage write costs more than the simulator passes on unspent");
    prove(MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION as u64 == min_reentrancy(), "the reentrancy minimum is one more than the larger of the two");
    let h = STORAGE_WRITE_HASHER_MIN_COST_IN_ERGS as u64;
    let want = if min_reentrancy() > h { min_reentrancy() } else { h };
    prove(MIN_STORAGE_WRITE_COST as u64 == want, "the storage write minimum is the larger of its two minimums");
    prove(p >= MIN_STORAGE_WRITE_COST as u64, "a storage write costs at least its minimum");
    prove(OPCODES_PRICES[slot_of(Opcode::Log(LogOpcode::StorageWrite))] as u64 == p, "the price table charges that price");
}

fn slot_of(o: Opcode) -> usize {
    let mut r = 0;
    for i in 0..OPCODES_TABLE.len() {
        if OPCODES_TABLE[i].opcode == o && r == 0 {
            r = i;
        }
    }
    r
}

fn check_l1_messages() {
    let p = LogOpcode::ToL1Message.ergs_price() as u64;
    prove(p * 512 >= MAX_TX_ERGS_LIMIT as u64, "a transaction at the ergs limit sends at most 512 L1 messages");
    prove(L1_MESSAGE_MIN_COST_IN_ERGS as u64 * 512 >= MAX_TX_ERGS_LIMIT as u64, "the published L1 message minimum alone keeps the circuit limit");
    prove(p >= L1_MESSAGE_MIN_COST_IN_ERGS as u64, "an L1 message costs at least its minimum");
}

fn check_calls() {
    let near = NearCallOpcode.ergs_price() as u64;
    prove(near >= CALL_LIKE_ERGS_COST as u64, "a near call costs at least the call surcharge");
    let depth = VM_MAX_STACK_DEPTH as u64;
    prove(VM_INITIAL_FRAME_ERGS as u64 / near <= depth, "near calls cannot exceed the call stack depth");
    for f in [FarCallOpcode::Normal, FarCallOpcode::Delegate, FarCallOpcode::Mimic] {
        let far = f.ergs_price() as u64;
        prove(far >= CALL_LIKE_ERGS_COST as u64, "a far call costs at least the call surcharge");
        prove(VM_INITIAL_FRAME_ERGS as u64 / far <= depth, "far calls cannot exceed the call stack depth");
    }
    prove(depth == 0xffff_ffff / 20 + 80, "the call stack depth is what any frame can pay for plus the margin");
    prove(MAX_TX_ERGS_LIMIT as u64 <= VM_INITIAL_FRAME_ERGS as u64, "a transaction fits in the initial frame");
}

fn check_invalid() {
    let budget: u32 = any("frame ergs");
    prove(InvalidOpcode.ergs_price() >= budget, "the invalid instruction consumes any budget");
    prove(VM_INITIAL_FRAME_ERGS <= InvalidOpcode.ergs_price(), "the invalid instruction consumes the initial frame's budget");
}
