use crate::rt::*;
use zkevm_opcode_defs::circuit_prices as committed;
use zkevm_opcode_defs::system_params::*;

/// The file the generator writes, as derived from its source by the analyser.
pub mod generated {
    include!(env!("ZKABS_GEN"));
}

fn least(price: u32, capacity: u64, budget: u32) -> bool {
    let p = price as u64;
    p * capacity >= budget as u64 && (p == 0 || (p - 1) * capacity < budget as u64)
}

fn check_unit_prices() {
    let e = ERGS_PER_CIRCUIT;
    prove(least(committed::VM_CYCLE_COST_IN_ERGS, 23000, e), "VM cycle price is the least covering 23000 cycles");
    prove(least(committed::RAM_PERMUTATION_COST_IN_ERGS, 260000, e), "RAM permutation price is the least covering 260000 units");
    prove(least(committed::CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS, 2 * 12100, e), "code decommitment price per word is the least covering 2 * 12100 words");
    prove(least(committed::STORAGE_APPLICATION_COST_IN_ERGS, 118, e), "storage application price is the least covering 118 units");
    prove(least(committed::CODE_DECOMMITTER_SORTER_COST_IN_ERGS, 192500, e), "code decommitter sorter price is the least covering 192500 units");
    prove(least(committed::CODE_DECOMMITMENT_SORTER_COST_IN_ERGS, 192500, e), "code decommitment sorter price is the least covering 192500 units");
    prove(least(committed::LOG_DEMUXER_COST_IN_ERGS, 101500, e), "log demuxer price is the least covering 101500 units");
    prove(least(committed::STORAGE_SORTER_COST_IN_ERGS, 79000, e), "storage sorter price is the least covering 79000 units");
    prove(least(committed::EVENTS_OR_L1_MESSAGES_SORTER_COST_IN_ERGS, 88000, e), "events and L1 messages sorter price is the least covering 88000 units");
    prove(least(committed::INITIAL_WRITES_PUBDATA_HASHER_COST_IN_ERGS, 4600, e), "initial writes hasher price is the least covering 4600 units");
    prove(least(committed::REPEATED_WRITES_PUBDATA_HASHER_COST_IN_ERGS, 7400, e), "repeated writes hasher price is the least covering 7400 units");
    prove(least(committed::KECCAK256_CIRCUIT_COST_IN_ERGS, 2050, e), "keccak price is the least covering 2050 units");
    prove(least(committed::SHA256_CIRCUIT_COST_IN_ERGS, 11500, e), "sha256 price is the least covering 11500 units");
    prove(least(committed::ECRECOVER_CIRCUIT_COST_IN_ERGS, 72, e), "ecrecover price is the least covering 72 units");
}

fn minimum(limit: u64, bytes: u64) -> u32 {
    if MAX_PUBDATA_PER_BLOCK as u64 <= limit * bytes {
        0
    } else {
        ((MAX_TX_ERGS_LIMIT as u64 + limit - 1) / limit) as u32
    }
}

fn check_minimums() {
    let initial = minimum(4600, INITIAL_STORAGE_WRITE_PUBDATA_BYTES as u64);
    let repeated = minimum(7400, REPEATED_STORAGE_WRITE_PUBDATA_BYTES as u64);
    prove(least(committed::L1_MESSAGE_MIN_COST_IN_ERGS, 512, MAX_TX_ERGS_LIMIT), "L1 message minimum is the least keeping a transaction within 512 messages");
    prove(committed::INITIAL_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS == initial, "initial writes minimum: zero where the pubdata limit suffices, else the least keeping 4600 writes");
    prove(committed::REPEATED_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS == repeated, "repeated writes minimum: zero where the pubdata limit suffices, else the least keeping 7400 writes");
    let larger = if initial > repeated { initial } else { repeated };
    prove(committed::STORAGE_WRITE_HASHER_MIN_COST_IN_ERGS == larger, "the storage write minimum is the larger of the two");
}
