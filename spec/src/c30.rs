use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::*;

fn check_queries() {
    let v: OpcodeVariant = any("variant");
    let want = match v.opcode {
        Opcode::Sub(_) | Opcode::Div(_) | Opcode::Shift(_) => v.flags[1],
        Opcode::Ptr(_) => v.flags[0],
        _ => false,
    };
    prove(v.swap_operands() == want, "operands are swapped exactly for sub/div/shift with flag 1 and ptr with flag 0");
    prove(v.is_explicit_panic() == matches!(v.opcode, Opcode::Invalid(_)), "an explicit panic is exactly the invalid opcode");
}

fn check_table() {
    for i in 0..OPCODES_TABLE.len() {
        note("slot", &i);
        let v = OPCODES_TABLE[i];
        let flag1 = matches!(v.opcode, Opcode::Sub(_) | Opcode::Div(_) | Opcode::Shift(_) | Opcode::FarCall(_));
        let flag0 = match v.opcode {
            Opcode::Add(_) | Opcode::Sub(_) | Opcode::Mul(_) | Opcode::Div(_) | Opcode::Binop(_) | Opcode::Shift(_)
            | Opcode::Ptr(_) | Opcode::FarCall(_) | Opcode::Ret(_) | Opcode::UMA(_)
            | Opcode::Log(LogOpcode::Event) | Opcode::Log(LogOpcode::ToL1Message) => true,
            _ => false,
        };
        prove(flag0 || !v.flags[0], "flag 0 is carried only by operations that define it");
        prove(flag1 || !v.flags[1], "flag 1 is carried only by operations that define it");
    }
    // both values of a defined flag occur
    for x in all_ops() {
        note("opcode", &(family_no(x.op), sub_no(x.op)));
        let (mut f0, mut f1) = (false, false);
        for v in OPCODES_TABLE.iter() {
            if v.opcode == x.op {
                f0 = f0 | v.flags[0];
                f1 = f1 | v.flags[1];
            }
        }
        prove(f0 == (x.flags >= 1) && f1 == (x.flags >= 2), "a defined flag can be set");
    }
}

fn check_indexes() {
    prove(SET_FLAGS_FLAG_IDX == 0, "set-flags is flag 0");
    prove(SWAP_OPERANDS_FLAG_IDX_FOR_ARITH_OPCODES == 1, "arithmetic swap is flag 1");
    prove(SWAP_OPERANDS_FLAG_IDX_FOR_PTR_OPCODE == 0, "pointer swap is flag 0");
    prove(FAR_CALL_STATIC_FLAG_IDX == 0 && FAR_CALL_SHARD_FLAG_IDX == 1, "far call static and shard are flags 0 and 1");
    prove(FIRST_MESSAGE_FLAG_IDX == 0, "first message is flag 0");
    prove(RET_TO_LABEL_BIT_IDX == 0, "ret to label is flag 0");
    prove(UMA_INCREMENT_FLAG_IDX == 0, "memory access increment is flag 0");
}
