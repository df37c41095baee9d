use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::*;

fn check_opcode() {
    let o: Opcode = any("opcode");
    prove(o.requires_kernel_mode() == needs_kernel(o), "kernel mode is required by exactly the protocol's set");
    prove(o.can_be_used_in_static_context() == static_ok(o), "exactly the protocol's set is forbidden in a static context");
}

fn check_variant() {
    let v: OpcodeVariant = any("variant");
    prove(v.requires_kernel_mode() == needs_kernel(v.opcode), "the kernel-mode answer of a variant is that of its operation");
    prove(v.can_be_used_in_static_context() == static_ok(v.opcode), "the static-context answer of a variant is that of its operation");
}

fn inner<T: OpcodeProps>(t: T, o: Opcode) {
    prove(t.requires_kernel_mode() == needs_kernel(o), "the concrete operation gives the same kernel-mode answer");
    prove(t.can_be_used_in_static_context() == static_ok(o), "the concrete operation gives the same static-context answer");
}

fn check_inner() {
    for x in all_ops() {
        let o = x.op;
        match o {
            Opcode::Invalid(t) => inner(t, o),
            Opcode::Nop(t) => inner(t, o),
            Opcode::Add(t) => inner(t, o),
            Opcode::Sub(t) => inner(t, o),
            Opcode::Mul(t) => inner(t, o),
            Opcode::Div(t) => inner(t, o),
            Opcode::Jump(t) => inner(t, o),
            Opcode::Context(t) => inner(t, o),
            Opcode::Shift(t) => inner(t, o),
            Opcode::Binop(t) => inner(t, o),
            Opcode::Ptr(t) => inner(t, o),
            Opcode::NearCall(t) => inner(t, o),
            Opcode::Log(t) => inner(t, o),
            Opcode::FarCall(t) => inner(t, o),
            Opcode::Ret(t) => inner(t, o),
            Opcode::UMA(t) => inner(t, o),
        }
    }
}

fn check_masks() {
    let shift = total_description_bits_rounded_for_version(DEFAULT_ISA_VERSION);
    for i in 0..OPCODES_TABLE.len() {
        note("slot", &i);
        let v = OPCODES_TABLE[i];
        let m = OPCODES_PROPS_INTEGER_BITMASKS[i] >> shift;
        prove(((m >> KERNER_MODE_FLAG_IDX) & 1 == 1) == needs_kernel(v.opcode), "the bitmask gives the same kernel-mode answer");
        prove(((m >> CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_IDX) & 1 == 1) == static_ok(v.opcode), "the bitmask gives the same static-context answer");
    }
}
