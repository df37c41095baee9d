//! The protocol's instruction set as the properties state it, written independently of the
//! code under analysis (it borrows only the public names of the instructions).
use zkevm_opcode_defs::*;

/// Addressing of one operand: register only, register or immediate, any mode.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum K { R, Ri, F }

#[derive(Clone, Copy)]
pub struct Op {
    pub op: Opcode,
    pub src: K,
    pub dst: K,
    pub flags: usize,
}

pub fn op(op: Opcode, src: K, dst: K, flags: usize) -> Op { Op { op, src, dst, flags } }

/// Every operation in deployed order, with its ISA version 0 addressing.
pub fn ops_v0() -> [Op; 42] {
    use K::*;
    [
        op(Opcode::Invalid(InvalidOpcode), R, R, 0),
        op(Opcode::Nop(NopOpcode), F, F, 0),
        op(Opcode::Add(AddOpcode::Add), F, F, 1),
        op(Opcode::Sub(SubOpcode::Sub), F, F, 2),
        op(Opcode::Mul(MulOpcode), F, F, 1),
        op(Opcode::Div(DivOpcode), F, F, 2),
        op(Opcode::Jump(JumpOpcode), F, R, 0),
        op(Opcode::Binop(BinopOpcode::Xor), F, F, 1),
        op(Opcode::Binop(BinopOpcode::And), F, F, 1),
        op(Opcode::Binop(BinopOpcode::Or), F, F, 1),
        op(Opcode::Shift(ShiftOpcode::Shl), F, F, 2),
        op(Opcode::Shift(ShiftOpcode::Shr), F, F, 2),
        op(Opcode::Shift(ShiftOpcode::Rol), F, F, 2),
        op(Opcode::Shift(ShiftOpcode::Ror), F, F, 2),
        op(Opcode::Ptr(PtrOpcode::Add), F, F, 1),
        op(Opcode::Ptr(PtrOpcode::Sub), F, F, 1),
        op(Opcode::Ptr(PtrOpcode::Pack), F, F, 1),
        op(Opcode::Ptr(PtrOpcode::Shrink), F, F, 1),
        op(Opcode::NearCall(NearCallOpcode), R, R, 0),
        op(Opcode::Context(ContextOpcode::This), R, R, 0),
        op(Opcode::Context(ContextOpcode::Caller), R, R, 0),
        op(Opcode::Context(ContextOpcode::CodeAddress), R, R, 0),
        op(Opcode::Context(ContextOpcode::Meta), R, R, 0),
        op(Opcode::Context(ContextOpcode::ErgsLeft), R, R, 0),
        op(Opcode::Context(ContextOpcode::Sp), R, R, 0),
        op(Opcode::Context(ContextOpcode::GetContextU128), R, R, 0),
        op(Opcode::Context(ContextOpcode::SetContextU128), R, R, 0),
        op(Opcode::Context(ContextOpcode::SetErgsPerPubdataByte), R, R, 0),
        op(Opcode::Context(ContextOpcode::IncrementTxNumber), R, R, 0),
        op(Opcode::Log(LogOpcode::StorageRead), R, R, 0),
        op(Opcode::Log(LogOpcode::StorageWrite), R, R, 0),
        op(Opcode::Log(LogOpcode::ToL1Message), R, R, 1),
        op(Opcode::Log(LogOpcode::Event), R, R, 1),
        op(Opcode::Log(LogOpcode::PrecompileCall), R, R, 0),
        op(Opcode::FarCall(FarCallOpcode::Normal), R, R, 2),
        op(Opcode::FarCall(FarCallOpcode::Delegate), R, R, 2),
        op(Opcode::FarCall(FarCallOpcode::Mimic), R, R, 2),
        op(Opcode::Ret(RetOpcode::Ok), R, R, 1),
        op(Opcode::Ret(RetOpcode::Revert), R, R, 1),
        op(Opcode::Ret(RetOpcode::Panic), R, R, 1),
        op(Opcode::UMA(UMAOpcode::HeapRead), R, R, 1),
        op(Opcode::UMA(UMAOpcode::HeapWrite), R, R, 1),
    ]
}

pub fn ops_v0_tail() -> [Op; 3] {
    use K::*;
    [
        op(Opcode::UMA(UMAOpcode::AuxHeapRead), R, R, 1),
        op(Opcode::UMA(UMAOpcode::AuxHeapWrite), R, R, 1),
        op(Opcode::UMA(UMAOpcode::FatPointerRead), R, R, 1),
    ]
}

pub fn all_ops() -> Vec<Op> {
    let mut v = Vec::new();
    for o in ops_v0() { v.push(o); }
    for o in ops_v0_tail() { v.push(o); }
    v
}

/// Is this one of the four heap accesses that gained an immediate form in ISA version 1?
pub fn heap_access(o: Opcode) -> bool {
    matches!(
        o,
        Opcode::UMA(UMAOpcode::HeapRead)
            | Opcode::UMA(UMAOpcode::HeapWrite)
            | Opcode::UMA(UMAOpcode::AuxHeapRead)
            | Opcode::UMA(UMAOpcode::AuxHeapWrite)
    )
}

pub fn modes() -> [ImmMemHandlerFlags; 6] {
    [
        ImmMemHandlerFlags::UseRegOnly,
        ImmMemHandlerFlags::UseStackWithPushPop,
        ImmMemHandlerFlags::UseStackWithOffset,
        ImmMemHandlerFlags::UseAbsoluteOnStack,
        ImmMemHandlerFlags::UseImm16Only,
        ImmMemHandlerFlags::UseCodePage,
    ]
}

pub fn mode_no(m: ImmMemHandlerFlags) -> usize {
    match m {
        ImmMemHandlerFlags::UseRegOnly => 0,
        ImmMemHandlerFlags::UseStackWithPushPop => 1,
        ImmMemHandlerFlags::UseStackWithOffset => 2,
        ImmMemHandlerFlags::UseAbsoluteOnStack => 3,
        ImmMemHandlerFlags::UseImm16Only => 4,
        ImmMemHandlerFlags::UseCodePage => 5,
    }
}

pub fn operand_no(o: Operand) -> usize {
    match o {
        Operand::RegOnly => 0,
        Operand::RegOrImm(RegOrImmFlags::UseRegOnly) => 0,
        Operand::RegOrImm(RegOrImmFlags::UseImm16Only) => 4,
        Operand::Full(m) => mode_no(m),
    }
}

pub fn family_no(o: Opcode) -> usize {
    match o {
        Opcode::Invalid(_) => 0,
        Opcode::Nop(_) => 1,
        Opcode::Add(_) => 2,
        Opcode::Sub(_) => 3,
        Opcode::Mul(_) => 4,
        Opcode::Div(_) => 5,
        Opcode::Jump(_) => 6,
        Opcode::Context(_) => 7,
        Opcode::Shift(_) => 8,
        Opcode::Binop(_) => 9,
        Opcode::Ptr(_) => 10,
        Opcode::NearCall(_) => 11,
        Opcode::Log(_) => 12,
        Opcode::FarCall(_) => 13,
        Opcode::Ret(_) => 14,
        Opcode::UMA(_) => 15,
    }
}

pub fn sub_no(o: Opcode) -> usize {
    match o {
        Opcode::Binop(BinopOpcode::And) => 1,
        Opcode::Binop(BinopOpcode::Or) => 2,
        Opcode::Shift(ShiftOpcode::Shr) => 1,
        Opcode::Shift(ShiftOpcode::Rol) => 2,
        Opcode::Shift(ShiftOpcode::Ror) => 3,
        Opcode::Ptr(PtrOpcode::Sub) => 1,
        Opcode::Ptr(PtrOpcode::Pack) => 2,
        Opcode::Ptr(PtrOpcode::Shrink) => 3,
        Opcode::Context(c) => match c {
            ContextOpcode::This => 0,
            ContextOpcode::Caller => 1,
            ContextOpcode::CodeAddress => 2,
            ContextOpcode::Meta => 3,
            ContextOpcode::ErgsLeft => 4,
            ContextOpcode::Sp => 5,
            ContextOpcode::GetContextU128 => 6,
            ContextOpcode::SetContextU128 => 7,
            ContextOpcode::SetErgsPerPubdataByte => 8,
            ContextOpcode::IncrementTxNumber => 9,
        },
        Opcode::Log(c) => match c {
            LogOpcode::StorageRead => 0,
            LogOpcode::StorageWrite => 1,
            LogOpcode::ToL1Message => 2,
            LogOpcode::Event => 3,
            LogOpcode::PrecompileCall => 4,
        },
        Opcode::FarCall(FarCallOpcode::Delegate) => 1,
        Opcode::FarCall(FarCallOpcode::Mimic) => 2,
        Opcode::Ret(RetOpcode::Revert) => 1,
        Opcode::Ret(RetOpcode::Panic) => 2,
        Opcode::UMA(c) => match c {
            UMAOpcode::HeapRead => 0,
            UMAOpcode::HeapWrite => 1,
            UMAOpcode::AuxHeapRead => 2,
            UMAOpcode::AuxHeapWrite => 3,
            UMAOpcode::FatPointerRead => 4,
        },
        _ => 0,
    }
}

pub fn invalid() -> OpcodeVariant {
    OpcodeVariant {
        opcode: Opcode::Invalid(InvalidOpcode),
        src0_operand_type: Operand::RegOnly,
        dst0_operand_type: Operand::RegOnly,
        flags: [false, false],
    }
}

fn push_flags(t: &mut Vec<OpcodeVariant>, opcode: Opcode, src: Operand, dst: Operand, flags: usize) {
    let mut v = OpcodeVariant { opcode, src0_operand_type: src, dst0_operand_type: dst, flags: [false, false] };
    if flags == 0 {
        t.push(v);
    } else if flags == 1 {
        t.push(v);
        v.flags = [true, false];
        t.push(v);
    } else {
        t.push(v);
        v.flags = [false, true];
        t.push(v);
        v.flags = [true, false];
        t.push(v);
        v.flags = [true, true];
        t.push(v);
    }
}

/// The deployed table for an ISA version, without the invalid padding.
pub fn table(version: u8) -> Vec<OpcodeVariant> {
    let mut t = Vec::new();
    for o in all_ops() {
        let src_full = o.src == K::F;
        let dst_full = o.dst == K::F;
        let reg = if version >= 1 && heap_access(o.op) {
            Operand::RegOrImm(RegOrImmFlags::UseRegOnly)
        } else {
            Operand::RegOnly
        };
        if src_full && dst_full {
            for s in 0..6 {
                for d in 0..4 {
                    push_flags(&mut t, o.op, Operand::Full(modes()[s]), Operand::Full(modes()[d]), o.flags);
                }
            }
        } else if src_full {
            for s in 0..6 {
                push_flags(&mut t, o.op, Operand::Full(modes()[s]), Operand::RegOnly, o.flags);
            }
        } else {
            push_flags(&mut t, o.op, reg, Operand::RegOnly, o.flags);
        }
    }
    if version >= 1 {
        for o in all_ops() {
            if heap_access(o.op) {
                push_flags(&mut t, o.op, Operand::RegOrImm(RegOrImmFlags::UseImm16Only), Operand::RegOnly, o.flags);
            }
        }
    }
    t
}

pub fn needs_kernel(o: Opcode) -> bool {
    match o {
        Opcode::Context(ContextOpcode::SetContextU128)
        | Opcode::Context(ContextOpcode::SetErgsPerPubdataByte)
        | Opcode::Context(ContextOpcode::IncrementTxNumber)
        | Opcode::FarCall(FarCallOpcode::Mimic)
        | Opcode::Log(LogOpcode::Event)
        | Opcode::Log(LogOpcode::ToL1Message)
        | Opcode::Log(LogOpcode::PrecompileCall) => true,
        _ => false,
    }
}

pub fn static_ok(o: Opcode) -> bool {
    match o {
        Opcode::Context(ContextOpcode::SetContextU128)
        | Opcode::Context(ContextOpcode::SetErgsPerPubdataByte)
        | Opcode::Context(ContextOpcode::IncrementTxNumber)
        | Opcode::Log(LogOpcode::StorageWrite)
        | Opcode::Log(LogOpcode::Event)
        | Opcode::Log(LogOpcode::ToL1Message) => false,
        _ => true,
    }
}

/// 16 family bits, 10 sub-variant bits, 2 flags, 6 source modes, 4 destination modes,
/// padding to 48, then kernel-only, static-ok and explicit-panic.
pub fn bitmask(v: &OpcodeVariant) -> u64 {
    let mut m = 0u64;
    m |= 1 << family_no(v.opcode);
    m |= 1 << (16 + sub_no(v.opcode));
    if v.flags[0] { m |= 1 << 26; }
    if v.flags[1] { m |= 1 << 27; }
    m |= 1 << (28 + operand_no(v.src0_operand_type));
    m |= 1 << (34 + operand_no(v.dst0_operand_type));
    if needs_kernel(v.opcode) { m |= 1 << 48; }
    if static_ok(v.opcode) { m |= 1 << 49; }
    if family_no(v.opcode) == 0 { m |= 1 << 50; }
    m
}

pub fn cond_no(c: Condition) -> u64 {
    match c {
        Condition::Always => 0,
        Condition::Gt => 1,
        Condition::Lt => 2,
        Condition::Eq => 3,
        Condition::Ge => 4,
        Condition::Le => 5,
        Condition::Ne => 6,
        Condition::GtOrLt => 7,
    }
}

pub fn nop() -> OpcodeVariant {
    OpcodeVariant {
        opcode: Opcode::Nop(NopOpcode),
        src0_operand_type: Operand::Full(ImmMemHandlerFlags::UseRegOnly),
        dst0_operand_type: Operand::Full(ImmMemHandlerFlags::UseRegOnly),
        flags: [false, false],
    }
}

pub fn panic_variant() -> OpcodeVariant {
    OpcodeVariant {
        opcode: Opcode::Ret(RetOpcode::Panic),
        src0_operand_type: Operand::RegOnly,
        dst0_operand_type: Operand::RegOnly,
        flags: [false, false],
    }
}

/// Documented combination of circuit costs (arithmetic in u64: no wrap-around).
pub fn price(o: Opcode) -> u64 {
    use zkevm_opcode_defs::circuit_prices::*;
    let vm = VM_CYCLE_COST_IN_ERGS as u64;
    let ram = RAM_PERMUTATION_COST_IN_ERGS as u64;
    let demux = LOG_DEMUXER_COST_IN_ERGS as u64;
    let st = STORAGE_SORTER_COST_IN_ERGS as u64;
    let ev = EVENTS_OR_L1_MESSAGES_SORTER_COST_IN_ERGS as u64;
    let max = |a: u64, b: u64| if a > b { a } else { b };
    match o {
        Opcode::Invalid(_) => 0xffff_ffff,
        Opcode::Nop(_) | Opcode::Add(_) | Opcode::Sub(_) | Opcode::Mul(_) | Opcode::Div(_) | Opcode::Jump(_)
        | Opcode::Shift(_) | Opcode::Binop(_) | Opcode::Ptr(_) => vm + 2 * ram,
        Opcode::Context(_) | Opcode::Ret(_) => vm + ram,
        Opcode::NearCall(_) => vm + ram + 20,
        Opcode::FarCall(_) => 2 * vm + ram + 150 + 20 + st + CODE_DECOMMITMENT_SORTER_COST_IN_ERGS as u64,
        Opcode::Log(LogOpcode::StorageRead) => 150 + vm + ram + demux + st,
        Opcode::Log(LogOpcode::StorageWrite) => max(
            250 + 2 * vm + ram + 2 * demux + 2 * st,
            max(min_reentrancy(), STORAGE_WRITE_HASHER_MIN_COST_IN_ERGS as u64),
        ),
        Opcode::Log(LogOpcode::ToL1Message) => {
            max(100 + 2 * vm + ram + 2 * demux + 2 * ev, L1_MESSAGE_MIN_COST_IN_ERGS as u64)
        }
        Opcode::Log(LogOpcode::Event) => 25 + 2 * vm + ram + 2 * demux + 2 * ev,
        Opcode::Log(LogOpcode::PrecompileCall) => vm + ram + demux,
        Opcode::UMA(UMAOpcode::HeapWrite) | Opcode::UMA(UMAOpcode::AuxHeapWrite) => 2 * vm + 5 * ram,
        Opcode::UMA(_) => vm + 3 * ram,
    }
}

/// One more than the larger of the 2300 stipend and what the value simulator passes on unspent.
pub fn min_reentrancy() -> u64 {
    use zkevm_opcode_defs::system_params::*;
    let passed = MSG_VALUE_SIMULATOR_ADDITIVE_COST as u64 - MSG_VALUE_SIMULATOR_MIN_USED_ERGS as u64;
    (if passed > 2300 { passed } else { 2300 }) + 1
}
