use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::*;

fn opcode_name(o: Opcode) -> &'static str {
    match o {
        Opcode::Invalid(_) => "Invalid(InvalidOpcode)",
        Opcode::Nop(_) => "Nop(NopOpcode)",
        Opcode::Add(_) => "Add(Add)",
        Opcode::Sub(_) => "Sub(Sub)",
        Opcode::Mul(_) => "Mul(MulOpcode)",
        Opcode::Div(_) => "Div(DivOpcode)",
        Opcode::Jump(_) => "Jump(JumpOpcode)",
        Opcode::NearCall(_) => "NearCall(NearCallOpcode)",
        Opcode::Binop(BinopOpcode::Xor) => "Binop(Xor)",
        Opcode::Binop(BinopOpcode::And) => "Binop(And)",
        Opcode::Binop(BinopOpcode::Or) => "Binop(Or)",
        Opcode::Shift(ShiftOpcode::Shl) => "Shift(Shl)",
        Opcode::Shift(ShiftOpcode::Shr) => "Shift(Shr)",
        Opcode::Shift(ShiftOpcode::Rol) => "Shift(Rol)",
        Opcode::Shift(ShiftOpcode::Ror) => "Shift(Ror)",
        Opcode::Ptr(PtrOpcode::Add) => "Ptr(Add)",
        Opcode::Ptr(PtrOpcode::Sub) => "Ptr(Sub)",
        Opcode::Ptr(PtrOpcode::Pack) => "Ptr(Pack)",
        Opcode::Ptr(PtrOpcode::Shrink) => "Ptr(Shrink)",
        Opcode::Context(ContextOpcode::This) => "Context(This)",
        Opcode::Context(ContextOpcode::Caller) => "Context(Caller)",
        Opcode::Context(ContextOpcode::CodeAddress) => "Context(CodeAddress)",
        Opcode::Context(ContextOpcode::Meta) => "Context(Meta)",
        Opcode::Context(ContextOpcode::ErgsLeft) => "Context(ErgsLeft)",
        Opcode::Context(ContextOpcode::Sp) => "Context(Sp)",
        Opcode::Context(ContextOpcode::GetContextU128) => "Context(GetContextU128)",
        Opcode::Context(ContextOpcode::SetContextU128) => "Context(SetContextU128)",
        Opcode::Context(ContextOpcode::SetErgsPerPubdataByte) => "Context(SetErgsPerPubdataByte)",
        Opcode::Context(ContextOpcode::IncrementTxNumber) => "Context(IncrementTxNumber)",
        Opcode::Log(LogOpcode::StorageRead) => "Log(StorageRead)",
        Opcode::Log(LogOpcode::StorageWrite) => "Log(StorageWrite)",
        Opcode::Log(LogOpcode::ToL1Message) => "Log(ToL1Message)",
        Opcode::Log(LogOpcode::Event) => "Log(Event)",
        Opcode::Log(LogOpcode::PrecompileCall) => "Log(PrecompileCall)",
        Opcode::FarCall(FarCallOpcode::Normal) => "FarCall(Normal)",
        Opcode::FarCall(FarCallOpcode::Delegate) => "FarCall(Delegate)",
        Opcode::FarCall(FarCallOpcode::Mimic) => "FarCall(Mimic)",
        Opcode::Ret(RetOpcode::Ok) => "Ret(Ok)",
        Opcode::Ret(RetOpcode::Revert) => "Ret(Revert)",
        Opcode::Ret(RetOpcode::Panic) => "Ret(Panic)",
        Opcode::UMA(UMAOpcode::HeapRead) => "UMA(HeapRead)",
        Opcode::UMA(UMAOpcode::HeapWrite) => "UMA(HeapWrite)",
        Opcode::UMA(UMAOpcode::AuxHeapRead) => "UMA(AuxHeapRead)",
        Opcode::UMA(UMAOpcode::AuxHeapWrite) => "UMA(AuxHeapWrite)",
        Opcode::UMA(UMAOpcode::FatPointerRead) => "UMA(FatPointerRead)",
    }
}

fn operand_name(o: Operand) -> &'static str {
    match o {
        Operand::RegOnly => "RegOnly",
        Operand::RegOrImm(RegOrImmFlags::UseRegOnly) => "RegOrImm(UseRegOnly)",
        Operand::RegOrImm(RegOrImmFlags::UseImm16Only) => "RegOrImm(UseImm16Only)",
        Operand::Full(ImmMemHandlerFlags::UseRegOnly) => "Full(UseRegOnly)",
        Operand::Full(ImmMemHandlerFlags::UseStackWithPushPop) => "Full(UseStackWithPushPop)",
        Operand::Full(ImmMemHandlerFlags::UseStackWithOffset) => "Full(UseStackWithOffset)",
        Operand::Full(ImmMemHandlerFlags::UseAbsoluteOnStack) => "Full(UseAbsoluteOnStack)",
        Operand::Full(ImmMemHandlerFlags::UseImm16Only) => "Full(UseImm16Only)",
        Operand::Full(ImmMemHandlerFlags::UseCodePage) => "Full(UseCodePage)",
    }
}

fn text(v: &OpcodeVariant) -> String {
    let mut s = String::new();
    s.push_str("Opcode and variant: ");
    s.push_str(opcode_name(v.opcode));
    s.push_str("\nSrc0 operand type: ");
    s.push_str(operand_name(v.src0_operand_type));
    s.push_str("\nDst0 operand type: ");
    s.push_str(operand_name(v.dst0_operand_type));
    s.push_str("\nNon-exclusive flags: ");
    s.push_str(if v.flags[0] { "true" } else { "false" });
    s.push_str("|");
    s.push_str(if v.flags[1] { "true" } else { "false" });
    s
}

fn check_variants() {
    for i in 0..OPCODES_TABLE.len() {
        let v = OPCODES_TABLE[i];
        if i == 0 || v != invalid() {
            note("slot", &i);
            prove(v.to_string() == text(&v), "an instruction displays as its opcode, operand types and flags");
        }
    }
}

fn check_format() {
    for v in ALL_ISA_VERSIONS {
        prove(
            compute_decoding_format(v)
                == "38 bits in total.\n16 bit flags for opcode|10 bit flags for variant|2 bit flags for flags|6 bits flags for input type|4 bit flags for output type",
            "the format description states the width of each group",
        );
    }
}

fn hex(s: &mut String, v: u64, digits: usize) {
    const D: [char; 16] = ['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f'];
    s.push_str("0x");
    for i in 0..digits {
        s.push(D[((v >> (4 * (digits - 1 - i))) & 15) as usize]);
    }
}

fn condition_name(c: Condition) -> &'static str {
    match c {
        Condition::Always => "Always",
        Condition::Gt => "Gt",
        Condition::Lt => "Lt",
        Condition::Eq => "Eq",
        Condition::Ge => "Ge",
        Condition::Le => "Le",
        Condition::Ne => "Ne",
        Condition::GtOrLt => "GtOrLt",
    }
}

const REG: [&str; 16] = ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"];

fn decoded_text(v: &OpcodeVariant, c: Condition, r: [u8; 4], imm_0: u64, imm_1: u64) -> String {
    let mut s = text(v);
    s.push_str("\nCondition: ");
    s.push_str(condition_name(c));
    s.push_str("\nRegister selections: src0 = ");
    s.push_str(REG[r[0] as usize]);
    s.push_str(", src1 = ");
    s.push_str(REG[r[1] as usize]);
    s.push_str(", dst0 = ");
    s.push_str(REG[r[2] as usize]);
    s.push_str(", dst1 = ");
    s.push_str(REG[r[3] as usize]);
    s.push_str("\nIMM0 constant: ");
    hex(&mut s, imm_0, 6);
    s.push_str("\nIMM1 constant: ");
    hex(&mut s, imm_1, 6);
    s
}

fn judge(v: OpcodeVariant, condition: Condition, r: [u8; 4], imm: [u16; 2]) {
    let d = DecodedOpcode::<8, EncodingModeProduction> {
        variant: v,
        condition,
        src0_reg_idx: r[0],
        src1_reg_idx: r[1],
        dst0_reg_idx: r[2],
        dst1_reg_idx: r[3],
        imm_0: imm[0],
        imm_1: imm[1],
    };
    prove(d.to_string() == decoded_text(&v, condition, r, imm[0] as u64, imm[1] as u64), "a decoded instruction displays as its instruction, condition, registers and immediates");
    let t = DecodedOpcode::<16, EncodingModeTesting> {
        variant: v,
        condition,
        src0_reg_idx: r[0],
        src1_reg_idx: r[1],
        dst0_reg_idx: r[2],
        dst1_reg_idx: r[3],
        imm_0: imm[0] as u32,
        imm_1: imm[1] as u32,
    };
    prove(t.to_string() == d.to_string(), "both encodings display alike");
}

fn check_decoded() {
    let v = OPCODES_TABLE[700];
    for c in ALL_CONDITIONS {
        judge(v, c, [1, 2, 3, 4], [0x1234, 0xfedc]);
    }
    for i in 0..16u8 {
        let n = i as u16;
        judge(v, Condition::Always, [i, i ^ 1, i ^ 2, 15 - i], [n * 0x1111, 0xffff - n * 0x0101]);
    }
    for i in [0usize, 1, 100, 1000] {
        judge(OPCODES_TABLE[i], Condition::Ne, [15, 0, 7, 10], [1 << (i % 16), 0]);
    }
}

// All pairs of immediates.
fn check_immediates() {
    judge(OPCODES_TABLE[1], Condition::Gt, [1, 2, 3, 4], [any("imm_0"), any("imm_1")]);
}

fn family_name(o: Opcode) -> &'static str {
    match o {
        Opcode::Invalid(_) => "Invalid opcode",
        Opcode::Nop(_) => "Nop opcode",
        Opcode::Add(_) => "Add opcode",
        Opcode::Sub(_) => "Sub opcode",
        Opcode::Mul(_) => "Mul opcode",
        Opcode::Div(_) => "Div opcode",
        Opcode::Jump(_) => "Jump opcode",
        Opcode::Context(_) => "Context opcode",
        Opcode::Shift(_) => "Shift opcode",
        Opcode::Binop(_) => "Binop opcode",
        Opcode::Ptr(_) => "Ptr opcode",
        Opcode::NearCall(_) => "Near call opcode",
        Opcode::Log(_) => "Log opcode",
        Opcode::FarCall(_) => "Far call opcode",
        Opcode::Ret(_) => "Ret opcode",
        Opcode::UMA(_) => "UMA opcode",
    }
}

fn check_names() {
    for x in all_ops() {
        note("family", &family_no(x.op));
        let want = family_name(x.op);
        let got = match x.op {
            Opcode::Invalid(o) => o.name(),
            Opcode::Nop(o) => o.name(),
            Opcode::Add(o) => o.name(),
            Opcode::Sub(o) => o.name(),
            Opcode::Mul(o) => o.name(),
            Opcode::Div(o) => o.name(),
            Opcode::Jump(o) => o.name(),
            Opcode::Context(o) => o.name(),
            Opcode::Shift(o) => o.name(),
            Opcode::Binop(o) => o.name(),
            Opcode::Ptr(o) => o.name(),
            Opcode::NearCall(o) => o.name(),
            Opcode::Log(o) => o.name(),
            Opcode::FarCall(o) => o.name(),
            Opcode::Ret(o) => o.name(),
            Opcode::UMA(o) => o.name(),
        };
        prove(got == want, "every operation is named after its family");
    }
    for (dynamic, concrete) in OPCODE_PROTOTYPES.iter().zip(all_opcode_prototypes()) {
        prove(dynamic.name() == family_name(concrete), "every prototype is named after its family");
    }
}
