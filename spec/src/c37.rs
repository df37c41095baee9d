use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::*;

/// The protocol's number of input and output operands.
fn shape(o: Opcode) -> (usize, usize) {
    match o {
        Opcode::Invalid(_) => (0, 0),
        Opcode::Nop(_) => (1, 1),
        Opcode::Add(_) | Opcode::Sub(_) | Opcode::Binop(_) | Opcode::Shift(_) | Opcode::Ptr(_) => (2, 1),
        Opcode::Mul(_) | Opcode::Div(_) => (2, 2),
        Opcode::Jump(_) | Opcode::NearCall(_) => (1, 0),
        Opcode::Context(ContextOpcode::SetContextU128) | Opcode::Context(ContextOpcode::SetErgsPerPubdataByte) => (1, 0),
        Opcode::Context(ContextOpcode::IncrementTxNumber) => (0, 0),
        Opcode::Context(_) => (0, 1),
        Opcode::Log(LogOpcode::StorageRead) | Opcode::Log(LogOpcode::PrecompileCall) => (1, 1),
        Opcode::Log(_) => (2, 0),
        Opcode::FarCall(_) => (2, 0),
        Opcode::Ret(RetOpcode::Panic) => (0, 0),
        Opcode::Ret(_) => (1, 0),
        Opcode::UMA(UMAOpcode::HeapWrite) | Opcode::UMA(UMAOpcode::AuxHeapWrite) => (2, 1),
        Opcode::UMA(_) => (1, 2),
    }
}

fn kind(l: &[Operand]) -> K {
    match l.first() {
        None | Some(Operand::RegOnly) => K::R,
        Some(Operand::RegOrImm(_)) => K::Ri,
        Some(Operand::Full(_)) => K::F,
    }
}

fn check_shape() {
    for v in ALL_ISA_VERSIONS {
        for x in all_ops() {
            let o = x.op;
            note("version, opcode", &(v.0, family_no(o), sub_no(o)));
            let (i, n) = shape(o);
            let (src, dst) = (o.input_operands(v), o.output_operands(v));
            prove(src.len() == i, "the operation declares its number of inputs");
            prove(dst.len() == n, "the operation declares its number of outputs");
            prove(src.iter().skip(1).all(|e| *e == Operand::RegOnly), "only the first input has addressing modes");
            prove(dst.iter().skip(1).all(|e| *e == Operand::RegOnly), "only the first output has addressing modes");
            prove(kind(&dst) == x.dst, "the first output has the operation's addressing kind");
            let want = if v.0 >= 1 && heap_access(o) { K::Ri } else { x.src };
            prove(kind(&src) == want, "the first input has the operation's addressing kind");
            // the declared kind is given as its register mode
            prove(src.iter().all(|e| operand_no(*e) == 0) && dst.iter().all(|e| operand_no(*e) == 0), "operands are declared by their register mode");
        }
    }
}

fn check_symbolic() {
    let o: Opcode = any("opcode");
    for v in ALL_ISA_VERSIONS {
        let (i, n) = shape(o);
        prove(o.input_operands(v).len() == i && o.output_operands(v).len() == n, "every opcode value declares its operation's shape");
    }
}
