use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::*;

/// Number of modes a declared operand allows (at most `limit` for the full kind).
fn count(l: &[Operand], full: usize, reg_or_imm: usize) -> usize {
    if l.len() == 0 {
        return 1;
    }
    match l[0] {
        Operand::RegOnly => 1,
        Operand::RegOrImm(_) => reg_or_imm,
        Operand::Full(_) => full,
    }
}

fn fits(l: &[Operand], o: Operand, dst: bool) -> bool {
    let d = if l.len() == 0 { Operand::RegOnly } else { l[0] };
    match (d, o) {
        (Operand::RegOnly, Operand::RegOnly) => true,
        (Operand::RegOrImm(_), Operand::RegOrImm(m)) => !dst || m == RegOrImmFlags::UseRegOnly,
        (Operand::Full(_), Operand::Full(m)) => !dst || mode_no(m) < 4,
        _ => false,
    }
}

fn prototype_flags(o: Opcode, version: ISAVersion) -> usize {
    let mut f = 99;
    let protos = all_opcode_prototypes();
    for i in 0..protos.len() {
        if family_no(protos[i]) == family_no(o) {
            for d in OPCODE_PROTOTYPES[i].variants_data(version) {
                if d.variant_idx == sub_no(o) {
                    f = d.num_non_exclusive_flags;
                }
            }
        }
    }
    f
}

fn version(version: ISAVersion) {
    note("version", &version.0);
    let t = synthesize_opcode_decoding_tables(11, version);
    for x in all_ops() {
        let o = x.op;
        note("opcode", &(family_no(o), sub_no(o)));
        let src = o.input_operands(version);
        let dst = o.output_operands(version);
        let flags = prototype_flags(o, version);
        prove(flags <= 2, "a sub-variant declares at most two flags");
        let mut n = 0;
        let mut seen = [false; 6 * 6 * 4];
        for v in t.iter() {
            if v.opcode == o && (*v != invalid() || n == 0) {
                n += 1;
                let k = (operand_no(v.src0_operand_type) * 6 + operand_no(v.dst0_operand_type)) * 4 + v.flags[0] as usize * 2 + v.flags[1] as usize;
                prove(!seen[k], "a combination of modes and flags occurs once");
                seen[k] = true;
                prove(fits(&src, v.src0_operand_type, false), "a source mode in the table is allowed by the declared operand");
                prove(fits(&dst, v.dst0_operand_type, true), "a destination mode in the table is allowed by the declared operand");
                prove((flags > 0 || !v.flags[0]) && (flags > 1 || !v.flags[1]), "a flag in the table is declared");
            }
        }
        // every entry is allowed and none occurs twice, so the count decides that the product is exact
        prove(n == count(&src, 6, 2) * count(&dst, 4, 1) << flags, "the table holds exactly the product of the declared modes and flags");
        let full_src = src.len() > 0 && matches!(src[0], Operand::Full(_));
        let full_dst = dst.len() > 0 && matches!(dst[0], Operand::Full(_));
        prove(o.can_have_src0_from_mem(version) == full_src, "source 0 may come from memory exactly when declared fully addressable");
        prove(o.can_write_dst0_into_memory(version) == full_dst, "destination 0 may go to memory exactly when declared fully addressable");
        // the declared operands are the protocol's
        let want_src = if version.0 >= 1 && heap_access(o) { K::Ri } else { x.src };
        let k = |l: &[Operand]| match l.first() {
            None | Some(Operand::RegOnly) => K::R,
            Some(Operand::RegOrImm(_)) => K::Ri,
            Some(Operand::Full(_)) => K::F,
        };
        prove(k(&src) == want_src && k(&dst) == x.dst, "the declared operands are the protocol's");
        prove(flags == x.flags, "the declared flag count is the protocol's");
        for e in src.iter().skip(1) {
            prove(*e == Operand::RegOnly, "only the first input operand has addressing modes");
        }
        for e in dst.iter().skip(1) {
            prove(*e == Operand::RegOnly, "only the first output operand has addressing modes");
        }
    }
}

fn check_v0() { version(ISAVersion(0)) }
fn check_v1() { version(ISAVersion(1)) }

fn inner<T: OpcodeProps>(t: T, o: Opcode, v: ISAVersion) {
    prove(t.input_operands(v) == o.input_operands(v), "inputs: the concrete operation and the opcode agree");
    prove(t.output_operands(v) == o.output_operands(v), "outputs: the concrete operation and the opcode agree");
    prove(t.can_have_src0_from_mem(v) == o.can_have_src0_from_mem(v), "source query: the concrete operation and the opcode agree");
    prove(t.can_write_dst0_into_memory(v) == o.can_write_dst0_into_memory(v), "destination query: the concrete operation and the opcode agree");
    let flags = prototype_flags(o, v);
    let data = t.variants_data(v);
    prove(data.len() > sub_no(o) && data[sub_no(o)].num_non_exclusive_flags == flags, "flags: the concrete operation and the prototype agree");
    let d: &dyn OpcodeProps = &t;
    prove(d.can_have_src0_from_mem(v) == o.can_have_src0_from_mem(v), "source query: dynamic dispatch agrees");
    prove(d.can_write_dst0_into_memory(v) == o.can_write_dst0_into_memory(v), "destination query: dynamic dispatch agrees");
}

fn check_paths() {
    for v in ALL_ISA_VERSIONS {
        for x in all_ops() {
            let o = x.op;
            match o {
                Opcode::Invalid(t) => inner(t, o, v),
                Opcode::Nop(t) => inner(t, o, v),
                Opcode::Add(t) => inner(t, o, v),
                Opcode::Sub(t) => inner(t, o, v),
                Opcode::Mul(t) => inner(t, o, v),
                Opcode::Div(t) => inner(t, o, v),
                Opcode::Jump(t) => inner(t, o, v),
                Opcode::Context(t) => inner(t, o, v),
                Opcode::Shift(t) => inner(t, o, v),
                Opcode::Binop(t) => inner(t, o, v),
                Opcode::Ptr(t) => inner(t, o, v),
                Opcode::NearCall(t) => inner(t, o, v),
                Opcode::Log(t) => inner(t, o, v),
                Opcode::FarCall(t) => inner(t, o, v),
                Opcode::Ret(t) => inner(t, o, v),
                Opcode::UMA(t) => inner(t, o, v),
            }
        }
    }
}
