use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::*;

/// The opcode enumeration against its wrapped operation.
fn inner<T: OpcodeProps + OpcodeVariantProps>(t: T, o: Opcode) {
    prove(o.ergs_price() == t.ergs_price(), "price: opcode and operation agree");
    prove(o.materialize_subvariant_idx() == t.variant_index(), "sub-variant number: opcode and operation agree");
    prove(o.requires_kernel_mode() == t.requires_kernel_mode(), "kernel mode: opcode and operation agree");
    prove(o.can_be_used_in_static_context() == t.can_be_used_in_static_context(), "static context: opcode and operation agree");
    for v in ALL_ISA_VERSIONS {
        prove(o.input_operands(v) == t.input_operands(v), "inputs: opcode and operation agree");
        prove(o.output_operands(v) == t.output_operands(v), "outputs: opcode and operation agree");
        prove(o.can_have_src0_from_mem(v) == t.can_have_src0_from_mem(v), "source from memory: opcode and operation agree");
        prove(o.can_write_dst0_into_memory(v) == t.can_write_dst0_into_memory(v), "destination to memory: opcode and operation agree");
        prove(t.max_variant_idx(v) == T::max_variant_idx_for_version(v), "largest sub-variant: both queries of the operation agree");
        let protos = all_opcode_prototypes();
        for i in 0..protos.len() {
            if family_no(protos[i]) == family_no(o) {
                let d = &OPCODE_PROTOTYPES[i];
                prove(d.max_variant_idx(v) == t.max_variant_idx(v), "largest sub-variant: prototype and operation agree");
                prove(d.variants_data(v) == t.variants_data(v), "declared sub-variants: prototype and operation agree");
            }
        }
    }
    let v = OpcodeVariant { opcode: o, src0_operand_type: Operand::RegOnly, dst0_operand_type: Operand::RegOnly, flags: [false, false] };
    prove(v.ergs_price() == t.ergs_price(), "price: instruction and operation agree");
    prove(v.requires_kernel_mode() == t.requires_kernel_mode(), "kernel mode: instruction and operation agree");
    prove(v.can_be_used_in_static_context() == t.can_be_used_in_static_context(), "static context: instruction and operation agree");
}

fn check_enumeration() {
    for x in all_ops() {
        let o = x.op;
        note("opcode", &(family_no(o), sub_no(o)));
        prove(o.variant_idx() == family_no(o), "the family number");
        match o {
            Opcode::Invalid(t) => inner(t, o),
            Opcode::Nop(t) => inner(t, o),
            Opcode::Add(t) => inner(t, o),
            Opcode::Sub(t) => inner(t, o),
            Opcode::Mul(t) => inner(t, o),
            Opcode::Div(t) => inner(t, o),
            Opcode::Jump(t) => inner(t, o),
            Opcode::Context(t) => inner(t, o),
            Opcode::Shift(t) => inner(t, o),
            Opcode::Binop(t) => inner(t, o),
            Opcode::Ptr(t) => inner(t, o),
            Opcode::NearCall(t) => inner(t, o),
            Opcode::Log(t) => inner(t, o),
            Opcode::FarCall(t) => inner(t, o),
            Opcode::Ret(t) => inner(t, o),
            Opcode::UMA(t) => inner(t, o),
        }
    }
}

fn name<T: OpcodeProps>(t: T) -> &'static str { t.name() }

fn name_of(o: Opcode) -> &'static str {
    match o {
        Opcode::Invalid(t) => name(t),
        Opcode::Nop(t) => name(t),
        Opcode::Add(t) => name(t),
        Opcode::Sub(t) => name(t),
        Opcode::Mul(t) => name(t),
        Opcode::Div(t) => name(t),
        Opcode::Jump(t) => name(t),
        Opcode::Context(t) => name(t),
        Opcode::Shift(t) => name(t),
        Opcode::Binop(t) => name(t),
        Opcode::Ptr(t) => name(t),
        Opcode::NearCall(t) => name(t),
        Opcode::Log(t) => name(t),
        Opcode::FarCall(t) => name(t),
        Opcode::Ret(t) => name(t),
        Opcode::UMA(t) => name(t),
    }
}

fn check_prototypes() {
    let protos = all_opcode_prototypes();
    prove(protos.len() == 16 && OPCODE_PROTOTYPES.len() == 16 && NUM_OPCODES == 16 && *NUM_LOGICAL_OPCODES == 16, "both prototype lists have 16 entries");
    let order = [0, 1, 2, 3, 4, 5, 6, 9, 8, 10, 11, 7, 12, 13, 14, 15];
    for i in 0..16 {
        note("position", &i);
        let o = protos[i];
        let d = &OPCODE_PROTOTYPES[i];
        prove(family_no(o) == order[i], "the prototype list is in deployed family order");
        prove(o.variant_idx() == order[i], "the family number of a prototype");
        prove(sub_no(o) == 0, "a prototype is its family's first sub-variant");
        prove(d.name() == name_of(o), "both lists describe the same family at each position");
        for j in 0..i {
            prove(d.name() != OPCODE_PROTOTYPES[j].name(), "family names are unique");
            prove(o.variant_idx() != protos[j].variant_idx(), "family numbers are distinct");
        }
        prove(d.requires_kernel_mode() == o.requires_kernel_mode(), "kernel mode: dynamic and concrete prototype agree");
        prove(d.can_be_used_in_static_context() == o.can_be_used_in_static_context(), "static context: dynamic and concrete prototype agree");
        for v in ALL_ISA_VERSIONS {
            prove(d.input_operands(v) == o.input_operands(v), "inputs: dynamic and concrete prototype agree");
            prove(d.output_operands(v) == o.output_operands(v), "outputs: dynamic and concrete prototype agree");
            prove(d.can_have_src0_from_mem(v) == o.can_have_src0_from_mem(v), "source from memory: dynamic and concrete prototype agree");
            prove(d.can_write_dst0_into_memory(v) == o.can_write_dst0_into_memory(v), "destination to memory: dynamic and concrete prototype agree");
        }
    }
    for x in all_ops() {
        for i in 0..16 {
            if family_no(protos[i]) == family_no(x.op) {
                prove(name_of(x.op) == OPCODE_PROTOTYPES[i].name(), "all sub-variants of a family have its name");
            }
        }
    }
}
