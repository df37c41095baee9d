use crate::oracle::*;
use crate::rt::*;
use core::cmp::Ordering;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::*;

/// Equality, order and copies of one type, given what makes two values the same.
fn lawful<T: Copy + Eq + Ord>(a: T, b: T, same: bool) {
    prove((a == b) == same, "two values are equal exactly when all their parts are");
    prove((a != b) == !same, "unequal is the opposite of equal");
    prove((a.cmp(&b) == Ordering::Equal) == same, "two values compare as equal exactly when they are equal");
    prove(a.cmp(&b) == b.cmp(&a).reverse(), "the order is antisymmetric");
    prove(a.partial_cmp(&b) == Some(a.cmp(&b)), "the partial order is the total order");
    prove((a < b) == (a.cmp(&b) == Ordering::Less) && (a > b) == (a.cmp(&b) == Ordering::Greater), "the operators follow the order");
    prove((a <= b) == (a.cmp(&b) != Ordering::Greater) && (a >= b) == (a.cmp(&b) != Ordering::Less), "the non-strict operators follow the order");
    let c = a.clone();
    prove(c == a && (c == b) == same, "a clone is the same value");
}

fn kind_no(o: Operand) -> usize {
    match o {
        Operand::RegOnly => 0,
        Operand::RegOrImm(_) => 1,
        Operand::Full(_) => 2,
    }
}

fn same_operand(a: Operand, b: Operand) -> bool {
    kind_no(a) == kind_no(b) && operand_no(a) == operand_no(b)
}

fn same_opcode(a: Opcode, b: Opcode) -> bool {
    family_no(a) == family_no(b) && sub_no(a) == sub_no(b)
}

fn check_modes() {
    let (a, b): (ImmMemHandlerFlags, ImmMemHandlerFlags) = (any("a"), any("b"));
    lawful(a, b, mode_no(a) == mode_no(b));
    prove((a < b) == (mode_no(a) < mode_no(b)), "addressing modes are ordered by number");
    let (a, b): (RegOrImmFlags, RegOrImmFlags) = (any("c"), any("d"));
    lawful(a, b, a.variant_index() == b.variant_index());
    prove((a < b) == (a.variant_index() < b.variant_index()), "restricted modes are ordered by number");
}

fn check_operands() {
    let (a, b): (Operand, Operand) = (any("a"), any("b"));
    lawful(a, b, same_operand(a, b));
}

fn check_conditions() {
    let (a, b): (Condition, Condition) = (any("a"), any("b"));
    lawful(a, b, cond_no(a) == cond_no(b));
    prove((a < b) == (cond_no(a) < cond_no(b)), "conditions are ordered by number");
}

fn check_versions() {
    let (a, b): (ISAVersion, ISAVersion) = (any("a"), any("b"));
    lawful(a, b, a.0 == b.0);
    prove((a < b) == (a.0 < b.0), "versions are ordered by number");
}

fn check_opcodes() {
    let (a, b): (Opcode, Opcode) = (any("a"), any("b"));
    lawful(a, b, same_opcode(a, b));
}

fn check_opcode_transitivity() {
    let (a, b, c): (Opcode, Opcode, Opcode) = (any("a"), any("b"), any("c"));
    prove(!(a <= b && b <= c) || a <= c, "the order of opcodes is transitive");
}

fn check_operand_transitivity() {
    let (a, b, c): (Operand, Operand, Operand) = (any("a"), any("b"), any("c"));
    prove(!(a <= b && b <= c) || a <= c, "the order of operands is transitive");
}

fn check_variants() {
    let (a, b): (OpcodeVariant, OpcodeVariant) = (any("a"), any("b"));
    lawful(
        a,
        b,
        same_opcode(a.opcode, b.opcode)
            && same_operand(a.src0_operand_type, b.src0_operand_type)
            && same_operand(a.dst0_operand_type, b.dst0_operand_type)
            && a.flags[0] == b.flags[0]
            && a.flags[1] == b.flags[1],
    );
}

/// Two arbitrary words, given byte by byte (keeps the relations between them small).
fn pair<const N: usize>(name: &str) -> ([u8; N], [u8; N]) {
    let p: [[u8; 2]; N] = any(name);
    let (mut x, mut y) = ([0; N], [0; N]);
    for i in 0..N {
        x[i] = p[i][0];
        y[i] = p[i][1];
    }
    (x, y)
}

fn pair_u32(name: &str) -> (u32, u32) {
    let (x, y) = pair::<4>(name);
    (u32::from_le_bytes(x), u32::from_le_bytes(y))
}

fn check_pointers() {
    let (o, m, s, l) = (pair_u32("offset"), pair_u32("page"), pair_u32("start"), pair_u32("length"));
    let a = FatPointer { offset: o.0, memory_page: m.0, start: s.0, length: l.0 };
    let b = FatPointer { offset: o.1, memory_page: m.1, start: s.1, length: l.1 };
    let same = (o.0 == o.1) & (m.0 == m.1) & (s.0 == s.1) & (l.0 == l.1);
    prove((a == b) == same && (a != b) == !same, "pointers are equal exactly when all their fields are");
    prove((a.cmp(&b) == Ordering::Equal) == same, "pointers compare as equal exactly when they are equal");
    let c = a.clone();
    prove(c.offset == o.0 && c.memory_page == m.0 && c.start == s.0 && c.length == l.0, "a clone of a pointer is the same pointer");
}

fn check_hashes() {
    let (x, y) = pair::<32>("bytes");
    let (a, b) = (VersionedHashGeneric::<ContractCodeSha256>::try_create_from_raw(x), VersionedHashGeneric::<ContractCodeSha256>::try_create_from_raw(y));
    if let (Some(a), Some(b)) = (a, b) {
        let mut same = true;
        for i in 0..32 {
            same = same & (x[i] == y[i]);
        }
        prove((a == b) == same, "versioned hashes are equal exactly when their bytes are");
        prove(a.clone() == a, "a clone of a versioned hash is the same hash");
    }
}

fn check_numbers() {
    let (x, y) = pair::<8>("number");
    let (x, y) = (usize::from_le_bytes(x), usize::from_le_bytes(y));
    let (a, b) = (VariantMonotonicNumber(x), VariantMonotonicNumber(y));
    prove((a == b) == (x == y), "monotonic numbers are equal exactly when the numbers are");
    prove(a.clone().0 == x, "a clone of a monotonic number is the same number");
}

fn pair_u8(name: &str) -> (u8, u8) {
    let p = pair::<1>(name);
    (p.0[0], p.1[0])
}

fn pair_u64(name: &str) -> (u64, u64) {
    let (x, y) = pair::<8>(name);
    (u64::from_le_bytes(x), u64::from_le_bytes(y))
}

fn mode(b: u8) -> FarCallForwardPageType {
    match b & 3 {
        1 => FarCallForwardPageType::ForwardFatPointer,
        2 => FarCallForwardPageType::UseAuxHeap,
        _ => FarCallForwardPageType::UseHeap,
    }
}

fn ret_mode(b: u8) -> RetForwardPageType {
    match b & 3 {
        1 => RetForwardPageType::ForwardFatPointer,
        2 => RetForwardPageType::UseAuxHeap,
        _ => RetForwardPageType::UseHeap,
    }
}

fn mode_class(b: u8) -> u8 { if b & 3 == 3 { 0 } else { b & 3 } }

fn abi<T: Copy + Eq + Ord>(a: T, b: T, same: bool) {
    prove((a == b) == same && (a != b) == !same, "ABI values are equal exactly when all their fields are");
    prove((a.cmp(&b) == Ordering::Equal) == same, "ABI values compare as equal exactly when they are equal");
    let c = a.clone();
    prove(c == a, "a clone of an ABI value is the same value");
}

fn check_call_abi() {
    let (o, m, s, l) = (pair_u32("offset"), pair_u32("page"), pair_u32("start"), pair_u32("length"));
    let p = FatPointer { offset: o.0, memory_page: m.0, start: s.0, length: l.0 };
    let q = FatPointer { offset: o.1, memory_page: m.1, start: s.1, length: l.1 };
    let pointers = (o.0 == o.1) & (m.0 == m.1) & (s.0 == s.1) & (l.0 == l.1);
    let (e, f, h, c) = (pair_u32("ergs"), pair_u8("mode"), pair_u8("shard"), pair_u8("flags"));
    let same_mode = mode_class(f.0) == mode_class(f.1);
    let a = FarCallABI { memory_quasi_fat_pointer: p, ergs_passed: e.0, shard_id: h.0, forwarding_mode: mode(f.0), constructor_call: c.0 & 1 != 0, to_system: c.0 & 2 != 0 };
    let b = FarCallABI { memory_quasi_fat_pointer: q, ergs_passed: e.1, shard_id: h.1, forwarding_mode: mode(f.1), constructor_call: c.1 & 1 != 0, to_system: c.1 & 2 != 0 };
    abi(a, b, pointers & (e.0 == e.1) & (h.0 == h.1) & same_mode & (c.0 & 3 == c.1 & 3));
    let a = RetABI { memory_quasi_fat_pointer: p, page_forwarding_mode: ret_mode(f.0) };
    let b = RetABI { memory_quasi_fat_pointer: q, page_forwarding_mode: ret_mode(f.1) };
    abi(a, b, pointers & same_mode);
    abi(NearCallABI { ergs_passed: e.0 }, NearCallABI { ergs_passed: e.1 }, e.0 == e.1);
}

fn check_precompile_abi() {
    let (a, b, c, d) = (pair_u32("input offset"), pair_u32("input length"), pair_u32("output offset"), pair_u32("output length"));
    let (r, w, x) = (pair_u32("read page"), pair_u32("write page"), pair_u64("data"));
    let outer = (a.0 == a.1) & (b.0 == b.1) & (c.0 == c.1) & (d.0 == d.1) & (x.0 == x.1);
    abi(
        PrecompileCallABI { input_memory_offset: a.0, input_memory_length: b.0, output_memory_offset: c.0, output_memory_length: d.0, per_precompile_interpreted: x.0 },
        PrecompileCallABI { input_memory_offset: a.1, input_memory_length: b.1, output_memory_offset: c.1, output_memory_length: d.1, per_precompile_interpreted: x.1 },
        outer,
    );
    abi(
        PrecompileCallInnerABI { input_memory_offset: a.0, input_memory_length: b.0, output_memory_offset: c.0, output_memory_length: d.0, memory_page_to_read: r.0, memory_page_to_write: w.0, precompile_interpreted_data: x.0 },
        PrecompileCallInnerABI { input_memory_offset: a.1, input_memory_length: b.1, output_memory_offset: c.1, output_memory_length: d.1, memory_page_to_read: r.1, memory_page_to_write: w.1, precompile_interpreted_data: x.1 },
        outer & (r.0 == r.1) & (w.0 == w.1),
    );
}

fn check_meta() {
    let (e, h, a) = (pair_u32("ergs"), pair_u32("heap"), pair_u32("aux heap"));
    let (t, c, k) = (pair_u8("this"), pair_u8("caller"), pair_u8("code"));
    abi(
        VmMetaParameters { ergs_per_pubdata_byte: e.0, heap_size: h.0, aux_heap_size: a.0, this_shard_id: t.0, caller_shard_id: c.0, code_shard_id: k.0 },
        VmMetaParameters { ergs_per_pubdata_byte: e.1, heap_size: h.1, aux_heap_size: a.1, this_shard_id: t.1, caller_shard_id: c.1, code_shard_id: k.1 },
        (e.0 == e.1) & (h.0 == h.1) & (a.0 == a.1) & (t.0 == t.1) & (c.0 == c.1) & (k.0 == k.1),
    );
}
