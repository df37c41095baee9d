use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::sha2::Sha256;
use zkevm_opcode_defs::*;

// ---- an encoding mode of a caller's own (bytes are those of the integer; its nop and
// exception encodings decode to nop and ret.panic)

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
struct Pc(u8);

impl std::fmt::LowerHex for Pc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::LowerHex::fmt(&self.0, f)
    }
}

impl AllowedPcOrImm for Pc {
    fn from_u64_clipped(value: u64) -> Self {
        Pc(value as u8 & 15)
    }
    fn as_u64(self) -> u64 {
        self.0 as u64
    }
    fn wrapping_add(self, other: Self) -> Self {
        Pc(self.0.wrapping_add(other.0) & 15)
    }
    fn wrapping_sub(self, other: Self) -> Self {
        Pc(self.0.wrapping_sub(other.0) & 15)
    }
    fn max() -> Self {
        Pc(15)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
struct Code([u8; 4]);

impl std::fmt::LowerHex for Code {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::LowerHex::fmt(&self.0[0], f)
    }
}

impl AllowedIntegerRepresentation<4> for Code {
    fn encode_as_bytes(self) -> [u8; 4] {
        [self.0[3], self.0[2], self.0[1], self.0[0]]
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Mode;

fn digits(d: &DecodedOpcode<4, Mode>) -> [u8; 4] {
    [
        d.src0_reg_idx ^ d.src1_reg_idx.rotate_left(4),
        d.dst0_reg_idx ^ d.dst1_reg_idx.rotate_left(4),
        d.imm_0.0 ^ d.imm_1.0.rotate_left(4),
        sub_no(d.variant.opcode) as u8 ^ cond_no(d.condition).rotate_left(4),
    ]
}

impl VmEncodingMode<4> for Mode {
    type PcOrImm = Pc;
    type IntegerRepresentation = Code;

    fn nop_encoding() -> Code {
        Code([1, 1, 1, 1])
    }
    fn exception_revert_encoding() -> Code {
        Code([2, 2, 2, 2])
    }
    fn parse_preliminary_variant_and_absolute_number(word: Code) -> (DecodedOpcode<4, Self>, VariantMonotonicNumber) {
        let (variant, number) = match word.0[0] {
            1 => (nop(), 1),
            2 => (panic_variant(), 2),
            _ => (INVALID_OPCODE_VARIANT, 0),
        };
        let d = DecodedOpcode {
            variant,
            condition: Condition::Always,
            src0_reg_idx: 0,
            src1_reg_idx: 0,
            dst0_reg_idx: 0,
            dst1_reg_idx: 0,
            imm_0: Pc(0),
            imm_1: Pc(0),
        };
        (d, VariantMonotonicNumber::from_usize(number))
    }
    fn encode_as_integer(opcode: &DecodedOpcode<4, Self>) -> Code {
        Code(digits(opcode))
    }
    fn encode_as_bytes(opcode: &DecodedOpcode<4, Self>) -> [u8; 4] {
        let [a, b, c, d] = digits(opcode);
        [d, c, b, a]
    }
    fn split_pc(pc: Pc) -> (Pc, Pc) {
        (Pc(pc.0 >> 1), Pc(pc.0 & 1))
    }
    fn integer_representaiton_from_u256(_: ethereum_types::U256, index: Pc) -> Code {
        Code([index.0; 4])
    }
    fn is_canonical_encoding(value: Code) -> bool {
        value.0[0] == 0
    }
}

fn cond_no(c: Condition) -> u8 {
    match c {
        Condition::Always => 0,
        Condition::Gt => 1,
        Condition::Lt => 2,
        Condition::Eq => 3,
        Condition::Ge => 4,
        Condition::Le => 5,
        Condition::Ne => 6,
        Condition::GtOrLt => 7,
    }
}

fn any_decoded() -> DecodedOpcode<4, Mode> {
    DecodedOpcode {
        variant: any("variant"),
        condition: any("condition"),
        src0_reg_idx: any("src0"),
        src1_reg_idx: any("src1"),
        dst0_reg_idx: any("dst0"),
        dst1_reg_idx: any("dst1"),
        imm_0: Pc(any("imm_0")),
        imm_1: Pc(any("imm_1")),
    }
}

fn check_serialize() {
    let d = any_decoded();
    prove(d.serialize_as_integer() == Mode::encode_as_integer(&d), "serializing gives the mode's integer");
    prove(d.serialize_as_bytes() == Mode::encode_as_bytes(&d), "serializing gives the mode's bytes");
}

fn judge_masked(d: &DecodedOpcode<4, Mode>, v: OpcodeVariant, i0: Pc, i1: Pc) {
    prove(d.variant == v && d.condition == Condition::Always, "masking gives the published variant, always executed");
    prove(
        d.src0_reg_idx == 0 && d.src1_reg_idx == 0 && d.dst0_reg_idx == 0 && d.dst1_reg_idx == 0,
        "masking clears the registers",
    );
    prove(d.imm_0 == i0 && d.imm_1 == i1, "masking keeps the immediates");
}

fn check_mask() {
    let d = any_decoded();
    let (mut n, mut p) = (d, d);
    n.mask_into_nop();
    judge_masked(&n, nop(), d.imm_0, d.imm_1);
    p.mask_into_panic();
    judge_masked(&p, panic_variant(), d.imm_0, d.imm_1);
    judge_masked(&DecodedOpcode::<4, Mode>::default(), nop(), Pc(0), Pc(0));
}

// This mode's counters reach 15, so 15 words is the most a bytecode may have.
fn check_code_hash() {
    for n in 0..40 {
        note("words", &n);
        let words = arbitrary_words(n);
        let r = bytecode_to_code_hash_for_mode::<4, Mode>(words);
        let legal = n % 2 == 1 && n <= 15;
        prove(r.is_ok() == legal, "the mode's largest counter bounds the length");
        if legal {
            let mut w = hash_words::<Sha256>(words);
            w[0] = 1;
            w[1] = 0;
            w[2] = 0;
            w[3] = n as u8;
            prove(r == Ok(w), "a legal bytecode has the same hash in every mode");
        }
    }
}

// ---- a versioned hash of a caller's own

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Odd;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct OddParts {
    first: u8,
    rest: [u8; 30],
}

fn joined(p: &OddParts, flip: u8) -> [u8; 32] {
    let mut r = [0u8; 32];
    r[0] = 7;
    r[31] = p.first ^ flip;
    let mut i = 0;
    while i < 30 {
        r[i + 1] = p.rest[i];
        i += 1;
    }
    r
}

impl VersionedHashDef for Odd {
    const VERSION_BYTE: u8 = 7;
    type StorageLayout = OddParts;
    fn serialize(p: OddParts) -> Option<[u8; 32]> {
        if p.first & 1 == 1 {
            Some(joined(&p, 0))
        } else {
            None
        }
    }
    fn serialize_to_stored(p: OddParts) -> Option<[u8; 32]> {
        if p.first & 2 == 2 {
            Some(joined(&p, 255))
        } else {
            None
        }
    }
    fn try_deserialize(input: [u8; 32]) -> Option<OddParts> {
        if input[0] != 7 || input[31] == 9 {
            return None;
        }
        let mut rest = [0u8; 30];
        let mut i = 0;
        while i < 30 {
            rest[i] = input[i + 1];
            i += 1;
        }
        Some(OddParts { first: input[31], rest })
    }
}

fn check_versioned_hash() {
    let b: [u8; 32] = any("input");
    let r = VersionedHashGeneric::<Odd>::try_create_from_raw(b);
    let want = Odd::try_deserialize(b);
    prove(r.is_some() == want.is_some(), "the definition decides what parses");
    if let (Some(h), Some(p)) = (r, want) {
        prove(*h.layout_ref() == p, "the definition decides the parts");
        prove(h.serialize() == Odd::serialize(p), "the definition decides the serialized form");
        prove(h.serialize_to_stored() == Odd::serialize_to_stored(p), "the definition decides the stored form");
    }
}

// ---- operations of a caller's own

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Staged(u8, u8);

const STAGES: [Staged; 6] = [Staged(0, 1), Staged(1, 0), Staged(2, 3), Staged(3, 1), Staged(4, 0), Staged(5, 255)];

impl OpcodeVariantProps for Staged {
    fn all_variants() -> Vec<Self> {
        STAGES.to_vec()
    }
    fn minimal_version(&self) -> ISAVersion {
        ISAVersion(self.1)
    }
    fn max_variant_idx_for_version(_: ISAVersion) -> usize {
        5
    }
    fn variant_index(&self) -> usize {
        self.0 as usize
    }
    fn from_variant_index_for_version(index: usize, _: &ISAVersion) -> Option<Self> {
        STAGES.get(index).copied()
    }
    fn ergs_price(&self) -> u32 {
        0
    }
}

fn check_versions() {
    for v in 0..=255u8 {
        let version = ISAVersion(v);
        note("version", &v);
        let listed = Staged::variants_for_version(version);
        let added = Staged::variants_added_in_version(version);
        let (mut l, mut a) = (0, 0);
        for x in STAGES {
            prove(x.is_available_for_version(version) == (x.1 <= v), "available in the introducing version and later ones");
            prove(x.is_added_in_version(version) == (x.1 == v), "added in the introducing version only");
            if x.1 <= v {
                prove(l < listed.len() && listed[l] == x, "the available ones are listed in order");
                l += 1;
            }
            if x.1 == v {
                prove(a < added.len() && added[a] == x, "the added ones are listed in order");
                a += 1;
            }
        }
        prove(l == listed.len() && a == added.len(), "nothing else is listed");
    }
}

struct Shaped {
    inputs: Vec<Operand>,
    outputs: Vec<Operand>,
    from: u8,
}

impl OpcodeProps for Shaped {
    fn name(&self) -> &'static str {
        "of a caller's own"
    }
    fn variants_data(&self, _: ISAVersion) -> Vec<OpcodeVariantData> {
        vec![]
    }
    fn max_variant_idx(&self, _: ISAVersion) -> usize {
        0
    }
    fn input_operands(&self, version: ISAVersion) -> Vec<Operand> {
        if version.0 < self.from {
            vec![]
        } else {
            self.inputs.clone()
        }
    }
    fn output_operands(&self, version: ISAVersion) -> Vec<Operand> {
        if version.0 < self.from {
            vec![]
        } else {
            self.outputs.clone()
        }
    }
    fn requires_kernel_mode(&self) -> bool {
        false
    }
    fn can_be_used_in_static_context(&self) -> bool {
        true
    }
}

fn lists() -> Vec<Vec<Operand>> {
    let mut r = vec![vec![]];
    let mut kinds = vec![Operand::RegOnly];
    for m in ImmMemHandlerFlags::all_variants() {
        kinds.push(Operand::Full(m));
    }
    for a in &kinds {
        r.push(vec![*a]);
        for b in [Operand::RegOnly, Operand::Full(ImmMemHandlerFlags::UseRegOnly)] {
            r.push(vec![*a, b]);
        }
    }
    r
}

fn full(l: &[Operand]) -> bool {
    matches!(l.first(), Some(Operand::Full(_)))
}

fn check_operand_queries() {
    for inputs in lists() {
        for outputs in [vec![], vec![Operand::RegOnly], vec![Operand::Full(ImmMemHandlerFlags::UseImm16Only)]] {
            judge_queries(&inputs, &outputs);
            judge_queries(&outputs, &inputs);
        }
    }
    for mode in RegOrImmFlags::all_variants() {
        judge_queries(&[Operand::RegOrImm(mode)], &[Operand::Full(ImmMemHandlerFlags::UseRegOnly)]);
        judge_queries(&[Operand::RegOrImm(mode), Operand::Full(ImmMemHandlerFlags::UseCodePage)], &[]);
    }
}

fn judge_queries(inputs: &[Operand], outputs: &[Operand]) {
    let op = Shaped { inputs: inputs.to_vec(), outputs: outputs.to_vec(), from: 1 };
    let version: u8 = any("version");
    note("inputs, outputs", &(inputs.len(), outputs.len()));
    let shown = version >= 1;
    prove(
        op.can_have_src0_from_mem(ISAVersion(version)) == (shown && full(inputs)),
        "source 0 may come from memory exactly if the first input is fully addressable",
    );
    prove(
        op.can_write_dst0_into_memory(ISAVersion(version)) == (shown && full(outputs)),
        "destination 0 may go to memory exactly if the first output is fully addressable",
    );
}
