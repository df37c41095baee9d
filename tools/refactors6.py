"""Behaviour-preserving edits, sixth battery: standard-library idioms the first five did not use."""
P = "src/decoding/encoding_mode_production.rs"
T = "src/decoding/encoding_mode_testing.rs"
DM = "src/decoding/mod.rs"
M = "src/definitions/mod.rs"
L = "src/lib.rs"
D = "src/definitions/"
A = D + "abi/"
U = "src/utils.rs"
O = "src/opcode.rs"
I = "src/imm_mem_modifiers.rs"
S = "src/system_params.rs"
TR = D + "opcode_trait.rs"
VH = D + "versioned_hash/mod.rs"
AL = D + "all.rs"
R = {}
# a word type with an Index impl and TryFrom conversions; an iterator of fields
R["dec5"] = [
 (P, ("        // decode purely as integer\n", "        let new = DecodedOpcode {"), '''        let bytes = raw_value.to_le_bytes();
        let mut nibbles = Nibbles(&bytes[2..4]).peekable();
        let Some(src0_reg_idx) = nibbles.next() else {
            unreachable!()
        };
        assert!(nibbles.peek().is_some_and(|n| *n < 16));
        let (src1_reg_idx, dst0_reg_idx, dst1_reg_idx) = match (nibbles.next(), nibbles.next(), nibbles.next()) {
            (Some(a), Some(b), Some(c)) => (a, b, c),
            _ => unreachable!(),
        };
        let imm_0 = u16::try_from((raw_value >> Self::IMM0_SHIFT) & 0xffff).unwrap();
        let imm_1 = u16::try_from(raw_value >> Self::IMM1_SHIFT).expect("high 16 bits");

'''),
 (P, None, '''
struct Nibbles<'a>(&'a [u8]);

impl<'a> Iterator for Nibbles<'a> {
    type Item = NibblePair;
    fn next(&mut self) -> Option<NibblePair> {
        None
    }
}
'''.replace("NibblePair", "u8").replace("struct Nibbles<'a>(&'a [u8]);", "struct Nibbles<'a>(&'a [u8], bool);").replace('''        None
''', '''        let (byte, rest) = self.0.split_first()?;
        let (low, high) = split_as_u4(*byte);
        if self.1 {
            self.0 = rest;
        }
        let result = if self.1 { high } else { low };
        self.1 = !self.1;
        Some(result)
''')),
 (P, "Nibbles(&bytes[2..4]).peekable()", "Nibbles(&bytes[2..4], false).peekable()"),
 (P, "use crate::merge_u4;\n", "use crate::merge_u4;\nuse std::convert::TryFrom;\n"),
 (T, '''        let imm_0 = (raw_value >> Self::IMM0_SHIFT) as u32;
        let imm_1 = (raw_value >> Self::IMM1_SHIFT) as u32;
''', '''        let parts: Vec<u32> = std::iter::successors(Some(raw_value), |v| Some(*v >> 32))
            .take(4)
            .map(|v| (v & u128::from(u32::MAX)) as u32)
            .collect();
        let imm_0 = parts[1];
        let imm_1 = *parts.get(2).unwrap_or(&0);
'''),
]
# labelled loops, filter_map, map_while, reduce, min_by_key, last, drain
R["tab6"] = [
 (M, ("fn find_new_opcodes(", "pub fn compute_decoding_format("), '''fn find_new_opcodes(old: &mut [OpcodeVariant], new: &[OpcodeVariant]) -> Vec<OpcodeVariant> {
    // sanity check that we always expand
    let known: std::collections::BTreeSet<OpcodeVariant> = new.iter().copied().collect();
    old.iter()
        .filter(|el| !known.contains(*el))
        .for_each(|el| {
            let Some(_) = new.iter().find(|n| semantically_equal(n, el)) else {
                panic!("new set doesn't contain {:?}", el)
            };
        });

    let mut difference = Vec::new();
    'next: for candidate in new {
        let mut idx = 0;
        loop {
            if idx == old.len() {
                break;
            }
            if semantically_equal(candidate, &old[idx]) {
                let _ = std::mem::replace(&mut old[idx], *candidate);
                continue 'next;
            }
            idx += 1;
        }
        difference.push(*candidate);
    }

    difference
}

'''),
 (M, ("pub fn max_num_variants_for_version(", "// computes including"), '''pub fn max_num_variants_for_version(version: ISAVersion) -> usize {
    all_opcodes()
        .drain(..)
        .map(|op| 1 + op.max_variant_idx(version))
        .reduce(|a, b| if a > b { a } else { b })
        .unwrap()
}

'''),
 (M, ("pub fn max_num_flags_for_version(", "pub fn synthesize_bit_decomposition_table("), '''pub fn max_num_flags_for_version(version: ISAVersion) -> usize {
    all_opcodes()
        .iter()
        .filter_map(|op| {
            ALL_ISA_VERSIONS
                .iter()
                .copied()
                .map_while(|v| if v <= version { Some(op.variants_data(v)) } else { None })
                .flatten()
                .map(|t| t.num_non_exclusive_flags)
                .max_by(|a, b| a.cmp(b))
        })
        .max_by_key(|n| *n)
        .unwrap()
}

'''),
 (M, ("    let mut result = Vec::with_capacity(opcodes.len());\n    for opcode in opcodes.iter() {", "// we only need opcodes added"), '''    let masks: Result<Vec<u64>, std::convert::Infallible> = opcodes
        .iter()
        .map(|opcode| Ok(opcode_as_integer_bitmask(opcode, assert_version)))
        .collect();
    masks.unwrap()
}

'''),
]
# the bit mask as a writer with a cursor
R["mask4"] = [
 (M, ("    let mut encoding = 0u64;\n    let mut global_shift = 0;", "fn semantically_equal("), '''    struct Writer {
        bits: u64,
        at: usize,
    }
    impl Writer {
        fn one_hot(&mut self, index: usize, width: usize) -> &mut Self {
            self.bits |= 1u64 << (self.at + index);
            self.at += width;
            self
        }
        fn flag(&mut self, value: bool, width: usize) -> &mut Self {
            self.bits |= u64::from(value) << self.at;
            self.at += width;
            self
        }
        fn align(&mut self, to: usize) -> &mut Self {
            assert!(self.at <= to);
            self.at = to;
            self
        }
    }
    let mut w = Writer { bits: 0, at: 0 };
    w.one_hot(full_opcode_variant.opcode.variant_idx(), *crate::NUM_LOGICAL_OPCODES)
        .one_hot(
            full_opcode_variant.opcode.materialize_subvariant_idx(),
            max_variant_bits_in_version,
        );
    let flags_end = w.at + max_num_flags_in_version;
    full_opcode_variant.flags.iter().for_each(|f| {
        w.flag(*f, 1);
    });
    w.at = flags_end;
    w.one_hot(
        full_opcode_variant.src0_operand_type.variant_idx(),
        *crate::NUM_INPUT_VARIANTS,
    )
    .one_hot(
        full_opcode_variant.dst0_operand_type.variant_idx(),
        *crate::NUM_OUTPUT_VARIANTS,
    )
    .align(total_description_bits_rounded_for_version(version))
    .flag(full_opcode_variant.requires_kernel_mode(), crate::KERNEL_MODE_FLAG_BITS)
    .flag(
        full_opcode_variant.can_be_used_in_static_context(),
        crate::CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_BITS,
    )
    .flag(full_opcode_variant.is_explicit_panic(), crate::EXPLICIT_PANIC_FLAG_BITS);
    assert!(w.at <= 64);

    w.bits
}

'''),
]
# sub-variant numbers through TryFrom<usize>, transmute-free tables, sorted lookups
R["sub1"] = [
 (D + "log.rs", ("        match index {\n", "    fn ergs_price"), '''        const ALL: [LogOpcode; 5] = [
            LogOpcode::StorageRead,
            LogOpcode::StorageWrite,
            LogOpcode::ToL1Message,
            LogOpcode::Event,
            LogOpcode::PrecompileCall,
        ];
        ALL.binary_search_by_key(&index, |v| v.variant_index())
            .ok()
            .map(|i| ALL[i])
    }

'''),
 (D + "ret.rs", ("        match index {\n", "    fn ergs_price"), '''        RetOpcode::try_from(index).ok()
    }

'''),
 (D + "ret.rs", None, '''
impl std::convert::TryFrom<usize> for RetOpcode {
    type Error = ();
    fn try_from(index: usize) -> Result<Self, ()> {
        let byte = u8::try_from(index).map_err(|_| ())?;
        [RetOpcode::Ok, RetOpcode::Revert, RetOpcode::Panic]
            .into_iter()
            .filter_map(|v| if v as u8 == byte { Some(v) } else { None })
            .last()
            .ok_or(())
    }
}
'''),
 (D + "far_call.rs", ("        match index {\n", "    fn ergs_price"), '''        if index > FarCallOpcode::Mimic.variant_index() {
            return None;
        }
        // repr(u8) without gaps
        Some(unsafe { std::mem::transmute::<u8, FarCallOpcode>(index as u8) })
    }

'''),
 (D + "context.rs", ("        match index {\n", "    fn ergs_price"), '''        let mut all = Self::all_variants();
        all.sort_by_key(|v| v.variant_index());
        if index < all.len() {
            Some(all.swap_remove(index))
        } else {
            None
        }
    }

'''),
 (D + "uma.rs", ("        match index {\n", "    fn ergs_price"), '''        let number_of = Self::all_variants().len();
        (0..number_of)
            .zip(Self::all_variants())
            .try_fold((), |_, (i, v)| if i == index { Err(v) } else { Ok(()) })
            .err()
    }

'''),
]
# opcode queries through From impls and a description structure
R["desc1"] = [
 (D + "log.rs", ("    fn input_operands(&self", None), '''    fn input_operands(&self, _version: ISAVersion) -> Vec<Operand> {
        vec![Operand::RegOnly; LogShape::from(self).inputs]
    }
    fn output_operands(&self, _version: ISAVersion) -> Vec<Operand> {
        std::iter::repeat_with(|| Operand::RegOnly)
            .take(LogShape::from(self).outputs)
            .collect()
    }
    fn requires_kernel_mode(&self) -> bool {
        LogShape::from(self).kernel
    }
    fn can_be_used_in_static_context(&self) -> bool {
        !LogShape::from(self).mutates
    }
}

struct LogShape {
    inputs: usize,
    outputs: usize,
    kernel: bool,
    mutates: bool,
}

impl From<&LogOpcode> for LogShape {
    fn from(op: &LogOpcode) -> Self {
        let (inputs, outputs, kernel, mutates) = match op {
            LogOpcode::StorageRead => (1, 1, false, false),
            LogOpcode::StorageWrite => (2, 0, false, true),
            LogOpcode::ToL1Message | LogOpcode::Event => (2, 0, true, true),
            LogOpcode::PrecompileCall => (1, 1, true, false),
        };
        LogShape { inputs, outputs, kernel, mutates }
    }
}
'''),
 (D + "context.rs", ("    fn requires_kernel_mode", None), '''    fn requires_kernel_mode(&self) -> bool {
        Self::SETTERS.contains(self)
    }
    fn can_be_used_in_static_context(&self) -> bool {
        Self::SETTERS.iter().all(|s| s != self)
    }
}

impl ContextOpcode {
    const SETTERS: [Self; 3] = [
        ContextOpcode::SetContextU128,
        ContextOpcode::SetErgsPerPubdataByte,
        ContextOpcode::IncrementTxNumber,
    ];
}
'''),
 (TR, '''        let possible_dests = self.input_operands(version);

        if possible_dests.len() == 0 {
            false
        } else {
            match possible_dests[0] {
                Operand::Full(_) => true,
                Operand::RegOnly => false,
                Operand::RegOrImm(_) => false,
            }
        }
''', '''        self.input_operands(version)
            .first()
            .is_some_and(|op| matches!(op, Operand::Full(_)))
'''),
 (TR, '''        let possible_dests = self.output_operands(version);

        if possible_dests.len() == 0 {
            false
        } else {
            match possible_dests[0] {
                Operand::Full(_) => true,
                Operand::RegOnly => false,
                Operand::RegOrImm(_) => unreachable!(),
            }
        }
''', '''        let Some(first) = self.output_operands(version).into_iter().next() else {
            return false;
        };
        match first {
            Operand::Full(_) => true,
            Operand::RegOnly => false,
            Operand::RegOrImm(_) => unreachable!(),
        }
'''),
 (TR, ("    let mut result = Vec::with_capacity(variants_range.clone().count());", None), '''    let mut result = Vec::with_capacity(variants_range.clone().count());
    result.extend(variants_range.map(|variant_idx| OpcodeVariantData {
        variant_idx,
        num_non_exclusive_flags,
        num_used_immediates: num_immedates,
    }));
    result
}
'''),
]
# pointers: bitflags operators, leading_zeros, abs_diff, checked arithmetic
R["ptr2"] = [
 (A + "fat_pointer.rs", ("        let mut exceptions = FatPointerValidationException::empty();", "    /// IMPORTANT"), '''        let offset = if is_fresh && self.offset != 0 {
            FatPointerValidationException::OFFSET_IS_NOT_ZERO_WHEN_EXPECTED
        } else {
            FatPointerValidationException::empty()
        };
        let end = u64::from(self.start) + u64::from(self.length);
        let range = if end.leading_zeros() < 32 {
            FatPointerValidationException::DEREF_BEYOND_HEAP_RANGE
        } else {
            FatPointerValidationException::empty()
        };

        offset | range
    }

'''),
 (A + "fat_pointer.rs", "        let in_bounds = self.offset < self.length;\n\n        in_bounds", "        self.length.saturating_sub(self.offset) != 0"),
 (A + "fat_pointer.rs", "        let is_valid_slice = self.offset <= self.length;\n\n        is_valid_slice", "        self.length.checked_sub(self.offset).is_some()"),
 (A + "fat_pointer.rs", "        self.length == 0 && self.offset == 0\n", "        (self.length | self.offset) == 0\n"),
]
R["ptr3"] = [
 (A + "fat_pointer.rs", ("        let mut exceptions = FatPointerValidationException::empty();", "    /// IMPORTANT"), '''        let mut exceptions = FatPointerValidationException::empty();
        if let (true, 1..) = (is_fresh, self.offset) {
            exceptions.insert(FatPointerValidationException::OFFSET_IS_NOT_ZERO_WHEN_EXPECTED);
        }
        exceptions.set(
            FatPointerValidationException::DEREF_BEYOND_HEAP_RANGE,
            self.length > u32::MAX - self.start,
        );
        exceptions
    }

'''),
]
# hashing: one chained reader, GenericArray into array, From conversions
R["hash9"] = [
 (U, ("    use sha2::{Digest, Sha256};", "    use crate::{ContractCodeSha256"), '''    use sha2::{Digest, Sha256};

    let hasher = bytecode_words
        .iter()
        .try_fold(Sha256::new(), |h, w| -> Result<Sha256, ()> { Ok(h.chain_update(w)) })?;
    let output: [u8; 32] = hasher.finalize().into();

'''),
 (U, '''    if bytecode_words.len() as u64 > E::PcOrImm::max().as_u64() {
        return Err(());
    }
''', '''    match E::PcOrImm::max().as_u64().checked_sub(bytecode_words.len() as u64) {
        Some(_) => {}
        None => return Err(()),
    }
'''),
 (U, "    let versioned_hash_bytes = versioned_hash.serialize().ok_or(())?;\n\n    Ok(versioned_hash_bytes)", '''    let Some(versioned_hash_bytes) = versioned_hash.serialize() else {
        return Err(());
    };

    Ok(versioned_hash_bytes)'''),
 (VH, ("    fn try_deserialize(input: [u8; 32]) -> Option<Self::StorageLayout> {\n        if", None), '''    fn try_deserialize(input: [u8; 32]) -> Option<Self::StorageLayout> {
        match input {
            [Self::VERSION_BYTE, extra_marker, hi, lo, ref rest @ ..] => Some(Self::StorageLayout {
                code_length_in_words: u16::from(hi) << 8 | u16::from(lo),
                extra_marker,
                partial_hash: *rest,
            }),
            _ => None,
        }
    }
}
'''),
 (VH, ("    fn serialize(storage: Self::StorageLayout) -> Option<[u8; 32]> {\n        let mut", "    fn try_deserialize(input: [u8; 32]) -> Option<Self::StorageLayout> {\n        match"), '''    fn serialize(storage: Self::StorageLayout) -> Option<[u8; 32]> {
        let mut place = std::mem::MaybeUninit::<[u8; 32]>::uninit();
        place.write(layout(&storage));
        Some(unsafe { place.assume_init() })
    }
    fn serialize_to_stored(storage: Self::StorageLayout) -> Option<[u8; 32]> {
        Self::serialize(ContractCodeSha256Storage {
            extra_marker: Self::CODE_AT_REST_MARKER,
            ..storage
        })
    }
'''),
 (VH, None, '''
fn layout(storage: &ContractCodeSha256Storage) -> [u8; 32] {
    let [hi, lo] = storage.code_length_in_words.to_be_bytes();
    let head = [ContractCodeSha256::VERSION_BYTE, storage.extra_marker, hi, lo];
    let mut bytes = head.iter().chain(storage.partial_hash.iter());
    std::array::from_fn(|_| *bytes.next().unwrap())
}
'''),
]
# lib.rs statics through closures, Cow, scan, dedup
R["lib5"] = [
 (L, ("        let mut result = Vec::with_capacity(1 << OPCODES_TABLE_WIDTH);", "\n    };\n}"), '''        let mut prices = [0u32; 1 << OPCODES_TABLE_WIDTH];
        prices
            .iter_mut()
            .zip(OPCODES_TABLE.iter())
            .for_each(|(price, opcode)| *price = opcode.ergs_price());
        prices'''),
 (L, ("    let mut total = OPCODE_TYPE_BITS\n", "pub const TOTAL_AUX_BITS"), '''    total_description_bits_for_version(version)
        .checked_add(WIDTH_MULTIPLE - 1)
        .map(|t| t & !(WIDTH_MULTIPLE - 1))
        .unwrap()
}

'''),
 (L, '''        let mut result = HashMap::new();
        for (idx, el) in OPCODES_TABLE.iter().enumerate() {
            if let Some(existing) = result.get(el) {
                assert_eq!(OPCODES_TABLE[*existing], INVALID_OPCODE_VARIANT);
            } else {
                let _ = result.insert(*el, idx);
            }
        }

        result
''', '''        let mut result = HashMap::with_capacity(OPCODES_TABLE.len());
        OPCODES_TABLE.iter().enumerate().rev().for_each(|(idx, el)| {
            if let Some(later) = result.insert(*el, idx) {
                assert_eq!(OPCODES_TABLE[later], INVALID_OPCODE_VARIANT);
            }
        });

        result
'''),
]
# conditions through debug tables and a cast
R["cond4"] = [
 (D + "condition.rs", ("        match idx {\n            0 =>", "    pub const fn variant_index"), '''        let mut rest = ALL_CONDITIONS.iter();
        let mut left = idx;
        while left > 0 {
            rest.next();
            left -= 1;
        }
        rest.next().copied().unwrap_or_else(|| panic!("unknown variant"))
    }

'''),
 (D + "condition.rs", ("    pub const fn variant_index(&self) -> usize {", "pub const ALL_CONDITIONS"), '''    pub const fn variant_index(&self) -> usize {
        *self as usize
    }
}

'''),
]
# nibbles with strange arithmetic
R["nb2"] = [
 (U, "    (value & ((1u8 << 4) - 1), value >> 4)", "    (value % 16, value / 16)"),
 (U, "    low | (high << 4)", "    high.wrapping_shl(4) | low"),
 (P, "        (pc >> 2, pc & 0b11)", "        (pc / 4, pc.rem_euclid(4))"),
 (T, "        (pc >> 1, pc & 0b1)", "        let slot = pc & 1;\n        ((pc - slot) / 2, slot)"),
 (P, '''        match index {
            0 => value.0[3],
            1 => value.0[2],
            2 => value.0[1],
            3 => value.0[0],
            _ => unreachable!(),
        }
''', '''        value
            .0
            .iter()
            .rev()
            .copied()
            .nth(usize::from(index))
            .unwrap_or_else(|| unreachable!())
'''),
 (T, '''        match index {
            0 => value.0[2] as u128 + ((value.0[3] as u128) << 64),
            1 => value.0[0] as u128 + ((value.0[1] as u128) << 64),
            _ => unreachable!(),
        }
''', '''        assert!(index < 2);
        if index == 0 {
            (value >> 128).low_u128()
        } else {
            value.low_u128()
        }
'''),
 (P, "        let unused_bits = value & Self::UNUSED_BITS_MASK;\n\n        unused_bits == 0", "        (value & Self::UNUSED_BITS_MASK).count_ones() == 0"),
 (T, "        let unused_bits = value & Self::UNUSED_BITS_MASK;\n\n        unused_bits == 0", "        value | !Self::UNUSED_BITS_MASK == !Self::UNUSED_BITS_MASK"),
]
# display through an intermediate vector of lines and a shadowing formatter
R["disp3"] = [
 (O, ("        // writeln!(f, \"Decoded opcode\")?;", None), '''        let registers = [
            ("src0", self.src0_reg_idx),
            ("src1", self.src1_reg_idx),
            ("dst0", self.dst0_reg_idx),
            ("dst1", self.dst1_reg_idx),
        ];
        let registers: Vec<String> = registers
            .iter()
            .map(|(name, idx)| format!("{name} = r{idx}"))
            .collect();
        let lines = [
            self.variant.to_string(),
            format!("Condition: {:?}", self.condition),
            format!("Register selections: {}", registers.join(", ")),
            format!("IMM0 constant: {:#08x}", self.imm_0),
            format!("IMM1 constant: {:#08x}", self.imm_1),
        ];
        let mut first = true;
        for line in &lines {
            if !std::mem::take(&mut first) {
                f.write_str("\\n")?;
            }
            f.write_str(line)?;
        }
        Ok(())
    }
}
'''),
 (M, ('        writeln!(f, "Opcode and variant: {:?}", self.opcode)?;', "pub fn synthesize_opcode_decoding_tables("), '''        let Self {
            opcode,
            src0_operand_type,
            dst0_operand_type,
            flags: [f0, f1],
        } = self;
        write!(
            f,
            "Opcode and variant: {opcode:?}\\nSrc0 operand type: {src0_operand_type:?}\\nDst0 operand type: {dst0_operand_type:?}\\nNon-exclusive flags: {f0:#01}|{f1:#01}"
        )
    }
}

'''),
]
# one generic function shared by the two modes, over a private trait of field positions
R["gen6"] = [
 (DM, None, '''
pub(crate) trait Layout: Copy {
    const IMM_BITS: u32;
    fn widen(self) -> u128;
}
impl Layout for u64 {
    const IMM_BITS: u32 = 16;
    fn widen(self) -> u128 {
        self.into()
    }
}
impl Layout for u128 {
    const IMM_BITS: u32 = 32;
    fn widen(self) -> u128 {
        self
    }
}

pub(crate) struct Fields {
    pub registers: [u8; 4],
    pub immediates: [u64; 2],
}

impl<W: Layout> From<W> for Fields {
    fn from(word: W) -> Self {
        let word = word.widen();
        let get = |shift: u32, width: u32| -> u64 { ((word >> shift) & ((1 << width) - 1)) as u64 };
        Fields {
            registers: std::array::from_fn(|i| get(crate::SRC_REGS_SHIFT + 4 * i as u32, 4) as u8),
            immediates: [get(32, W::IMM_BITS), get(32 + W::IMM_BITS, W::IMM_BITS)],
        }
    }
}
'''),
 (P, ("        // decode purely as integer\n", "        let new = DecodedOpcode {"), '''        let Fields {
            registers: [src0_reg_idx, src1_reg_idx, dst0_reg_idx, dst1_reg_idx],
            immediates,
        } = raw_value.into();
        let [imm_0, imm_1] = immediates.map(u16::from_u64_clipped);

'''),
 (T, ("        // decode purely as integer\n", "        let new = DecodedOpcode {"), '''        let fields = Fields::from(raw_value);
        let [src0_reg_idx, src1_reg_idx, dst0_reg_idx, dst1_reg_idx] = fields.registers;
        let (imm_0, imm_1) = (
            u32::from_u64_clipped(fields.immediates[0]),
            u32::from_u64_clipped(fields.immediates[1]),
        );

'''),
]
# statics as LazyLock-like lazily computed consts with thread-local-free caching; Cow and Rc inside
R["own1"] = [
 (M, ("    let mut result = Vec::with_capacity(1 << table_bits);\n\n    // we walk over the versions to get only opcodes added in the correspoding one\n\n    for version in ALL_ISA_VERSIONS.iter() {\n        if version > &up_to_version {\n            break;\n        }\n\n        let all_opcodes_in_version", "pub fn synthesize_opcode_decoding_tables_legacy("), '''    let mut result: Vec<OpcodeVariant> = Vec::with_capacity(1 << table_bits);
    let mut versions = ALL_ISA_VERSIONS.iter().copied().take_while(|v| *v <= up_to_version);
    while let Some(version) = versions.next() {
        let in_version: std::borrow::Cow<'_, [OpcodeVariant]> =
            std::borrow::Cow::Owned(all_variants_in_version(version));
        let shared = std::rc::Rc::new(in_version);
        let added = std::cell::RefCell::new(find_new_opcodes(&mut result, &shared));
        result.append(&mut added.borrow_mut());
        assert_eq!(result.len(), compute_encoding_density(version));
    }

    assert_eq!(result[0], INVALID_OPCODE_VARIANT);
    let missing = (1usize << table_bits).checked_sub(result.len());
    assert!(missing.is_some());
    result.extend(std::iter::repeat(INVALID_OPCODE_VARIANT).take(missing.unwrap()));

    result
}

'''),
]
# unsafe with a checked index
R["uns1"] = [
 (P, "let opcode_variant = OPCODES_TABLE[variant_bits as usize];", "// variant_bits is masked to the table width\n        let opcode_variant = unsafe { *OPCODES_TABLE.get_unchecked(variant_bits as usize) };"),
]
# generic dispatcher over trait objects
R["disp4"] = [
 (AL, ("    pub fn requires_kernel_mode(&self) -> bool {", None), '''    pub fn requires_kernel_mode(&self) -> bool {
        self.props().requires_kernel_mode()
    }

    pub fn can_be_used_in_static_context(&self) -> bool {
        self.with(|p| p.can_be_used_in_static_context())
    }

    pub fn can_have_src0_from_mem(&self, version: ISAVersion) -> bool {
        self.with(|p| p.can_have_src0_from_mem(version))
    }

    pub fn can_write_dst0_into_memory(&self, version: ISAVersion) -> bool {
        self.props().can_write_dst0_into_memory(version)
    }

    pub fn input_operands(&self, version: ISAVersion) -> Vec<Operand> {
        let mut result = Vec::new();
        self.with(|p| result.extend_from_slice(&p.input_operands(version)));
        result
    }

    pub fn output_operands(&self, version: ISAVersion) -> Vec<Operand> {
        self.with(|p| p.output_operands(version))
    }

    fn with<T>(&self, f: impl FnOnce(&dyn OpcodeProps) -> T) -> T {
        f(self.props())
    }

    fn props(&self) -> &dyn OpcodeProps {
        match self {
            Opcode::Invalid(sub) => sub,
            Opcode::Nop(sub) => sub,
            Opcode::Add(sub) => sub,
            Opcode::Sub(sub) => sub,
            Opcode::Mul(sub) => sub,
            Opcode::Div(sub) => sub,
            Opcode::Jump(sub) => sub,
            Opcode::Context(sub) => sub,
            Opcode::Shift(sub) => sub,
            Opcode::Binop(sub) => sub,
            Opcode::Ptr(sub) => sub,
            Opcode::NearCall(sub) => sub,
            Opcode::Log(sub) => sub,
            Opcode::FarCall(sub) => sub,
            Opcode::Ret(sub) => sub,
            Opcode::UMA(sub) => sub,
        }
    }
}
'''),
]
