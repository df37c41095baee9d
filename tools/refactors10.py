"""Behaviour-preserving edits, tenth battery: LazyLock instead of lazy_static, items moved to other modules, recursion,
iter::from_fn / successors / scan / windows / fold, Wrapping, operator overloading, builders, error enums with `?`,
wider intermediate arithmetic, bit tricks, interior mutability."""
P = "src/decoding/encoding_mode_production.rs"
T = "src/decoding/encoding_mode_testing.rs"
DM = "src/decoding/mod.rs"
M = "src/definitions/mod.rs"
L = "src/lib.rs"
D = "src/definitions/"
A = D + "abi/"
U = "src/utils.rs"
O = "src/opcode.rs"
S = "src/system_params.rs"
VH = D + "versioned_hash/mod.rs"
G = "src/circuit_pricing_generator/main.rs"
I = "src/imm_mem_modifiers.rs"
OT = D + "opcode_trait.rs"
R = {}
# lazily built tables: entry API, a shared generic helper, iterator adaptors
R["lib10"] = [
 (L, '''        let mut result = HashMap::<OpcodeVariant, VariantMonotonicNumber>::new();
        for (idx, el) in OPCODES_TABLE.iter().enumerate() {
            if let Some(existing) = result.get(el) {
                let usize_index = (*existing).into_usize();
                assert_eq!(OPCODES_TABLE[usize_index], INVALID_OPCODE_VARIANT);
            } else {
                let _ = result.insert(*el, VariantMonotonicNumber::from_usize(idx));
            }
        }

        result
''', '''        first_positions(&*OPCODES_TABLE, VariantMonotonicNumber::from_usize)
'''),
 (L, '''        let mut result = HashMap::new();
        for (idx, el) in OPCODES_TABLE.iter().enumerate() {
            if let Some(existing) = result.get(el) {
                assert_eq!(OPCODES_TABLE[*existing], INVALID_OPCODE_VARIANT);
            } else {
                let _ = result.insert(*el, idx);
            }
        }

        result
''', '''        first_positions(&*OPCODES_TABLE, std::convert::identity)
'''),
 (L, '''        let mut result = Vec::with_capacity(1 << OPCODES_TABLE_WIDTH);
        for opcode in OPCODES_TABLE.iter() {
            let price = opcode.ergs_price();
            result.push(price)
        }

        result.try_into().unwrap()
''', '''        std::array::from_fn(|idx| OPCODES_TABLE[idx].ergs_price())
'''),
 (L, "pub const INVALID_OPCODE_ERGS", '''/// Every variant with the first index it is found at; only the padding may repeat.
fn first_positions<T>(table: &[OpcodeVariant], index: impl Fn(usize) -> T) -> HashMap<OpcodeVariant, T> {
    use std::collections::hash_map::Entry;
    let mut result = HashMap::with_capacity(table.len());
    for (idx, el) in table.iter().copied().enumerate() {
        match result.entry(el) {
            Entry::Occupied(_) => assert_eq!(el, INVALID_OPCODE_VARIANT),
            Entry::Vacant(slot) => {
                slot.insert(index(idx));
            }
        }
    }
    result
}

pub const INVALID_OPCODE_ERGS'''),
 (L, '''    let mut total = OPCODE_TYPE_BITS
        + max_num_variants_for_version(version)
        + max_num_flags_for_version(version)
        + OPCODE_INPUT_VARIANT_FLAGS
        + OPCODE_OUTPUT_VARIANT_FLAGS;
    if total % WIDTH_MULTIPLE != 0 {
        total += WIDTH_MULTIPLE - total % WIDTH_MULTIPLE;
    }

    total
''', '''    // the smallest multiple that fits
    std::iter::successors(Some(0), |width| Some(width + WIDTH_MULTIPLE))
        .find(|width| *width >= total_description_bits_for_version(version))
        .unwrap()
'''),
]
# statics moved from lazy_static to std
R["lock10"] = [
 (S, ("lazy_static! {\n", None), '''macro_rules! formal_address {
    ($($name:ident = $low:expr),* $(,)?) => {
        $(pub static $name: LazyLock<Address> = LazyLock::new(|| {
            let mut address = Address::zero();
            address.as_bytes_mut()[12..].copy_from_slice(&u64::from($low).to_be_bytes());
            address
        });)*
    };
}

formal_address! {
    BOOTLOADER_FORMAL_ADDRESS = BOOTLOADER_FORMAL_ADDRESS_LOW,
    DEPLOYER_SYSTEM_CONTRACT_ADDRESS = DEPLOYER_SYSTEM_CONTRACT_ADDRESS_LOW,
    NONCE_MANAGER_SYSTEM_CONTRACT_ADDRESS = SYSTEM_CONTRACTS_OFFSET_ADDRESS + 3,
    KNOWN_CODE_FACTORY_SYSTEM_CONTRACT_ADDRESS = SYSTEM_CONTRACTS_OFFSET_ADDRESS + 4,
    KECCAK256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS = KECCAK256_ROUND_FUNCTION_PRECOMPILE_ADDRESS,
    SHA256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS = SHA256_ROUND_FUNCTION_PRECOMPILE_ADDRESS,
    ECRECOVER_INNER_FUNCTION_PRECOMPILE_FORMAL_ADDRESS = ECRECOVER_INNER_FUNCTION_PRECOMPILE_ADDRESS,
}
'''),
 (S, "use lazy_static::lazy_static;\n", "use std::sync::LazyLock;\n"),
 (L, '''    pub static ref NOP_BITSPREAD_U64: u64 = {
        let index = OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP[&NOP_OPCODE_VARIANT];
        let bitspread = OPCODES_PROPS_INTEGER_BITMASKS[index];

        bitspread
    };
''', ""),
 (L, '''    pub static ref PANIC_BITSPREAD_U64: u64 = {
        let index = OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP[&PANIC_OPCODE_VARIANT];
        let bitspread = OPCODES_PROPS_INTEGER_BITMASKS[index];

        bitspread
    };
''', ""),
 (L, "pub const INVALID_OPCODE_ERGS", '''fn bitspread_of(variant: &OpcodeVariant) -> u64 {
    OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP
        .get(variant)
        .map(|index| OPCODES_PROPS_INTEGER_BITMASKS[*index])
        .expect("a canonical variant")
}

pub static NOP_BITSPREAD_U64: std::sync::LazyLock<u64> =
    std::sync::LazyLock::new(|| bitspread_of(&NOP_OPCODE_VARIANT));
pub static PANIC_BITSPREAD_U64: std::sync::LazyLock<u64> =
    std::sync::LazyLock::new(|| bitspread_of(&PANIC_OPCODE_VARIANT));

pub const INVALID_OPCODE_ERGS'''),
]
# decoder: a cursor over the word
R["dec10"] = [
 (P, '''        let src_byte = (raw_value >> SRC_REGS_SHIFT) as u8;
        let dst_byte = (raw_value >> DST_REGS_SHIFT) as u8;

        let imm_0 = (raw_value >> Self::IMM0_SHIFT) as u16;
        let imm_1 = (raw_value >> Self::IMM1_SHIFT) as u16;

        let (src0_reg_idx, src1_reg_idx) = split_as_u4(src_byte);
        let (dst0_reg_idx, dst1_reg_idx) = split_as_u4(dst_byte);

        let new = DecodedOpcode {
            variant,
            condition,
            src0_reg_idx,
            src1_reg_idx,
            dst0_reg_idx,
            dst1_reg_idx,
            imm_0,
            imm_1,
        };
''', '''        let mut rest = Fields(raw_value >> SRC_REGS_SHIFT);
        let mut new = DecodedOpcode {
            variant,
            condition,
            ..Default::default()
        };
        for register in [
            &mut new.src0_reg_idx,
            &mut new.src1_reg_idx,
            &mut new.dst0_reg_idx,
            &mut new.dst1_reg_idx,
        ] {
            *register = rest.take(4) as u8;
        }
        for immediate in [&mut new.imm_0, &mut new.imm_1] {
            *immediate = rest.take(16) as u16;
        }
        debug_assert!(rest.0 == 0);
'''),
 (P, '''        assert!(variant_bits.next_power_of_two().trailing_zeros() as usize <= OPCODES_TABLE_WIDTH);
''', ""),
 (P, '''        let mut encoding = 0u64;

''', ""),
 (P, '''        encoding |= variant_bits as u64;
''', ""),
 (P, ('''        assert!(condition.next_power_of_two()''', "    fn encode_as_bytes"), '''        debug_assert!(condition < 1 << CONDITIONAL_BITS_WIDTH);

        // register indexes
        let src_registers_byte = merge_u4(opcode.src0_reg_idx, opcode.src1_reg_idx);
        let dst_registers_byte = merge_u4(opcode.dst0_reg_idx, opcode.dst1_reg_idx);

        [
            (u64::from(opcode.imm_1), 16),
            (u64::from(opcode.imm_0), 16),
            (u64::from(dst_registers_byte), 8),
            (u64::from(src_registers_byte), 8),
            (condition as u64, 16 - CONDITIONAL_BITS_SHIFT),
            (variant_bits as u64, CONDITIONAL_BITS_SHIFT),
        ]
        .iter()
        .fold(0, |word, (field, width)| (word << width) | field)
    }

'''),
 (P, "use crate::split_as_u4;\n", ""),
 (P, "use crate::DST_REGS_SHIFT;\n", ""),
 (P, "    const IMM0_SHIFT: u32 = 32;\n    const IMM1_SHIFT: u32 = 48;\n", ""),
 (P, "impl VmEncodingMode<8> for", '''/// The fields of an instruction word, taken from its low end
struct Fields(u64);

impl Fields {
    fn take(&mut self, width: u32) -> u64 {
        let field = self.0 & ((1 << width) - 1);
        self.0 >>= width;
        field
    }
}

impl VmEncodingMode<8> for'''),
]
# errors as an enum converted with `?`
R["hash10"] = [
 (U, '''    // bytecode should have an odd number of 32-byte words for ease of use of SHA256 round function
    if bytecode_words.len() % 2 != 1 {
        return Err(());
    }

    // limit of the bytecode length can be different in different modes
    use crate::decoding::AllowedPcOrImm;

    if bytecode_words.len() as u64 > E::PcOrImm::max().as_u64() {
        return Err(());
    }
''', '''    checked_num_words::<N, E>(bytecode_words)?;
'''),
 (U, '''    for w in bytecode_words.iter() {
        hasher.update(&w);
    }

    let result = hasher.finalize();

    let mut output = [0u8; 32];
    output[..].copy_from_slice(&result.as_slice());
''', '''    for (first, second) in bytecode_words.chunks(2).map(|pair| (pair.first(), pair.get(1))) {
        for word in first.into_iter().chain(second) {
            hasher.update(word);
        }
    }

    let output: [u8; 32] = hasher.finalize().into();
'''),
 (U, "    let versioned_hash_bytes = versioned_hash.serialize().ok_or(())?;\n\n    Ok(versioned_hash_bytes)\n", "    Ok(versioned_hash.serialize().ok_or(BytecodeError::Unrepresentable)?)\n"),
 (U, None, '''
#[derive(Debug)]
enum BytecodeError {
    EvenLength,
    TooLong { limit: u64 },
    Unrepresentable,
}

impl From<BytecodeError> for () {
    fn from(_: BytecodeError) -> Self {}
}

fn checked_num_words<const N: usize, E: VmEncodingMode<N>>(
    words: &[[u8; 32]],
) -> Result<u64, BytecodeError> {
    use crate::decoding::AllowedPcOrImm;
    let limit = E::PcOrImm::max().as_u64();
    match words.len() as u64 {
        // limit of the bytecode length can be different in different modes
        n if n > limit => Err(BytecodeError::TooLong { limit }),
        // an odd number of 32-byte words is needed for ease of use of SHA256 round function
        n if n & 1 == 0 => Err(BytecodeError::EvenLength),
        n => Ok(n),
    }
}
'''),
 (VH, '''        result[2..4].copy_from_slice(&storage.code_length_in_words.to_be_bytes());
        result[4..].copy_from_slice(&storage.partial_hash);

        Some(result)
    }
    fn serialize_to_stored(storage: Self::StorageLayout) -> Option<[u8; 32]> {
        let mut result = [0u8; 32];
        result[0] = Self::VERSION_BYTE;
        result[1] = 0;
        result[2..4].copy_from_slice(&storage.code_length_in_words.to_be_bytes());
        result[4..].copy_from_slice(&storage.partial_hash);

        Some(result)
''', '''        {
            let (length, hash) = result[2..].split_at_mut(2);
            for (i, byte) in length.iter_mut().enumerate() {
                *byte = (storage.code_length_in_words >> (8 * (1 - i))) as u8;
            }
            hash.clone_from_slice(&storage.partial_hash[..]);
        }

        Some(result)
    }
    fn serialize_to_stored(mut storage: Self::StorageLayout) -> Option<[u8; 32]> {
        storage.extra_marker = Self::CODE_AT_REST_MARKER;
        Self::serialize(storage)
'''),
 (VH, '''        let code_length_in_words = u16::from_be_bytes([input[2], input[3]]);
        let partial_hash: [u8; 28] = input[4..32].try_into().unwrap();
''', '''        let code_length_in_words = u16::from(input[2]) * 256 + u16::from(input[3]);
        let partial_hash: [u8; 28] = std::array::from_fn(|i| input[4 + i]);
'''),
]
# ABI: U256 operators instead of limbs
R["abi10"] = [
 (A + "fat_pointer.rs", '''        let mut result = U256::zero();
        result.0[0] = (self.offset as u64) | ((self.memory_page as u64) << 32);

        result.0[1] = (self.start as u64) | ((self.length as u64) << 32);

        result
''', '''        pack([self.offset, self.memory_page, self.start, self.length])
'''),
 (A + "fat_pointer.rs", None, '''
// four little-endian limbs of 32 bits each, the rest is zero
const fn pack(limbs: [u32; 4]) -> U256 {
    let mut low = 0u128;
    let mut i = limbs.len();
    while i > 0 {
        i -= 1;
        low = (low << 32) | limbs[i] as u128;
    }
    U256([low as u64, (low >> 64) as u64, 0, 0])
}
'''),
 (A + "fat_pointer.rs", '''        let mut exceptions = FatPointerValidationException::empty();
''', '''        let mut exceptions = FatPointerValidationException::from_bits_truncate(0);
'''),
 (A + "fat_pointer.rs", '''            exceptions.set(
                FatPointerValidationException::OFFSET_IS_NOT_ZERO_WHEN_EXPECTED,
                true,
            );
''', '''            exceptions |= FatPointerValidationException::OFFSET_IS_NOT_ZERO_WHEN_EXPECTED;
'''),
 (A + "fat_pointer.rs", '''        let (_, of) = self.start.overflowing_add(self.length);
        if of {
            exceptions.set(FatPointerValidationException::DEREF_BEYOND_HEAP_RANGE, true);
        }
''', '''        if !self.start < self.length {
            exceptions.insert(FatPointerValidationException::DEREF_BEYOND_HEAP_RANGE);
        }
'''),
 (A + "fat_pointer.rs", "        self.length == 0 && self.offset == 0\n", "        self.length | self.offset == 0\n"),
 (A + "precompile_call.rs", '''        let raw = raw_value.0;
        let input_memory_offset = raw[0] as u32;
        let input_memory_length = (raw[0] >> 32) as u32;
        let output_memory_offset = raw[1] as u32;
        let output_memory_length = (raw[1] >> 32) as u32;
        let memory_page_to_read = raw[2] as u32;
        let memory_page_to_write = (raw[2] >> 32) as u32;
        let precompile_interpreted_data = raw[3];

        Self {
            input_memory_offset,
            input_memory_length,
            output_memory_offset,
            output_memory_length,
            memory_page_to_read,
            memory_page_to_write,
            precompile_interpreted_data,
        }
''', '''        let PrecompileCallABI {
            input_memory_offset,
            input_memory_length,
            output_memory_offset,
            output_memory_length,
            per_precompile_interpreted: precompile_interpreted_data,
        } = PrecompileCallABI::from_u256(raw_value);
        let U256([_, _, pages, _]) = raw_value;

        Self {
            input_memory_offset,
            input_memory_length,
            output_memory_offset,
            output_memory_length,
            memory_page_to_read: (pages & u32::MAX as u64) as u32,
            memory_page_to_write: pages.rotate_left(32) as u32,
            precompile_interpreted_data,
        }
'''),
 (A + "meta.rs", '''        let tmp = (self.this_shard_id as u64)
            | ((self.caller_shard_id as u64) << 8)
            | ((self.code_shard_id as u64) << 16);
        result.0[3] = tmp << 32;
''', '''        result.0[3] = u64::from_le_bytes([
            0,
            0,
            0,
            0,
            self.this_shard_id,
            self.caller_shard_id,
            self.code_shard_id,
            0,
        ]);
'''),
 (A + "far_call.rs", '''        let extra_data = raw[3];
        let ergs_passed = extra_data as u32;

        let extra_data = (extra_data >> 32) as u32;

        let [forwarding_byte, shard_id, constructor_call_byte, to_system_byte] =
            extra_data.to_le_bytes();
''', '''        let [e0, e1, e2, e3, forwarding_byte, shard_id, constructor_call_byte, to_system_byte] =
            raw[3].to_le_bytes();
        let ergs_passed = u32::from_le_bytes([e0, e1, e2, e3]);
'''),
]
# opcode variant sets: static slices, position lookup, operator impls
R["uma10"] = [
 (D + "uma.rs", ("        match index {\n            i if i == UMAOpcode::HeapRead", "    fn ergs_price"), '''        const ORDER: [UMAOpcode; 5] = [
            UMAOpcode::HeapRead,
            UMAOpcode::HeapWrite,
            UMAOpcode::AuxHeapRead,
            UMAOpcode::AuxHeapWrite,
            UMAOpcode::FatPointerRead,
        ];
        let found = ORDER.binary_search_by_key(&index, Self::variant_index).ok()?;
        ORDER.get(found).cloned()
    }

'''),
 (D + "uma.rs", ("        match self {\n            UMAOpcode::AuxHeapWrite | UMAOpcode::HeapWrite => {", "impl OpcodeProps for UMAOpcode"), '''        // unaligned access is implemented with two aligned queries; a write both reads and writes them
        let (cycles, queries) = if self.is_write() { (2, 4) } else { (1, 2) };
        cycles * VM_CYCLE_COST_IN_ERGS + (1 + queries) * RAM_PERMUTATION_COST_IN_ERGS
    }
}

impl UMAOpcode {
    const fn is_write(self) -> bool {
        self as u8 % 2 == 1
    }
}

'''),
 (D + "uma.rs", ("        match version {\n            ISAVersion(0) => match self {", "    fn output_operands"), '''        let src0 = match (version.0, self) {
            (1, UMAOpcode::FatPointerRead) | (0, _) => Operand::RegOnly,
            // we allow imm on the inputs for heap access for offsets
            (1, _) => Operand::RegOrImm(RegOrImmFlags::UseRegOnly),
            _ => unimplemented!(),
        };
        let mut operands = Vec::from([src0]);
        operands.extend(self.is_write().then_some(Operand::RegOnly));
        operands
    }
'''),
 (D + "uma.rs", '''        match self {
            UMAOpcode::HeapWrite | UMAOpcode::AuxHeapWrite => vec![Operand::RegOnly],
            _ => vec![Operand::RegOnly, Operand::RegOnly],
        }
''', '''        [Operand::RegOnly].repeat(if self.is_write() { 1 } else { 2 })
'''),
 (D + "uma.rs", '''        vec![
            UMAOpcode::HeapRead,
            UMAOpcode::HeapWrite,
            UMAOpcode::AuxHeapRead,
            UMAOpcode::AuxHeapWrite,
            UMAOpcode::FatPointerRead,
        ]
''', '''        let mut next = 0;
        std::iter::from_fn(|| {
            let variant = Self::from_variant_index_for_version(next, &ALL_ISA_VERSIONS[0]);
            next += 1;
            variant
        })
        .collect()
'''),
]
# conditions and operand modes: tables instead of matches
R["cond10"] = [
 (D + "condition.rs", ("        assert!(idx < Self::NUM_VARIANTS);", "    pub const fn variant_index"), '''        match ALL_CONDITIONS.get(idx) {
            Some(condition) => *condition,
            None => panic!("unknown variant"),
        }
    }

'''),
 (D + "condition.rs", "    const NUM_VARIANTS: usize = 8;\n\n", ""),
 (D + "condition.rs", ("        match self {\n            Condition::Always => 0", "pub const ALL_CONDITIONS"), '''        *self as usize
    }
}

'''),
 (I, '''        match self {
            ImmMemHandlerFlags::UseRegOnly | ImmMemHandlerFlags::UseImm16Only => false,
            _ => true,
        }
''', '''        // register and immediate are bits 0 and 4
        const IN_MEMORY: u8 = 0b10_1110;
        IN_MEMORY >> self.encoding_byte() & 1 != 0
'''),
 (I, '''        match self {
            ImmMemHandlerFlags::UseImm16Only | ImmMemHandlerFlags::UseCodePage => false,
            _ => true,
        }
''', '''        self.variant_index() < Self::NUM_VARIANTS - 2
'''),
 (I, '''        Self::NUM_VARIANTS - 2
    }
    // pub fn''', '''        Self::all_variants()
            .iter()
            .map(|v| usize::from(v.is_allowed_for_dst()))
            .sum()
    }
    // pub fn'''),
 (I, '''        Self::NUM_VARIANTS - 1
''', '''        Self::all_variants().iter().filter(|v| v.is_allowed_for_dst()).count()
'''),
]
# display: one write with positional arguments, helper with padding
R["disp10"] = [
 (M, ('''        writeln!(f, "Opcode and variant: {:?}", self.opcode)?;''', "pub fn synthesize_opcode_decoding_tables("), '''        let Self {
            opcode,
            src0_operand_type: src0,
            dst0_operand_type: dst0,
            flags,
        } = self;
        let [low, high] = flags.map(|flag| flag.to_string());
        let lines = [
            format!("Opcode and variant: {opcode:?}"),
            format!("Src0 operand type: {src0:?}"),
            format!("Dst0 operand type: {dst0:?}"),
            ["Non-exclusive flags: ", &low, "|", &high].concat(),
        ];
        f.write_str(&lines.join("\\n"))
    }
}

'''),
 (O, ('''        // writeln!(f, "Decoded opcode")?;''', None), '''        let registers = [
            ("src0", self.src0_reg_idx),
            ("src1", self.src1_reg_idx),
            ("dst0", self.dst0_reg_idx),
            ("dst1", self.dst1_reg_idx),
        ];
        std::fmt::Display::fmt(&self.variant, f)?;
        write!(f, "\\nCondition: {:?}\\nRegister selections: ", self.condition)?;
        let mut separator = "";
        for (name, idx) in registers {
            write!(f, "{separator}{name} = r{idx}")?;
            separator = ", ";
        }
        for (i, imm) in [self.imm_0, self.imm_1].iter().enumerate() {
            write!(f, "\\nIMM{i} constant: {imm:#0width$x}", width = 8)?;
        }
        Ok(())
    }
}
'''),
]
# whole-opcode masking via struct update and std::mem
R["mask10"] = [
 (O, ("        // we only mask first 8 bytes", "    pub fn serialize_as_integer"), '''        self.mask_into(*PANIC_OPCODE_VARIANT);
    }

    pub fn mask_into_nop(&mut self) {
        self.mask_into(OpcodeVariant::default());
    }

    /// Only the first 8 bytes are masked, immediates stay
    fn mask_into(&mut self, variant: OpcodeVariant) {
        let masked = Self {
            variant,
            imm_0: self.imm_0,
            imm_1: self.imm_1,
            ..Self::default()
        };
        let _ = std::mem::replace(self, masked);
    }

'''),
 (O, "use crate::{Condition, ImmMemHandlerFlags, NopOpcode, OpcodeVariant, Operand, RetOpcode};", "use crate::{Condition, OpcodeVariant, PANIC_OPCODE_VARIANT};"),
 (O, "use crate::definitions::all::Opcode;\n", ""),
]
# generator: checked u64 arithmetic, a table of rows, String building with fmt::Write
R["gen10"] = [
 (G, '''    (a + b - 1) / b
''', '''    let (quotient, remainder) = (a / b, a % b);
    if remainder > 0 {
        quotient + 1
    } else {
        quotient
    }
'''),
 (G, '''    format!("pub const {}: u32 = {};\\n", name, value)
''', '''    use std::fmt::Write;
    let mut line = String::with_capacity(64);
    writeln!(&mut line, "pub const {name}: u32 = {value};").expect("writing to a string");
    line
'''),
 (G, '''    format!("\\n// {}\\n", comment)
''', '''    ["", "// ", comment, ""].into_iter().enumerate().fold(String::new(), |mut text, (i, part)| {
        if i == 1 || i == 3 {
            text.push('\\n');
        }
        text + part
    })
'''),
 (G, ("    let file_content = vec![", "    let mut f = File::create"), '''    const HEADER: [&str; 2] = [
        "// This file is auto-generated, do not edit it manually",
        "// Any changes to this file require system upgrade!",
    ];
    let mut file_content = String::new();
    for line in HEADER {
        file_content.push_str(line);
        file_content.push('\\n');
    }
    file_content.push('\\n');
    file_content += &prices;
'''),
]
# all.rs: one macro dispatching to a trait object / generic call
R["all10"] = [
 (D + "all.rs", ("    pub fn ergs_price(&self) -> u32 {", "    pub fn materialize_subvariant_from_prototype"), '''    pub fn ergs_price(&self) -> u32 {
        each!(self, inner => inner.ergs_price())
    }

'''),
 (D + "all.rs", ("    pub fn materialize_subvariant_idx", None), '''    pub fn materialize_subvariant_idx(&self) -> usize {
        each!(self, sub => sub.variant_index())
    }

    fn props(&self) -> &dyn OpcodeProps {
        each!(self, sub => sub)
    }

    pub fn requires_kernel_mode(&self) -> bool {
        self.props().requires_kernel_mode()
    }

    pub fn can_be_used_in_static_context(&self) -> bool {
        self.props().can_be_used_in_static_context()
    }

    pub fn can_have_src0_from_mem(&self, version: ISAVersion) -> bool {
        self.props().can_have_src0_from_mem(version)
    }

    pub fn can_write_dst0_into_memory(&self, version: ISAVersion) -> bool {
        self.props().can_write_dst0_into_memory(version)
    }

    pub fn input_operands(&self, version: ISAVersion) -> Vec<Operand> {
        self.props().input_operands(version)
    }

    pub fn output_operands(&self, version: ISAVersion) -> Vec<Operand> {
        self.props().output_operands(version)
    }
}
'''),
 (D + "all.rs", "impl Opcode {\n", '''macro_rules! each {
    (@ $self:ident, $sub:ident, $body:expr; $($kind:ident)*) => {
        match $self {
            $(Opcode::$kind($sub) => $body,)*
        }
    };
    ($self:ident, $sub:ident => $body:expr) => {
        each!(@ $self, $sub, $body; Invalid Nop Add Sub Mul Div Jump Context Shift Binop Ptr NearCall Log FarCall Ret UMA)
    };
}

impl Opcode {
'''),
]
# opcode_trait: recursion, scan, peekable, RefCell
R["trait10"] = [
 (OT, ("    let mut result = Vec::with_capacity(variants_range", None), '''    fn walk(
        mut rest: RangeInclusive<usize>,
        describe: &dyn Fn(usize) -> OpcodeVariantData,
        mut seen: Vec<OpcodeVariantData>,
    ) -> Vec<OpcodeVariantData> {
        match rest.next() {
            None => seen,
            Some(idx) => {
                seen.push(describe(idx));
                walk(rest, describe, seen)
            }
        }
    }
    let describe = move |variant_idx| OpcodeVariantData {
        variant_idx,
        num_used_immediates: num_immedates,
        num_non_exclusive_flags,
    };
    walk(variants_range, &describe, Vec::new())
}
'''),
 (OT, ("        let mut result = vec![];\n        for v in ALL_ISA", "    }\n}\n\npub const NUM_ISA"), '''        let count = ALL_ISA_VERSIONS.partition_point(|v| v <= &including);
        ALL_ISA_VERSIONS[..count].to_owned()
'''),
 (OT, ("        let possible_dests = self.input_operands(version);", "    fn can_write_dst0"), '''        let is_full = |operand: &Operand| matches!(operand, Operand::Full(_));
        self.input_operands(version).iter().take(1).any(is_full)
    }
'''),
]
