"""Behaviour-preserving edits: ABI, opcodes, hashing, generator, parameters."""
R = {}
A = "src/definitions/abi/"
D = "src/definitions/"
R["abi1"] = [
 (A+"far_call.rs", ("    pub const fn from_u256(raw_value", None), '''
    pub fn from_u256(raw_value: U256) -> Self {
        let mut bytes = [0u8; 32];
        raw_value.to_little_endian(&mut bytes);
        let ergs_passed = u32::from_le_bytes(bytes[24..28].try_into().unwrap());
        Self {
            memory_quasi_fat_pointer: FatPointer::from_u256(raw_value),
            ergs_passed,
            shard_id: bytes[FAR_CALL_SHARD_ID_BYTE_IDX],
            forwarding_mode: FarCallForwardPageType::from_u8(bytes[FAR_CALL_FORWARDING_MODE_BYTE_IDX]),
            constructor_call: bytes[FAR_CALL_CONSTRUCTOR_CALL_BYTE_IDX] > 0,
            to_system: bytes[FAR_CALL_SYSTEM_CALL_BYTE_IDX].count_ones() != 0,
        }
    }
}
'''),
 (A+"fat_pointer.rs", ("    pub const fn from_u256(value", "    pub fn validate(self"), '''
    pub fn from_u256(value: U256) -> Self {
        let low: u128 = value.low_u128();
        let part = |i: u32| (low >> (32 * i)) as u32;
        Self {
            offset: part(0),
            memory_page: part(1),
            start: part(2),
            length: part(3),
        }
    }

'''),
 (A+"fat_pointer.rs", ("        let mut exceptions = ", "    /// IMPORTANT"), '''
        let mut exceptions = FatPointerValidationException::empty();
        if is_fresh && self.offset > 0 {
            exceptions |= FatPointerValidationException::OFFSET_IS_NOT_ZERO_WHEN_EXPECTED;
        }
        if self.start.checked_add(self.length).is_none() {
            exceptions.insert(FatPointerValidationException::DEREF_BEYOND_HEAP_RANGE);
        }
        exceptions
    }

'''),
 (A+"fat_pointer.rs", ("        let mut result = U256::zero();", None), '''
        const fn pack(low: u32, high: u32) -> u64 {
            low as u64 + ((high as u64) << 32)
        }
        U256([pack(self.offset, self.memory_page), pack(self.start, self.length), 0, 0])
    }
}
'''),
 (A+"fat_pointer.rs", "self.length == 0 && self.offset == 0", "(self.length | self.offset) == 0"),
 (A+"fat_pointer.rs", "        let in_bounds = self.offset < self.length;\n\n        in_bounds", "        !(self.length <= self.offset)"),
 (A+"ret.rs", ("    pub const fn from_u256(raw_value", None), '''
    pub fn from_u256(raw_value: U256) -> Self {
        Self {
            memory_quasi_fat_pointer: FatPointer::from_u256(raw_value),
            page_forwarding_mode: RetForwardPageType::from_u8(raw_value.byte(RET_FORWARDING_MODE_BYTE_IDX)),
        }
    }
}
'''),
 (A+"ret.rs", ("        // use inline consts", "    }\n}\n\n#[derive"), '''        if value == 1 {
            Self::ForwardFatPointer
        } else if value == 2 {
            Self::UseAuxHeap
        } else {
            Self::UseHeap
        }
'''),
]
R["abi2"] = [
 (A+"precompile_call.rs", ("    pub const fn to_u256(self)", None), '''
    pub fn to_u256(self) -> U256 {
        let words = [
            self.input_memory_offset,
            self.input_memory_length,
            self.output_memory_offset,
            self.output_memory_length,
            self.memory_page_to_read,
            self.memory_page_to_write,
        ];
        let mut bytes = [0u8; 32];
        for (chunk, w) in bytes.chunks_exact_mut(4).zip(words.iter()) {
            chunk.copy_from_slice(&w.to_le_bytes());
        }
        bytes[24..].copy_from_slice(&self.precompile_interpreted_data.to_le_bytes());
        U256::from_little_endian(&bytes)
    }
}
'''),
 (A+"precompile_call.rs", ("    pub const fn from_u256(raw_value", "#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct PrecompileCallInnerABI"), '''
    pub const fn from_u256(raw_value: U256) -> Self {
        let U256([w0, w1, _, w3]) = raw_value;
        let (input_memory_offset, input_memory_length) = split(w0);
        let (output_memory_offset, output_memory_length) = split(w1);
        Self { input_memory_offset, input_memory_length, output_memory_offset, output_memory_length, per_precompile_interpreted: w3 }
    }
}

const fn split(w: u64) -> (u32, u32) {
    ((w & 0xffff_ffff) as u32, (w >> 32) as u32)
}

'''),
 (A+"meta.rs", ("        let mut result", None), '''
        let shards = u32::from_le_bytes([self.this_shard_id, self.caller_shard_id, self.code_shard_id, 0]);
        let mut result = U256::from(self.ergs_per_pubdata_byte);
        result = result | (U256::from(self.heap_size) << 64);
        result = result | (U256::from(self.aux_heap_size) << 96);
        result | (U256::from(shards) << 224)
    }
}
'''),
 (A+"meta.rs", "pub const fn to_u256", "pub fn to_u256"),
 (A+"near_call.rs", ("        let raw = raw_value.0;", "        Self"), "        let ergs_passed = raw_value.low_u32();\n"),
 (A+"near_call.rs", "pub const fn from_u256", "pub fn from_u256"),
]
R["op1"] = [
 (D+"log.rs", ("        match index {", "    fn ergs_price"), '''
        Self::all_variants().into_iter().find(|el| el.variant_index() == index)
    }

'''),
 (D+"uma.rs", ("        match index {", "    fn ergs_price"), '''
        Self::all_variants().get(index).copied()
    }

'''),
 (D+"uma.rs", ("        match version {\n            ISAVersion(0) => {\n                full_variants", "    fn max_variant_idx(&self"), '''
        if version.as_index() >= NUM_ISA_VERSIONS { unimplemented!() }
        Self::variants_for_version(version)
            .iter()
            .map(|el| OpcodeVariantData { variant_idx: el.variant_index(), num_non_exclusive_flags: 1, num_used_immediates: 0 })
            .collect()
    }
'''),
 (D+"log.rs", ("        match self {\n            LogOpcode::Event |", "    fn can_be_used"), '''
        matches!(self, LogOpcode::Event | LogOpcode::ToL1Message | LogOpcode::PrecompileCall)
    }
'''),
 (D+"log.rs", ("        match self {\n            LogOpcode::StorageWrite | LogOpcode::Event | LogOpcode::ToL1Message => {\n", "    fn output_operands"), '''
        let n = match self {
            LogOpcode::StorageWrite | LogOpcode::Event | LogOpcode::ToL1Message => 2,
            LogOpcode::StorageRead | LogOpcode::PrecompileCall => 1,
        };
        vec![Operand::RegOnly; n]
    }
'''),
 (D+"opcode_trait.rs", ("        let possible_dests = self.input_operands(version);", "    fn can_write_dst0"), '''
        matches!(self.input_operands(version).first(), Some(Operand::Full(_)))
    }
'''),
 (D+"opcode_trait.rs", ("    let mut result = Vec::with_capacity(variants_range", None), '''
    variants_range
        .map(|variant_idx| OpcodeVariantData {
            variant_idx,
            num_non_exclusive_flags,
            num_used_immediates: num_immedates,
        })
        .collect()
}
'''),
 (D+"opcode_trait.rs", ("        let mut result = vec![];\n        for v", "    }\n}\n\npub const NUM"), '''
        ALL_ISA_VERSIONS.iter().filter(|v| **v <= including).copied().collect()
'''),
 (D+"log.rs", "std::cmp::max(intrinsic_cost, L1_MESSAGE_MIN_COST_IN_ERGS)", "intrinsic_cost.max(L1_MESSAGE_MIN_COST_IN_ERGS)"),
 (D+"log.rs", "                std::cmp::max(intrinsic, MIN_STORAGE_WRITE_COST)", "                if intrinsic < MIN_STORAGE_WRITE_COST {\n                    MIN_STORAGE_WRITE_COST\n                } else {\n                    intrinsic\n                }"),
]
allrs = open("/repo/src/definitions/all.rs").read()
head = allrs[:allrs.index("impl Opcode {")]
R["op2"] = [
 (D+"all.rs", ("impl Opcode {", None), '''
macro_rules! dispatch {
    ($self:expr, $inner:ident => $e:expr) => {
        match $self {
            Opcode::Invalid($inner) => $e,
            Opcode::Nop($inner) => $e,
            Opcode::Add($inner) => $e,
            Opcode::Sub($inner) => $e,
            Opcode::Mul($inner) => $e,
            Opcode::Div($inner) => $e,
            Opcode::Jump($inner) => $e,
            Opcode::Context($inner) => $e,
            Opcode::Shift($inner) => $e,
            Opcode::Binop($inner) => $e,
            Opcode::Ptr($inner) => $e,
            Opcode::NearCall($inner) => $e,
            Opcode::Log($inner) => $e,
            Opcode::FarCall($inner) => $e,
            Opcode::Ret($inner) => $e,
            Opcode::UMA($inner) => $e,
        }
    };
}

fn must<T: OpcodeVariantProps>(_: &T, idx: usize, version: &ISAVersion) -> T {
    match T::from_variant_index_for_version(idx, version) {
        Some(x) => x,
        None => panic!("must materialize"),
    }
}

impl Opcode {
    fn props(&self) -> &dyn OpcodeProps {
        dispatch!(self, inner => inner)
    }
    pub fn ergs_price(&self) -> u32 {
        dispatch!(self, inner => inner.ergs_price())
    }
    pub fn materialize_subvariant_from_prototype(&self, idx: usize, version: &ISAVersion) -> Self {
        match self {
            Opcode::Invalid(x) => Opcode::Invalid(must(x, idx, version)),
            Opcode::Nop(x) => Opcode::Nop(must(x, idx, version)),
            Opcode::Add(x) => Opcode::Add(must(x, idx, version)),
            Opcode::Sub(x) => Opcode::Sub(must(x, idx, version)),
            Opcode::Mul(x) => Opcode::Mul(must(x, idx, version)),
            Opcode::Div(x) => Opcode::Div(must(x, idx, version)),
            Opcode::Jump(x) => Opcode::Jump(must(x, idx, version)),
            Opcode::Context(x) => Opcode::Context(must(x, idx, version)),
            Opcode::Shift(x) => Opcode::Shift(must(x, idx, version)),
            Opcode::Binop(x) => Opcode::Binop(must(x, idx, version)),
            Opcode::Ptr(x) => Opcode::Ptr(must(x, idx, version)),
            Opcode::NearCall(x) => Opcode::NearCall(must(x, idx, version)),
            Opcode::Log(x) => Opcode::Log(must(x, idx, version)),
            Opcode::FarCall(x) => Opcode::FarCall(must(x, idx, version)),
            Opcode::Ret(x) => Opcode::Ret(must(x, idx, version)),
            Opcode::UMA(x) => Opcode::UMA(must(x, idx, version)),
        }
    }
''' + allrs[allrs.index("    pub const fn variant_idx"):allrs.index("    pub fn materialize_subvariant_idx")] + '''
    pub fn materialize_subvariant_idx(&self) -> usize {
        dispatch!(self, inner => inner.variant_index())
    }
    pub fn requires_kernel_mode(&self) -> bool {
        self.props().requires_kernel_mode()
    }
    pub fn can_be_used_in_static_context(&self) -> bool {
        self.props().can_be_used_in_static_context()
    }
    pub fn can_have_src0_from_mem(&self, version: ISAVersion) -> bool {
        self.props().can_have_src0_from_mem(version)
    }
    pub fn can_write_dst0_into_memory(&self, version: ISAVersion) -> bool {
        self.props().can_write_dst0_into_memory(version)
    }
    pub fn input_operands(&self, version: ISAVersion) -> Vec<Operand> {
        let p: Box<dyn Fn(ISAVersion) -> Vec<Operand> + '_> = Box::new(move |v| self.props().input_operands(v));
        p(version)
    }
    pub fn output_operands(&self, version: ISAVersion) -> Vec<Operand> {
        self.props().output_operands(version).iter().cloned().collect::<Vec<_>>()
    }
}
'''),
]
U = "src/utils.rs"
R["hash1"] = [
 (U, ("    let mut hasher = Sha256::new();", "    use crate::{Contract"), '''
    let bytes: Vec<u8> = bytecode_words.iter().flatten().copied().collect();
    let output: [u8; 32] = Sha256::digest(&bytes).into();
'''),
 (U, "bytecode_words.len() % 2 != 1", "bytecode_words.len() & 1 == 0"),
 (U, ("    let versioned_hash_bytes", None), "    versioned_hash.serialize().ok_or(())\n}\n"),
]
R["hash2"] = [
 (U, ("    let mut hasher = Sha256::new();", "    use crate::{Contract"), '''
    let output: [u8; 32] = bytecode_words
        .iter()
        .fold(Sha256::new(), |h, w| h.chain_update(w))
        .finalize()
        .into();
'''),
 (U, ("    if bytecode_words.len() % 2 != 1", "    use sha2"), '''
    use crate::decoding::AllowedPcOrImm;
    let num_words = bytecode_words.len();
    match num_words % 2 {
        0 => return Err(()),
        _ if num_words as u64 > E::PcOrImm::max().as_u64() => return Err(()),
        _ => {}
    }

'''),
]
R["hash3"] = [
 (U, ("    let mut hasher = Sha256::new();", "    use crate::{Contract"), '''
    let mut hasher = Sha256::new();
    for pair in bytecode_words.chunks(2) {
        hasher.update(pair.concat());
    }
    let mut output = [0u8; 32];
    output.copy_from_slice(&hasher.finalize());
'''),
]
VH = D + "versioned_hash/mod.rs"
R["hash4"] = [
 (VH, ("    fn serialize(storage: Self::StorageLayout) -> Option<[u8; 32]> {", "    fn try_deserialize(input: [u8; 32]) -> Option<Self::StorageLayout> {"), '''    fn serialize(storage: Self::StorageLayout) -> Option<[u8; 32]> {
        Some(layout_bytes(storage.extra_marker, &storage))
    }
    fn serialize_to_stored(storage: Self::StorageLayout) -> Option<[u8; 32]> {
        Self::serialize(ContractCodeSha256Storage { extra_marker: Self::CODE_AT_REST_MARKER, ..storage })
    }
'''),
 (VH, ("        if input[0] != Self::VERSION_BYTE {", None), '''        let (head, tail) = input.split_at(4);
        let [version, extra_marker, l0, l1]: [u8; 4] = head.try_into().ok()?;
        (version == Self::VERSION_BYTE).then(|| {
            let mut partial_hash = [0u8; 28];
            partial_hash.clone_from_slice(tail);
            ContractCodeSha256Storage {
                code_length_in_words: (l0 as u16) << 8 | l1 as u16,
                extra_marker,
                partial_hash,
            }
        })
    }
}

fn layout_bytes(marker: u8, storage: &ContractCodeSha256Storage) -> [u8; 32] {
    let mut v = Vec::with_capacity(32);
    v.push(ContractCodeSha256::VERSION_BYTE);
    v.push(marker);
    v.extend_from_slice(&storage.code_length_in_words.to_be_bytes());
    v.extend(storage.partial_hash.iter());
    v.try_into().unwrap()
}
'''),
 (VH, "        let mut truncated_digest = [0u8; 28];\n        truncated_digest.copy_from_slice(&digest[4..]);\n", "        let truncated_digest: [u8; 28] = std::array::from_fn(|i| digest[i + 4]);\n"),
]
G = "src/circuit_pricing_generator/main.rs"
R["gen1"] = [
 (G, "    (a + b - 1) / b", "    a.div_ceil(b)"),
 (G, 'format!("pub const {}: u32 = {};\\n", name, value)', 'format!("pub const {name}: u32 = {value};\\n")'),
 (G, ("    let file_content = vec![", "fn main"), '''    let mut file_content = String::from("// This file is auto-generated, do not edit it manually\\n");
    file_content.push_str("// Any changes to this file require system upgrade!\\n\\n");
    file_content += &prices;
    std::fs::write(filepath, file_content).expect("Unable to write data");
}

'''),
 (G, "use std::fs::File;\nuse std::io::Write;\n", ""),
]
R["gen2"] = [
 (G, ("    let file_content = vec![", "fn main"), '''    let mut f = std::io::BufWriter::new(File::create(filepath).expect("Unable to create file"));
    writeln!(f, "// This file is auto-generated, do not edit it manually").unwrap();
    writeln!(f, "// Any changes to this file require system upgrade!").unwrap();
    writeln!(f).unwrap();
    write!(f, "{}", prices).unwrap();
    f.flush().unwrap();
}

'''),
 (G, ("    (a + b - 1) / b", "fn ergs_constant"), "    let q = a / b;\n    if a % b == 0 { q } else { q + 1 }\n}\n\n"),
]
R["gen3"] = [
 (G, ("        ergs_constant(\n            \"KECCAK256", "    .concat();\n\n    save"), '''    ];
    let wrappers = [
        ("KECCAK256_CIRCUIT_COST_IN_ERGS", CYCLES_PER_KECCAK256_CIRCUIT),
        ("SHA256_CIRCUIT_COST_IN_ERGS", CYCLES_PER_SHA256_CIRCUIT),
        ("ECRECOVER_CIRCUIT_COST_IN_ERGS", CYCLES_PER_ECRECOVER_CIRCUIT),
    ];
    let circuit_prices = circuit_prices
        .into_iter()
        .chain(wrappers.iter().map(|(n, c)| ergs_constant(n, ceil_div(ERGS_PER_CIRCUIT, *c))))
        .collect::<Vec<String>>()
'''),
 (G, "    .concat();\n\n    save", "    .join(\"\");\n\n    save"),
 (G, ("        if MAX_PUBDATA_PER_BLOCK <= max_possible_initial", "    let max_possible_repeated"), '''        min_price(max_possible_initial_bytes_circuit_wise, LIMIT_FOR_INITIAL_WRITES_PUBDATA_HASHER);

'''),
 (G, "fn main() {", '''fn min_price(bytes: u32, limit: u32) -> u32 {
    if bytes >= MAX_PUBDATA_PER_BLOCK {
        return 0;
    }
    ceil_div(MAX_TX_ERGS_LIMIT, limit)
}

fn main() {'''),
]
S = "src/system_params.rs"
R["sys1"] = [
 (S, "        Address::from_low_u64_be(SYSTEM_CONTRACTS_OFFSET_ADDRESS as u64 + 0x03);", "        system_contract_address(0x03);"),
 (S, "        Address::from_low_u64_be(SYSTEM_CONTRACTS_OFFSET_ADDRESS as u64 + 0x04);", "        system_contract_address(0x04);"),
 (S, None, '''
fn system_contract_address(index: u16) -> Address {
    let mut bytes = [0u8; 20];
    bytes[18..].copy_from_slice(&(SYSTEM_CONTRACTS_OFFSET_ADDRESS as u16 + index).to_be_bytes());
    Address::from(bytes)
}
'''),
 (S, "    if a > b {\n        a\n    } else {\n        b\n    }", "    if b >= a {\n        return b;\n    }\n    a"),
]
I = "src/imm_mem_modifiers.rs"
R["imm1"] = [
 (I, "        match self {\n            ImmMemHandlerFlags::UseRegOnly | ImmMemHandlerFlags::UseImm16Only => false,\n            _ => true,\n        }", "        !matches!(self, Self::UseRegOnly | Self::UseImm16Only)"),
 (I, "        Self::NUM_VARIANTS - 2\n", "        Self::all_variants().iter().filter(|v| v.is_allowed_for_dst()).count()\n"),
 (I, "        match self {\n            ImmMemHandlerFlags::UseImm16Only | ImmMemHandlerFlags::UseCodePage => false,\n            _ => true,\n        }", "        (*self as u8) < (Self::UseImm16Only as u8)"),
 (D+"opcode_trait.rs", "            Operand::RegOrImm(v) => v.variant_index(),\n            Operand::Full(v) => v.variant_index(),", "            Operand::RegOrImm(v) => v.encoding_byte() as usize,\n            Operand::Full(v) => v.encoding_byte() as usize,"),
]
