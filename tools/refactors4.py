"""Behaviour-preserving edits, fourth battery: other idioms over files the first three left alone."""
P = "src/decoding/encoding_mode_production.rs"
T = "src/decoding/encoding_mode_testing.rs"
M = "src/definitions/mod.rs"
L = "src/lib.rs"
D = "src/definitions/"
U = "src/utils.rs"
O = "src/opcode.rs"
I = "src/imm_mem_modifiers.rs"
S = "src/system_params.rs"
TR = D + "opcode_trait.rs"
VH = D + "versioned_hash/mod.rs"
R = {}
# opcode files
R["ptr1"] = [
 (D + "ptr.rs", ("        match index {\n", "    fn ergs_price"), "        const TABLE: [PtrOpcode; 4] = [PtrOpcode::Add, PtrOpcode::Sub, PtrOpcode::Pack, PtrOpcode::Shrink];\n        TABLE.get(index).copied()\n    }\n\n"),
 (D + "ptr.rs", ("        match version {\n            ISAVersion(0) => {", "    fn max_variant_idx(&self"), "        if version.0 > 1 {\n            unimplemented!()\n        }\n        full_variants_product(0..=Self::max_variant_idx_for_version(version), 1, 2)\n    }\n"),
 (D + "shift.rs", ("        match index {\n", "    fn ergs_price"), "        Self::all_variants().into_iter().find(|v| v.variant_index() == index)\n    }\n\n"),
 (D + "binop.rs", ("        match index {\n", "    fn ergs_price"), "        Self::all_variants().into_iter().nth(index)\n    }\n\n"),
 (D + "context.rs", ("        match index {\n", "    fn ergs_price"), "        if index > Self::max_variant_idx_for_version(*_version) {\n            return None;\n        }\n        let v = Self::all_variants();\n        Some(v[index])\n    }\n\n"),
 (D + "log.rs", ("        match index {\n", "    fn ergs_price"), "        Self::all_variants().get(index).cloned()\n    }\n\n"),
 (D + "ret.rs", ("        match index {\n", "    fn ergs_price"), "        match u8::try_from(index).ok()? {\n            0 => Some(RetOpcode::Ok),\n            1 => Some(RetOpcode::Revert),\n            2 => Some(RetOpcode::Panic),\n            3..=u8::MAX => None,\n        }\n    }\n\n"),
 (D + "far_call.rs", ("        match index {\n", "    fn ergs_price"), "        if index == 0 {\n            Some(Self::Normal)\n        } else if index == 1 {\n            Some(Self::Delegate)\n        } else if index == 2 {\n            Some(Self::Mimic)\n        } else {\n            None\n        }\n    }\n\n"),
 (D + "uma.rs", ("        match index {\n", "    fn ergs_price"), "        Self::all_variants().into_iter().rev().skip_while(|v| v.variant_index() != index).next()\n    }\n\n"),
]
R["log1"] = [
 (D + "log.rs", ("        match self {\n            LogOpcode::StorageRead => {\n                STORAGE_READ", "impl OpcodeProps"), '''        let rollback = matches!(self, LogOpcode::StorageWrite | LogOpcode::ToL1Message | LogOpcode::Event);
        let times = if rollback { 2 } else { 1 };
        let base = times * (VM_CYCLE_COST_IN_ERGS + LOG_DEMUXER_COST_IN_ERGS) + RAM_PERMUTATION_COST_IN_ERGS;
        let (io, sorter, minimum) = match *self {
            LogOpcode::StorageRead => (STORAGE_READ_IO_PRICE, STORAGE_SORTER_COST_IN_ERGS, 0),
            LogOpcode::StorageWrite => (STORAGE_WRITE_IO_PRICE, STORAGE_SORTER_COST_IN_ERGS, MIN_STORAGE_WRITE_COST),
            LogOpcode::ToL1Message => (L1_MESSAGE_IO_PRICE, EVENTS_OR_L1_MESSAGES_SORTER_COST_IN_ERGS, L1_MESSAGE_MIN_COST_IN_ERGS),
            LogOpcode::Event => (EVENT_IO_PRICE, EVENTS_OR_L1_MESSAGES_SORTER_COST_IN_ERGS, 0),
            LogOpcode::PrecompileCall => (0, 0, 0),
        };
        [base, io, times * sorter].iter().sum::<u32>().max(minimum)
    }
}

'''),
 (D + "log.rs", ("                vec![\n                    // Storage read", "            _ => unimplemented!(),"), '''                Self::all_variants()
                    .iter()
                    .map(|v| OpcodeVariantData {
                        variant_idx: v.variant_index(),
                        num_non_exclusive_flags: matches!(v, LogOpcode::ToL1Message | LogOpcode::Event).into(),
                        num_used_immediates: Default::default(),
                    })
                    .collect()
            }
'''),
 (D + "log.rs", "            LogOpcode::StorageRead => vec![Operand::RegOnly],\n            LogOpcode::PrecompileCall => vec![Operand::RegOnly],", "            _ => std::iter::once(Operand::RegOnly).collect(),"),
 (D + "log.rs", "            LogOpcode::StorageWrite | LogOpcode::Event | LogOpcode::ToL1Message => {\n                vec![Operand::RegOnly, Operand::RegOnly]\n            }", "            LogOpcode::StorageWrite | LogOpcode::Event | LogOpcode::ToL1Message => [Operand::RegOnly; 2].to_vec(),"),
]
R["fc1"] = [
 (TR, ("    let mut result = Vec::with_capacity(variants_range.clone().count());", None), "    variants_range\n        .map(|variant_idx| OpcodeVariantData { variant_idx, num_non_exclusive_flags, num_used_immediates: num_immedates })\n        .collect()\n}\n"),
 (TR, ("        let mut result = vec![];\n        for v in ALL_ISA", "pub const NUM_ISA"), "        ALL_ISA_VERSIONS.into_iter().filter(|v| *v <= including).collect()\n    }\n}\n\n"),
 (TR, ("        let possible_dests = self.input_operands(version);", "    fn can_write_dst0"), "        matches!(self.input_operands(version).first(), Some(Operand::Full(_)))\n    }\n    "),
 (TR, ("        let possible_dests = self.output_operands(version);", "pub trait OpcodeVariantProps"), "        match self.output_operands(version).as_slice() {\n            [Operand::Full(_), ..] => true,\n            [Operand::RegOrImm(_), ..] => unreachable!(),\n            [Operand::RegOnly, ..] | [] => false,\n        }\n    }\n}\n\n"),
 (TR, "            Operand::RegOnly => 0,\n            Operand::RegOrImm(v) => v.variant_index(),\n            Operand::Full(v) => v.variant_index(),", "            Operand::RegOnly => ImmMemHandlerFlags::UseRegOnly.variant_index(),\n            Operand::RegOrImm(v) => *v as usize,\n            Operand::Full(v) => *v as usize,"),
 (TR, "        Self::all_variants()\n            .into_iter()\n            .filter(|el| el.is_added_in_version(version))\n            .collect()", "        let mut all = Self::all_variants();\n        all.retain(|el| el.is_added_in_version(version));\n        all"),
 (TR, "        Self::all_variants()\n            .into_iter()\n            .filter(|el| el.is_available_for_version(version))\n            .collect()", "        let (available, _later): (Vec<Self>, Vec<Self>) =\n            Self::all_variants().into_iter().partition(|el| el.is_available_for_version(version));\n        available"),
]
R["fc2"] = [
 (TR, "        self.minimal_version() <= version\n", "        version.0.checked_sub(self.minimal_version().0).is_some()\n"),
 (TR, "        self.minimal_version() == version\n", "        self.minimal_version().as_index() == version.as_index()\n"),
 (TR, "#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct ISAVersion", '''impl PartialOrd for ISAVersion {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
impl Ord for ISAVersion {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.0.cmp(&other.0)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct ISAVersion'''),
 (TR, "#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub enum Operand {", '''impl PartialEq for Operand {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Self::RegOnly, Self::RegOnly) => true,
            (Self::RegOrImm(a), Self::RegOrImm(b)) => a == b,
            (Self::Full(a), Self::Full(b)) => a == b,
            _ => false,
        }
    }
}
impl Eq for Operand {}
impl std::hash::Hash for Operand {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        std::mem::discriminant(self).hash(state);
        state.write_usize(self.variant_idx());
    }
}
impl Ord for Operand {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        fn key(o: &Operand) -> (u8, usize) {
            let kind = match o {
                Operand::RegOnly => 0,
                Operand::RegOrImm(_) => 1,
                Operand::Full(_) => 2,
            };
            (kind, o.variant_idx())
        }
        key(self).cmp(&key(other))
    }
}
impl PartialOrd for Operand {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(Ord::cmp(self, other))
    }
}
#[derive(Clone, Copy, Debug)]
pub enum Operand {'''),
]
R["call1"] = [
 (D + "far_call.rs", ("    fn requires_kernel_mode", "    fn can_be_used"), "    fn requires_kernel_mode(&self) -> bool {\n        *self == FarCallOpcode::Mimic\n    }\n"),
 (D + "context.rs", ("    fn requires_kernel_mode", "    fn can_be_used"), "    fn requires_kernel_mode(&self) -> bool {\n        (ContextOpcode::SetContextU128.variant_index()..=ContextOpcode::IncrementTxNumber.variant_index()).contains(&self.variant_index())\n    }\n"),
 (D + "log.rs", ("    fn requires_kernel_mode", "    fn can_be_used"), "    fn requires_kernel_mode(&self) -> bool {\n        [LogOpcode::Event, LogOpcode::ToL1Message, LogOpcode::PrecompileCall].contains(self)\n    }\n"),
 (M, "        match &self.opcode {\n            Opcode::Invalid(_) => true,\n            _ => false,\n        }", "        self.opcode.variant_idx() == INVALID_OPCODE_VARIANT.opcode.variant_idx()"),
 (M, ("        match self.opcode {\n            Opcode::Sub(_)", "    pub fn requires_kernel_mode"), '''        let idx = match self.opcode {
            Opcode::Ptr(..) => SWAP_OPERANDS_FLAG_IDX_FOR_PTR_OPCODE,
            Opcode::Sub(..) | Opcode::Div(..) | Opcode::Shift(..) => SWAP_OPERANDS_FLAG_IDX_FOR_ARITH_OPCODES,
            _ => return false,
        };
        self.flags[idx]
    }

'''),
]
R["disp1"] = [
 (M, ("        writeln!(f, \"Opcode and variant: {:?}\", self.opcode)?;", "pub fn synthesize_opcode_decoding_tables("), '''        let Self { opcode, src0_operand_type, dst0_operand_type, flags: [a, b] } = self;
        f.write_str("Opcode and variant: ")?;
        std::fmt::Debug::fmt(opcode, f)?;
        for (name, operand) in [("Src0", src0_operand_type), ("Dst0", dst0_operand_type)] {
            write!(f, "\\n{name} operand type: {operand:?}")?;
        }
        f.write_char('\\n')?;
        f.write_fmt(format_args!("Non-exclusive flags: {}|{}", a, b))
    }
}

'''),
 (M, "use std::collections::HashSet;\n", "use std::collections::HashSet;\nuse std::fmt::Write as _;\n"),
 (M, ("    let total_bits = num_opcodes + num_options", "#[cfg(test)]\nmod test"), '''    let parts = [
        (num_opcodes, "bit flags for opcode"),
        (num_options, "bit flags for variant"),
        (num_flags, "bit flags for flags"),
        (input_flags, "bits flags for input type"),
        (output_flags, "bit flags for output type"),
    ];
    let total: usize = parts.iter().map(|(n, _)| n).sum();
    let list: Vec<String> = parts.iter().map(|(n, what)| format!("{n} {what}")).collect();
    format!("{total} bits in total.\\n{}", list.join("|"))
}

'''),
]
R["disp2"] = [
 (M, ("        writeln!(f, \"Opcode and variant: {:?}\", self.opcode)?;", "pub fn synthesize_opcode_decoding_tables("), '''        let lines = vec![
            format!("Opcode and variant: {:?}", self.opcode),
            format!("Src0 operand type: {:?}", self.src0_operand_type),
            format!("Dst0 operand type: {:?}", self.dst0_operand_type),
            format!("Non-exclusive flags: {:#01}|{:#01}", self.flags[0], self.flags[1]),
        ];
        f.write_str(&lines.join("\\n"))
    }
}

'''),
 (M, ("    let total_bits = num_opcodes + num_options", "#[cfg(test)]\nmod test"), '''    let mut s = String::with_capacity(200);
    s.push_str(&(num_opcodes + num_options + num_flags + input_flags + output_flags).to_string());
    s += " bits in total.\\n";
    s.push_str(&format!("{} bit flags for opcode|", num_opcodes));
    s.push_str(&format!("{} bit flags for variant|", num_options));
    s.extend([num_flags.to_string(), " bit flags for flags|".to_owned()]);
    s = s + &input_flags.to_string() + " bits flags for input type|";
    s.insert_str(s.len(), &format!("{output_flags} bit flags for output type"));
    s
}

'''),
]
R["abi3"] = [
 (D + "abi/fat_pointer.rs", ("        let mut exceptions = FatPointerValidationException::empty();", "    /// IMPORTANT"), '''        let mut exceptions = FatPointerValidationException::empty();
        if let (true, 1..) = (is_fresh, self.offset) {
            exceptions |= FatPointerValidationException::OFFSET_IS_NOT_ZERO_WHEN_EXPECTED;
        }
        exceptions.set(FatPointerValidationException::DEREF_BEYOND_HEAP_RANGE, self.start.checked_add(self.length).is_none());
        exceptions
    }

'''),
 (D + "abi/fat_pointer.rs", "        let in_bounds = self.offset < self.length;\n\n        in_bounds", "        !(self.offset >= self.length)"),
 (D + "abi/fat_pointer.rs", "self.length == 0 && self.offset == 0", "(self.length | self.offset) == 0"),
 (D + "abi/fat_pointer.rs", ("        let raw_value = value.0;\n", "    pub fn validate"), '''        const fn halves(limb: u64) -> (u32, u32) {
            (limb as u32, (limb >> 32) as u32)
        }
        let (offset, memory_page) = halves(value.0[0]);
        let (start, length) = halves(value.0[1]);
        Self { offset, memory_page, start, length }
    }

'''),
 (D + "abi/fat_pointer.rs", ("        let mut result = U256::zero();\n        result.0[0] = (self.offset", None), '''        const fn join(low: u32, high: u32) -> u64 {
            let [a, b, c, d] = low.to_le_bytes();
            let [e, f, g, h] = high.to_le_bytes();
            u64::from_le_bytes([a, b, c, d, e, f, g, h])
        }
        U256([join(self.offset, self.memory_page), join(self.start, self.length), 0, 0])
    }
}
'''),
 (D + "abi/ret.rs", ("        // use inline consts when stable\n", "#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct RetABI"), "        if value == Self::ForwardFatPointer as u8 {\n            Self::ForwardFatPointer\n        } else if value == Self::UseAuxHeap as u8 {\n            Self::UseAuxHeap\n        } else {\n            Self::UseHeap\n        }\n    }\n}\n\n"),
 (D + "abi/meta.rs", ("        let mut result = U256::zero();", None), '''        let shards = u32::from_be_bytes([0, self.code_shard_id, self.caller_shard_id, self.this_shard_id]);
        let mut limbs = [0u64; 4];
        limbs[0] += self.ergs_per_pubdata_byte as u64;
        limbs[1] += (self.aux_heap_size as u64) * (1 << 32) + self.heap_size as u64;
        limbs[3] = (shards as u64).rotate_left(32);
        U256(limbs)
    }
}
'''),
 (D + "abi/far_call.rs", ("        let raw = raw_value.0;", "        let page_forwarding"), '''        let top = raw_value.0[3].to_be_bytes();
        let [to_system_byte, constructor_call_byte, shard_id, forwarding_byte, a, b, c, d] = top;
        let ergs_passed = u32::from_be_bytes([a, b, c, d]);
'''),
]
R["hash5"] = [
 (U, "    if bytecode_words.len() % 2 != 1 {\n        return Err(());\n    }\n", "    match bytecode_words.len() & 1 {\n        1 => {}\n        _ => return Err(()),\n    }\n"),
 (U, ("    let mut hasher = Sha256::new();", "    use crate::{ContractCodeSha256"), '''    let hasher = bytecode_words.iter().fold(Sha256::new(), |mut h, w| {
        Digest::update(&mut h, w);
        h
    });
    let mut output = [0u8; 32];
    for (o, b) in output.iter_mut().zip(hasher.finalize().iter()) {
        *o = *b;
    }

'''),
 (U, "            bytecode_words.len() as u16,", "            (bytecode_words.len() & 0xffff).try_into().unwrap(),"),
]
R["hash6"] = [
 (U, ("    if bytecode_words.len() % 2 != 1 {", "    use sha2::{Digest"), '''    use crate::decoding::AllowedPcOrImm;
    let num_words = bytecode_words.len();
    let limit = E::PcOrImm::max().as_u64();
    if num_words % 2 == 0 || u64::try_from(num_words).map_or(true, |n| n > limit) {
        return Err(());
    }

'''),
 (U, ("    for w in bytecode_words.iter() {", "    let result = hasher"), '''    let mut i = 0;
    while let Some(w) = bytecode_words.get(i) {
        hasher.update(w.as_slice());
        i += 1;
    }

'''),
 (U, "    output[..].copy_from_slice(&result.as_slice());", "    output.clone_from_slice(result.as_slice());"),
 (VH, "        result[2..4].copy_from_slice(&storage.code_length_in_words.to_be_bytes());\n        result[4..].copy_from_slice(&storage.partial_hash);\n\n        Some(result)\n    }\n    fn serialize_to_stored", "        let [hi, lo] = storage.code_length_in_words.to_be_bytes();\n        (result[2], result[3]) = (hi, lo);\n        for (i, b) in storage.partial_hash.iter().enumerate() {\n            result[4 + i] = *b;\n        }\n\n        Some(result)\n    }\n    fn serialize_to_stored"),
 (VH, ("        let mut result = [0u8; 32];\n        result[0] = Self::VERSION_BYTE;\n        result[1] = 0;", "    fn try_deserialize"), '''        let at_rest = Self::StorageLayout { extra_marker: Self::CODE_AT_REST_MARKER, ..storage };
        Self::serialize(at_rest)
    }
'''),
]
R["sys2"] = [
 (S, "        Address::from_low_u64_be(BOOTLOADER_FORMAL_ADDRESS_LOW as u64);", "        formal_address(BOOTLOADER_FORMAL_ADDRESS_LOW);"),
 (S, "        Address::from_low_u64_be(SHA256_ROUND_FUNCTION_PRECOMPILE_ADDRESS as u64);", "        formal_address(SHA256_ROUND_FUNCTION_PRECOMPILE_ADDRESS);"),
 (S, "        Address::from_low_u64_be(SYSTEM_CONTRACTS_OFFSET_ADDRESS as u64 + 0x03);", "        Address::from_slice(&[&[0u8; 18][..], &ADDRESS_NONCE_HOLDER.to_be_bytes()[..]].concat());"),
 (S, "        Address::from_low_u64_be(SYSTEM_CONTRACTS_OFFSET_ADDRESS as u64 + 0x04);", "        Address::from_low_u64_be(u64::from(ADDRESS_KNOWN_CODES_STORAGE));"),
 (S, "        Address::from_low_u64_be(KECCAK256_ROUND_FUNCTION_PRECOMPILE_ADDRESS as u64);", "        {\n            let mut a = Address::zero();\n            a.as_bytes_mut()[18..].copy_from_slice(&KECCAK256_ROUND_FUNCTION_PRECOMPILE_ADDRESS.to_be_bytes());\n            a\n        };"),
 (S, None, '''
fn formal_address(low: u16) -> Address {
    let mut bytes = [0u8; 20];
    let [hi, lo] = low.to_be_bytes();
    bytes[18] = hi;
    bytes[19] = lo;
    Address::from(bytes)
}
'''),
 (S, "pub const L1_MESSAGE_PUBDATA_BYTES: u32 = 1 + 1 + 2 + 20 + 32 + 32;", "pub const L1_MESSAGE_PUBDATA_BYTES: u32 = {\n    let parts = [1, 1, 2, 20, 32, 32];\n    let mut sum = 0;\n    let mut i = 0;\n    while i < parts.len() {\n        sum += parts[i];\n        i += 1;\n    }\n    sum\n};"),
]
R["imm2"] = [
 (I, "            ImmMemHandlerFlags::UseRegOnly | ImmMemHandlerFlags::UseImm16Only => false,\n            _ => true,", "            ImmMemHandlerFlags::UseStackWithPushPop\n            | ImmMemHandlerFlags::UseStackWithOffset\n            | ImmMemHandlerFlags::UseAbsoluteOnStack\n            | ImmMemHandlerFlags::UseCodePage => true,\n            ImmMemHandlerFlags::UseRegOnly | ImmMemHandlerFlags::UseImm16Only => false,"),
 (I, "    pub fn num_dst_variants() -> usize {\n        Self::NUM_VARIANTS - 2", "    pub fn num_dst_variants() -> usize {\n        Self::all_variants().iter().filter(|v| v.is_allowed_for_dst()).count()"),
 (I, "    pub fn num_src_variants() -> usize {\n        Self::NUM_VARIANTS\n", "    pub fn num_src_variants() -> usize {\n        Self::all_variants().len()\n"),
 (I, "        match self {\n            ImmMemHandlerFlags::UseImm16Only | ImmMemHandlerFlags::UseCodePage => false,\n            _ => true,\n        }", "        (*self as u8) < ImmMemHandlerFlags::UseImm16Only as u8"),
 (I, "        match self {\n            RegOrImmFlags::UseImm16Only => false,\n            _ => true,\n        }", "        !matches!(*self, RegOrImmFlags::UseImm16Only)"),
]
# construction of the lists
R["mod1"] = [
 (M, ("    let opcodes = vec![\n        Box::new(InvalidOpcode)", "pub fn all_opcode_prototypes"), '''    let opcodes: Vec<Box<dyn OpcodeProps>> = all_opcode_prototypes().into_iter().map(boxed).collect();

    assert_eq!(opcodes.len(), NUM_OPCODES, "number of opcodes mismatch");
    opcodes
}

fn boxed(opcode: Opcode) -> Box<dyn OpcodeProps> {
    match opcode {
        Opcode::Invalid(x) => Box::new(x),
        Opcode::Nop(x) => Box::new(x),
        Opcode::Add(x) => Box::new(x),
        Opcode::Sub(x) => Box::new(x),
        Opcode::Mul(x) => Box::new(x),
        Opcode::Div(x) => Box::new(x),
        Opcode::Jump(x) => Box::new(x),
        Opcode::Context(x) => Box::new(x),
        Opcode::Shift(x) => Box::new(x),
        Opcode::Binop(x) => Box::new(x),
        Opcode::Ptr(x) => Box::new(x),
        Opcode::NearCall(x) => Box::new(x),
        Opcode::Log(x) => Box::new(x),
        Opcode::FarCall(x) => Box::new(x),
        Opcode::Ret(x) => Box::new(x),
        Opcode::UMA(x) => Box::new(x),
    }
}

'''),
 (M, "    let tmp: HashSet<OpcodeVariant> = HashSet::from_iter(new.iter().copied());\n", "    let mut tmp: HashSet<OpcodeVariant> = HashSet::with_capacity(new.len());\n    tmp.extend(new);\n"),
 (M, "        if tmp.contains(&el) == false {", "        if tmp.get(el).is_none() {"),
]
R["mod2"] = [
 (M, "    let tmp: HashSet<OpcodeVariant> = HashSet::from_iter(new.iter().copied());\n", "    let mut tmp = new.to_vec();\n    tmp.sort();\n"),
 (M, "        if tmp.contains(&el) == false {", "        if tmp.binary_search(el).is_err() {"),
 (M, "    let mut difference = vec![];\n", "    let mut difference = std::collections::VecDeque::new();\n"),
 (M, "            difference.push(*new);\n        }\n    }\n\n    difference\n", "            difference.push_back(*new);\n        }\n    }\n\n    difference.into()\n"),
]
R["mod3"] = [
 (M, "    for version in ALL_ISA_VERSIONS.iter() {\n        if version > &up_to_version {\n            break;\n        }\n\n        let all_opcodes_in_version", "    for version in ISAVersion::all_backward_compatible_versions(up_to_version).iter() {\n        let all_opcodes_in_version"),
 (M, "        result.extend(new_opcodes);\n", "        result.reserve(new_opcodes.len());\n        for v in new_opcodes.into_iter() {\n            result.push(v);\n        }\n"),
 (M, "    assert_eq!(result[0], INVALID_OPCODE_VARIANT);\n    assert!(result.len() <= 1 << table_bits);\n    result.resize(1 << table_bits, INVALID_OPCODE_VARIANT);\n\n    result\n", "    pad_with_invalid(result, 1 << table_bits)\n"),
 (M, None, '''
fn pad_with_invalid(mut table: Vec<OpcodeVariant>, size: usize) -> Vec<OpcodeVariant> {
    assert!(matches!(table.first(), Some(v) if *v == INVALID_OPCODE_VARIANT));
    let missing = size.checked_sub(table.len()).expect("instructions must fit");
    table.extend(std::iter::repeat(INVALID_OPCODE_VARIANT).take(missing));
    table
}
'''),
 (M, "    let mut checker = std::collections::HashSet::new();\n    for (i, opcode) in all_opcodes.iter().enumerate() {\n        let is_new = checker.insert(opcode.name());\n        if !is_new {\n            panic!(\n                \"Duplicate opcode with name: {} at index {}\",\n                opcode.name(),\n                i\n            );\n        }\n    }\n",
      "    for (i, opcode) in all_opcodes.iter().enumerate() {\n        if all_opcodes[..i].iter().any(|other| other.name() == opcode.name()) {\n            panic!(\"Duplicate opcode with name: {} at index {}\", opcode.name(), i);\n        }\n    }\n"),
]
R["mod4"] = [
 (M, "    let mut checker = std::collections::HashSet::new();\n    for (i, opcode) in all_opcodes.iter().enumerate() {\n        let is_new = checker.insert(opcode.name());\n        if !is_new {\n            panic!(\n                \"Duplicate opcode with name: {} at index {}\",\n                opcode.name(),\n                i\n            );\n        }\n    }\n",
      "    let mut names: Vec<&'static str> = all_opcodes.iter().map(|o| o.name()).collect();\n    names.sort_unstable();\n    assert!(names.windows(2).all(|w| w[0] != w[1]), \"Duplicate opcode\");\n"),
 (M, "                        1 => {\n                            // 2 options\n                            for b in [false, true] {\n                                let mut t = tmp;\n                                t.flags[0] = b;\n                                result.push(t);\n                            }\n                        }", "                        1 => result.extend([false, true].map(|b| OpcodeVariant { flags: [b, false], ..tmp })),"),
 (M, "    let all_opcodes = all_opcodes();\n    let max_num_variants = all_opcodes\n        .iter()\n        .map(|op| op.max_variant_idx(version) + 1) // it's 0 enumerated, so +1\n        .max()\n        .unwrap();\n\n    max_num_variants\n", "    all_opcodes().into_iter().fold(0, |m, op| std::cmp::max(m, 1 + op.max_variant_idx(version)))\n"),
]
# statics
R["once1"] = [
 (L, "    pub static ref OPCODES_PROPS_INTEGER_BITMASKS: [u64; 1 << OPCODES_TABLE_WIDTH] = {\n        synthesize_bit_decomposition_table(&*OPCODES_TABLE, DEFAULT_ISA_VERSION).try_into().unwrap()\n    };\n", ""),
 (L, None, '''
pub static OPCODES_PROPS_INTEGER_BITMASKS: std::sync::LazyLock<[u64; 1 << OPCODES_TABLE_WIDTH]> =
    std::sync::LazyLock::new(|| {
        let masks = synthesize_bit_decomposition_table(OPCODES_TABLE.as_slice(), DEFAULT_ISA_VERSION);
        <[u64; 1 << OPCODES_TABLE_WIDTH]>::try_from(masks.as_slice()).unwrap()
    });
'''),
 (M, "    let max_variant_bits_in_version = max_num_variants_for_version(version);\n    let max_num_flags_in_version = max_num_flags_for_version(version);\n", '''    static WIDTHS: [std::sync::OnceLock<(usize, usize)>; NUM_ISA_VERSIONS] = [const { std::sync::OnceLock::new() }; NUM_ISA_VERSIONS];
    let (max_variant_bits_in_version, max_num_flags_in_version) = *WIDTHS[version.as_index()]
        .get_or_init(|| (max_num_variants_for_version(version), max_num_flags_for_version(version)));
'''),
]
R["mask2"] = [
 (O, ("        // we only mask first 8 bytes of the opcode, and do not touch regs or imms\n", "    pub fn serialize_as_integer"), '''        *self = Self { imm_0: self.imm_0, imm_1: self.imm_1, ..Self::with_variant(*PANIC_OPCODE_VARIANT) };
    }

    pub fn mask_into_nop(&mut self) {
        let immediates = (self.imm_0, self.imm_1);
        let _ = std::mem::replace(self, Self::with_variant(*NOP_OPCODE_VARIANT));
        (self.imm_0, self.imm_1) = immediates;
    }

    fn with_variant(variant: OpcodeVariant) -> Self {
        Self { variant, ..Self::default() }
    }

'''),
]
R["cond3"] = [
 (D + "condition.rs", ("        match idx {", "    pub const fn variant_index"), '''        match idx as u8 & 7 {
            0 => Condition::Always,
            1 => Condition::Gt,
            2 => Condition::Lt,
            3 => Condition::Eq,
            4 => Condition::Ge,
            5 => Condition::Le,
            6 => Condition::Ne,
            _ => Condition::GtOrLt,
        }
    }

'''),
]
R["price1"] = [
 (D + "far_call.rs", ("    fn ergs_price(&self) -> u32 {", "impl OpcodeProps"), '''    fn ergs_price(&self) -> u32 {
        const PRICE: u32 = {
            let circuits = 2 * VM_CYCLE_COST_IN_ERGS + RAM_PERMUTATION_COST_IN_ERGS + STORAGE_SORTER_COST_IN_ERGS + CODE_DECOMMITMENT_SORTER_COST_IN_ERGS;
            match circuits.checked_add(STORAGE_READ_IO_PRICE + CALL_LIKE_ERGS_COST) {
                Some(p) => p,
                None => panic!("overflow"),
            }
        };
        PRICE
    }
}

'''),
 (D + "uma.rs", ("        match self {\n            UMAOpcode::AuxHeapWrite", "impl OpcodeProps"), '''        let is_write = matches!(self, UMAOpcode::HeapWrite | UMAOpcode::AuxHeapWrite);
        let (cycles, permutations) = if is_write { (2, 5) } else { (1, 3) };
        cycles * VM_CYCLE_COST_IN_ERGS + permutations * RAM_PERMUTATION_COST_IN_ERGS
    }
}

'''),
]
R["dec3"] = [
 (P, ("        let src_byte = (raw", "        let new = Dec"), '''        let nibble = |shift: u32| ((raw_value >> shift) & 0xf) as u8;
        let src0_reg_idx = nibble(SRC_REGS_SHIFT);
        let src1_reg_idx = nibble(SRC_REGS_SHIFT + 4);
        let dst0_reg_idx = nibble(DST_REGS_SHIFT);
        let dst1_reg_idx = nibble(DST_REGS_SHIFT + 4);
        let imm_0 = u16::from_u64_clipped(raw_value >> Self::IMM0_SHIFT);
        let imm_1 = u16::from_u64_clipped(raw_value.rotate_left(16));

'''),
 (P, ("        let mut encoding = 0u64;", "    fn encode_as_bytes"), '''        let variant_bits = match crate::OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.get(&opcode.variant) {
            Some(n) => n.into_usize(),
            None => panic!("Unknown variant {}", opcode.variant),
        };
        let mut encoding = 0u64;
        let mut place = |value: u64, at: u32, width: u32| {
            assert!(value >> width == 0);
            encoding |= value << at;
        };
        place(variant_bits as u64, 0, OPCODES_TABLE_WIDTH as u32);
        place(opcode.condition.variant_index() as u64, CONDITIONAL_BITS_SHIFT as u32, CONDITIONAL_BITS_WIDTH as u32);
        for (i, r) in [opcode.src0_reg_idx, opcode.src1_reg_idx, opcode.dst0_reg_idx, opcode.dst1_reg_idx].into_iter().enumerate() {
            debug_assert!(r < 16);
            place(r as u64, SRC_REGS_SHIFT + 4 * i as u32, 4);
        }
        place(opcode.imm_0 as u64, Self::IMM0_SHIFT as u32, 16);
        place(opcode.imm_1 as u64, Self::IMM1_SHIFT as u32, 16);
        encoding
    }

'''),
 (T, ("        match index {\n", "    fn is_canonical"), '''        let mut be = [0u8; 32];
        value.to_big_endian(&mut be);
        let at = index as usize * 16;
        u128::from_be_bytes(be[at..at + 16].try_into().unwrap())
    }

'''),
 (P, ("        match index {\n", "    fn is_canonical"), '''        if index > 3 {
            unreachable!()
        }
        (value >> (64 * (3 - index as usize))).low_u64()
    }

'''),
]
R["nb1"] = [
 (U, "    (value & ((1u8 << 4) - 1), value >> 4)", "    let high = value / 0x10;\n    (value - high * 0x10, high)"),
 (U, "    low | (high << 4)", "    high.rotate_left(4) ^ low"),
]
R["merge_disp"] = [
 (D + "all.rs", ("    pub fn requires_kernel_mode(&self)", "    pub fn can_have_src0"), '''    fn props(&self) -> &dyn OpcodeProps {
        match self {
            Opcode::Invalid(sub) => sub,
            Opcode::Nop(sub) => sub,
            Opcode::Add(sub) => sub,
            Opcode::Sub(sub) => sub,
            Opcode::Mul(sub) => sub,
            Opcode::Div(sub) => sub,
            Opcode::Jump(sub) => sub,
            Opcode::Context(sub) => sub,
            Opcode::Shift(sub) => sub,
            Opcode::Binop(sub) => sub,
            Opcode::Ptr(sub) => sub,
            Opcode::NearCall(sub) => sub,
            Opcode::Log(sub) => sub,
            Opcode::FarCall(sub) => sub,
            Opcode::Ret(sub) => sub,
            Opcode::UMA(sub) => sub,
        }
    }

    pub fn requires_kernel_mode(&self) -> bool {
        self.props().requires_kernel_mode()
    }

    pub fn can_be_used_in_static_context(&self) -> bool {
        self.props().can_be_used_in_static_context()
    }

'''),
 (D + "all.rs", ("    pub fn input_operands(&self", None), '''    pub fn input_operands(&self, version: ISAVersion) -> Vec<Operand> {
        self.props().input_operands(version)
    }

    pub fn output_operands(&self, version: ISAVersion) -> Vec<Operand> {
        self.props().output_operands(version)
    }
}
'''),
 (D + "all.rs", ("    pub fn materialize_subvariant_from_prototype", "    pub const fn variant_idx"), '''    pub fn materialize_subvariant_from_prototype(&self, idx: usize, version: &ISAVersion) -> Self {
        fn at<T: OpcodeVariantProps>(wrap: fn(T) -> Opcode, idx: usize, version: &ISAVersion) -> Option<Opcode> {
            T::from_variant_index_for_version(idx, version).map(wrap)
        }
        match self {
            Opcode::Invalid(_) => at(Opcode::Invalid, idx, version),
            Opcode::Nop(_) => at(Opcode::Nop, idx, version),
            Opcode::Add(_) => at(Opcode::Add, idx, version),
            Opcode::Sub(_) => at(Opcode::Sub, idx, version),
            Opcode::Mul(_) => at(Opcode::Mul, idx, version),
            Opcode::Div(_) => at(Opcode::Div, idx, version),
            Opcode::Jump(_) => at(Opcode::Jump, idx, version),
            Opcode::Context(_) => at(Opcode::Context, idx, version),
            Opcode::Shift(_) => at(Opcode::Shift, idx, version),
            Opcode::Binop(_) => at(Opcode::Binop, idx, version),
            Opcode::Ptr(_) => at(Opcode::Ptr, idx, version),
            Opcode::NearCall(_) => at(Opcode::NearCall, idx, version),
            Opcode::Log(_) => at(Opcode::Log, idx, version),
            Opcode::FarCall(_) => at(Opcode::FarCall, idx, version),
            Opcode::Ret(_) => at(Opcode::Ret, idx, version),
            Opcode::UMA(_) => at(Opcode::UMA, idx, version),
        }
        .expect("must materialize")
    }

'''),
]
