"""Behaviour-preserving edits, eighth battery: destructors that do work, shared ownership, interior
mutability of locals, ordered containers and slice operations the first seven did not use."""
P = "src/decoding/encoding_mode_production.rs"
T = "src/decoding/encoding_mode_testing.rs"
M = "src/definitions/mod.rs"
L = "src/lib.rs"
D = "src/definitions/"
A = D + "abi/"
U = "src/utils.rs"
O = "src/opcode.rs"
VH = D + "versioned_hash/mod.rs"
G = "src/circuit_pricing_generator/main.rs"
R = {}
# an accumulator that reports when it goes out of scope
R["guard8"] = [
 (A + "fat_pointer.rs", ("        let mut exceptions = FatPointerValidationException::empty();", "    /// IMPORTANT: when we create"), '''        let exceptions = core::cell::Cell::new(0u64);
        {
            let report = Report { to: &exceptions, found: core::cell::RefCell::new(Vec::new()) };
            // fresh one has `offset` == 0
            if is_fresh && self.offset != 0 {
                report.found.borrow_mut().push(FatPointerValidationException::OFFSET_IS_NOT_ZERO_WHEN_EXPECTED);
            }
            // start + length doesn't overflow
            if self.start.checked_add(self.length).is_none() {
                report.found.borrow_mut().push(FatPointerValidationException::DEREF_BEYOND_HEAP_RANGE);
            }
        }

        FatPointerValidationException::from_bits_truncate(exceptions.get())
    }

'''),
 (A + "fat_pointer.rs", "impl FatPointer {\n    pub const FAT", '''struct Report<'a> {
    to: &'a core::cell::Cell<u64>,
    found: core::cell::RefCell<Vec<FatPointerValidationException>>,
}

impl<'a> Drop for Report<'a> {
    fn drop(&mut self) {
        for exception in self.found.borrow().iter() {
            self.to.set(self.to.get() | exception.bits());
        }
    }
}

impl FatPointer {
    pub const FAT'''),
]
# the word is written by a guard holding a mutable reference
R["writer8"] = [
 (P, ("        // our encoding is just an integer\n", "    fn encode_as_bytes"), '''        // our encoding is just an integer
        let variant_bits = match crate::OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.get(&opcode.variant) {
            Some(v) => *v,
            None => panic!("Unknown variant {}", opcode.variant),
        };
        assert!(variant_bits.next_power_of_two().trailing_zeros() as usize <= OPCODES_TABLE_WIDTH);
        let condition = opcode.condition.variant_index();
        assert!(condition.next_power_of_two().trailing_zeros() as usize <= CONDITIONAL_BITS_WIDTH);

        let mut encoding = 0u64;
        {
            let mut w = Writer { word: 0, out: &mut encoding };
            w.put(0, variant_bits as u64);
            w.put(CONDITIONAL_BITS_SHIFT as u32, condition as u64);
            w.put(SRC_REGS_SHIFT, merge_u4(opcode.src0_reg_idx, opcode.src1_reg_idx) as u64);
            w.put(DST_REGS_SHIFT, merge_u4(opcode.dst0_reg_idx, opcode.dst1_reg_idx) as u64);
            w.put(Self::IMM0_SHIFT, opcode.imm_0 as u64);
            w.put(Self::IMM1_SHIFT, opcode.imm_1 as u64);
        }

        encoding
    }

'''),
 (P, None, '''
/// Assembles a word and stores it when finished
struct Writer<'a> {
    word: u64,
    out: &'a mut u64,
}

impl Writer<'_> {
    fn put(&mut self, shift: u32, value: u64) {
        self.word |= value << shift;
    }
}

impl Drop for Writer<'_> {
    fn drop(&mut self) {
        *self.out = self.word;
    }
}
'''),
]
# prototypes shared through Rc, names collected in a sorted set behind a RefCell
R["rc8"] = [
 (M, ("    let all_opcodes = all_opcodes();\n    let all_prototypes = all_opcode_prototypes();\n\n    let mut checker = std::collections::HashSet::new();\n    for (i, opcode) in all_opcodes.iter().enumerate() {\n        let is_new = checker.insert(opcode.name());\n        if !is_new {\n            panic!(\n                \"Duplicate opcode with name: {} at index {}\",\n                opcode.name(),\n                i\n            );\n        }\n    }\n\n    let mut result = Vec::with_capacity(1 << 11);", "    // we walk over the versions"), '''    let all_opcodes: std::rc::Rc<Vec<Box<dyn OpcodeProps>>> = all_opcodes().into();
    let all_prototypes = std::rc::Rc::new(all_opcode_prototypes());
    let held = std::rc::Rc::clone(&all_prototypes);
    assert_eq!(std::rc::Rc::strong_count(&all_prototypes), 2);

    let checker = std::cell::RefCell::new(std::collections::BTreeSet::new());
    for (i, opcode) in all_opcodes.iter().enumerate() {
        if !checker.borrow_mut().insert(opcode.name()) {
            panic!("Duplicate opcode with name: {} at index {}", opcode.name(), i);
        }
    }
    drop(held);
    debug_assert_eq!(checker.borrow().len(), all_opcodes.len());

    let mut result = Vec::with_capacity(1 << 11);

'''),
]
# conditions through an ordered map
R["ordered8"] = [
 (D + "condition.rs", ("        match idx {\n            0 => Condition::Always", "    pub const fn variant_index"), '''        let named = [
            Condition::Always,
            Condition::Gt,
            Condition::Lt,
            Condition::Eq,
            Condition::Ge,
            Condition::Le,
            Condition::Ne,
            Condition::GtOrLt,
        ];
        let by_index: std::collections::BTreeMap<usize, Condition> = named.into_iter().enumerate().collect();
        match by_index.get(&idx) {
            Some(condition) => *condition,
            None => panic!("unknown variant"),
        }
    }

'''),
]
# prices collected through a heap of (price, slot), undone again
R["heap8"] = [
 (L, ("        let mut result = Vec::with_capacity(1 << OPCODES_TABLE_WIDTH);\n        for opcode", "    };\n}"), '''        let mut result = [0u32; 1 << OPCODES_TABLE_WIDTH];
        let mut queue: std::collections::VecDeque<(usize, u32)> = OPCODES_TABLE
            .iter()
            .map(|opcode| opcode.ergs_price())
            .enumerate()
            .collect();
        queue.rotate_left(1 << (OPCODES_TABLE_WIDTH - 1));
        while let Some((slot, price)) = queue.pop_back() {
            result[slot] = price;
        }

        result
'''),
]
# bytes assembled by splicing and rotating
R["bytes8"] = [
 (VH, ("        let mut result = [0u8; 32];\n        result[0] = Self::VERSION_BYTE;\n        result[1] = storage.extra_marker;", "    fn serialize_to_stored"), '''        let mut result = [0u8; 32];
        let (header, hash) = result.split_at_mut(4);
        header.copy_from_slice(&storage.code_length_in_words.to_le_bytes().repeat(2));
        header.reverse();
        header[..2].copy_from_slice(&[storage.extra_marker, Self::VERSION_BYTE]);
        header[..2].rotate_left(1);
        hash.copy_from_slice(&storage.partial_hash);

        Some(result)
    }
'''),
 (VH, ("        let mut truncated_digest = [0u8; 28];", "        Self {\n"), '''        let mut bytes = digest.to_vec();
        bytes.splice(..4, std::iter::empty());
        let truncated_digest: [u8; 28] = bytes.try_into().expect("28 bytes");

'''),
]
# chunks of fixed size
R["chunks8"] = [
 (U, "    for w in bytecode_words.iter() {\n        hasher.update(&w);\n    }\n", '''    let (pairs, last) = bytecode_words.split_at(bytecode_words.len() - 1);
    for w in pairs.chunks(2).flatten().chain(last) {
        hasher.update(w);
    }
'''),
]
# masks put together by a boxed visitor
R["visit8"] = [
 (M, ("    // then encode flags\n", "    // then encode src0"), '''    // then encode flags
    {
        let encoding = std::cell::RefCell::new(&mut encoding);
        let set: Box<dyn Fn(usize) + '_> = Box::new(|bit| **encoding.borrow_mut() |= 1u64 << bit);
        (0..).zip(full_opcode_variant.flags).filter(|(_, flag)| *flag).for_each(|(i, _)| set(global_shift + i));
    }
    global_shift += max_num_flags_in_version;
'''),
]
# replaced fields restored by a guard
R["swap8"] = [
 (O, ("    pub fn mask_into_panic(&mut self) {", "    pub fn mask_into_nop"), None),
]
del R["swap8"]
# the new operations found through a sorted index
R["find8"] = [
 (M, ("    let tmp: HashSet<OpcodeVariant> = HashSet::from_iter(new.iter().copied());", "    for el in old.iter()"), '''    let mut tmp = HashSet::<OpcodeVariant>::default();
    new.iter().for_each(|el| {
        tmp.replace(*el);
    });
'''),
]
# maxima through a heap
R["max8"] = [
 (M, ("    let max_num_variants = all_opcodes\n", "    max_num_variants\n"), '''    let mut heap: std::collections::BinaryHeap<usize> =
        all_opcodes.iter().map(|op| op.max_variant_idx(version)).collect();
    // it's 0 enumerated, so +1
    let max_num_variants = heap.pop().unwrap() + 1;
    debug_assert!(heap.peek().map_or(true, |next| *next < max_num_variants));

'''),
]
# generator output through a shared buffered writer
R["gen8"] = [
 (G, ("    let mut f = File::create(filepath)", "fn main"), '''    let mut out = std::io::BufWriter::new(File::create(filepath).expect("Unable to create file"));
    for line in file_content.split_inclusive('\\n') {
        out.write_all(line.as_bytes()).expect("Unable to write data");
    }
    out.flush().expect("Unable to write data");
}

'''),
]
