import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None,**({"state":state} if state else {}))))
D="src/definitions/"
p("C01","Production decoding is total and reads each field from its fixed bits",
 "For every 64-bit instruction word, production-mode decoding succeeds without panicking and yields exactly: the opcode variant held by the opcode table at the number in bits 0-10 (and that same number as the reported absolute variant number), the condition whose number is in bits 13-15, source registers 0/1 from bits 16-19/20-23, destination registers 0/1 from bits 24-27/28-31 and immediates 0/1 from bits 32-47/48-63. Bits 11 and 12 influence no decoded field.",
 ["inputs"],"all 2^64 instruction words",
 "The existing tests look up one hard-coded word's variant and print it; no test calls the decoder or looks at registers, immediates or conditions.",
 ["src/decoding/encoding_mode_production.rs","src/utils.rs",D+"condition.rs","src/lib.rs"],
 [("mask/shift extraction","src/decoding/encoding_mode_production.rs: parse_preliminary_variant_and_absolute_number, variant_and_condition_from_u64_word"),("nibble split","src/utils.rs: split_as_u4"),("condition numbering",D+"condition.rs: materialize_variant")],
 ["VmEncodingMode::parse_preliminary_variant_and_absolute_number"])
p("C02","Testing-mode decoding is total and reads each field from its fixed bits",
 "For every 128-bit instruction word, testing-mode decoding succeeds without panicking and yields exactly: the opcode variant held by the opcode table at the number in bits 0-10 (and that number as the reported absolute variant number), the condition whose number is in bits 13-15, source registers 0/1 from bits 16-19/20-23, destination registers 0/1 from bits 24-27/28-31 and 32-bit immediates 0/1 from bits 32-63/64-95. No other bit influences any decoded field.",
 ["inputs"],"all 2^128 instruction words",
 "No existing test touches the testing encoding mode at all.",
 ["src/decoding/encoding_mode_testing.rs","src/utils.rs",D+"condition.rs"],
 [("mask/shift extraction","src/decoding/encoding_mode_testing.rs: parse_preliminary_variant_and_absolute_number")],
 ["VmEncodingMode::parse_preliminary_variant_and_absolute_number"])
p("C03","Production encoding and decoding are mutually inverse",
 "Every instruction whose variant occurs in the opcode table and whose register indexes are below 16 encodes, without panicking, to a 64-bit word that is canonical and that decodes back to exactly the same variant, condition, registers and immediates. Conversely every canonical word whose variant number denotes a valid instruction re-encodes to itself, and the 8-byte serialization is the big-endian form of the integer one.",
 ["inputs"],"all table variants x 8 conditions x 16^4 register tuples x 2^32 immediate pairs; all 2^64 words",
 "No existing test encodes a full instruction; the state space is far beyond sampling.",
 ["src/decoding/encoding_mode_production.rs","src/decoding/mod.rs","src/opcode.rs","src/utils.rs","src/lib.rs"],
 [("encoder","src/decoding/encoding_mode_production.rs: encode_as_integer, encode_as_bytes"),("inverse lookup","src/lib.rs: OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP"),("nibble merge","src/utils.rs: merge_u4")],
 ["DecodedOpcode::serialize_as_integer","DecodedOpcode::serialize_as_bytes"])
p("C04","Testing-mode encoding and decoding are mutually inverse",
 "Every instruction whose variant occurs in the opcode table and whose register indexes are below 16 encodes in testing mode, without panicking, to a canonical 128-bit word (bits 96-127 zero) that decodes back to exactly the same variant, condition, registers and immediates. Conversely every canonical word with bits 96-127 zero whose variant number denotes a valid instruction re-encodes to itself, and the 16-byte serialization is the big-endian form of the integer one.",
 ["inputs"],"all table variants x 8 conditions x 16^4 register tuples x 2^64 immediate pairs; all words",
 "No existing test touches the testing encoding mode.",
 ["src/decoding/encoding_mode_testing.rs","src/decoding/mod.rs","src/opcode.rs","src/utils.rs"],
 [("encoder","src/decoding/encoding_mode_testing.rs: encode_as_integer, encode_as_bytes")],
 ["DecodedOpcode::serialize_as_integer","DecodedOpcode::serialize_as_bytes"])
p("C05","Canonicality holds exactly when the unused gap bits are zero",
 "In both encoding modes a word is reported canonical if and only if its two unused bits (11 and 12, between variant number and condition) are zero; no other bit of the word influences the answer.",
 ["inputs"],"all 2^64 production and 2^128 testing words",
 "No test calls the canonicality predicate.",
 ["src/decoding/encoding_mode_production.rs","src/decoding/encoding_mode_testing.rs"],
 [("unused-bit mask","is_canonical_encoding / UNUSED_BITS_MASK in both encoding modes")],
 ["VmEncodingMode::is_canonical_encoding"])
p("C06","Program counter and code-word slicing follow big-endian instruction order",
 "In each mode a program counter splits into (word index, slot in word) as quotient and remainder by the number of instructions per 32-byte word (4 in production, 2 in testing), for every counter value. Fetching slot i of a 32-byte word returns the i-th instruction counted from the most significant end, so instructions serialized to bytes and concatenated into a word are fetched back unchanged and in order.",
 ["inputs"],"all counters (2^16 / 2^32), all 2^256 words, all slots",
 "No test exercises code-word slicing or program-counter splitting.",
 ["src/decoding/encoding_mode_production.rs","src/decoding/encoding_mode_testing.rs","src/decoding/mod.rs"],
 [("split_pc / integer_representaiton_from_u256","src/decoding/encoding_mode_*.rs"),("encode_as_bytes","src/decoding/mod.rs")],
 ["VmEncodingMode::split_pc","VmEncodingMode::integer_representaiton_from_u256"])
p("C07","Immediate/PC arithmetic is exact modular arithmetic of the mode's width",
 "For both immediate widths (16 and 32 bits): conversion from a 64-bit value keeps exactly the low bits, conversion to 64 bits zero-extends, the wrapping addition and subtraction are the exact results modulo 2^width and never panic, and the reported maximum is 2^width-1.",
 ["inputs"],"all operand values and pairs",
 "No test calls these operations.",
 ["src/decoding/mod.rs"],[("AllowedPcOrImm impls","src/decoding/mod.rs")],["AllowedPcOrImm"])
p("C08","Nop and exception-panic encodings and masking yield the canonical instruction",
 "In both modes the published nop and exception encodings decode to the nop variant and to ret.panic, each with condition Always, all registers zero, immediates zero, and equal to the published constant variants and their published bitmasks. Masking any decoded instruction into nop (or panic) yields exactly that published variant with condition Always, all registers zero and the immediates unchanged, so the result is always encodable; the default decoded instruction is that same nop with zero registers and immediates, and an instruction type named without a mode is production's.",
 ["inputs"],"every decoded instruction (all fields arbitrary), both modes",
 "No test masks an instruction or decodes the nop/exception encodings.",
 ["src/opcode.rs","src/lib.rs","src/decoding/encoding_mode_production.rs","src/decoding/encoding_mode_testing.rs",D+"mod.rs"],
 [("mask_into_panic/mask_into_nop/Default","src/opcode.rs"),("NOP_/PANIC_ constants","src/lib.rs"),("Default for OpcodeVariant",D+"mod.rs")],
 ["DecodedOpcode::mask_into_panic","DecodedOpcode::mask_into_nop","VmEncodingMode::nop_encoding","VmEncodingMode::exception_revert_encoding"])
p("C09","The opcode table is exactly the deployed instruction numbering",
 "The default decoding table has 2048 slots numbered as deployed bytecode expects: families in the order invalid, nop, add, sub, mul, div, jump, binop, shift, ptr, near call, context, log, far call, ret, memory access; within a family sub-variants in numeric order, then source addressing modes, then destination addressing modes (register, push/pop stack, relative stack, absolute stack, immediate, code page; destinations stop at absolute stack), then flag combinations with flag 0 as the more significant and false before true. The immediate-offset forms of the four heap accesses added by ISA version 1 follow after all version-0 instructions, and every remaining slot is the invalid instruction.",
 ["inputs","configurations"],"all 2048 slots",
 "The tests only compare two generators that share the same inputs, for the version-0 prefix; a consistent reordering, a changed flag count or a changed operand list moves every later number and passes.",
 [D+"mod.rs",D+"all.rs",D+"opcode_trait.rs","src/lib.rs","src/imm_mem_modifiers.rs"],
 [("table synthesis",D+"mod.rs: synthesize_opcode_decoding_tables, all_variants_in_version, find_new_opcodes"),("family lists",D+"mod.rs: all_opcodes, all_opcode_prototypes")],
 ["OPCODES_TABLE"])
p("C10","Newer ISA versions only add instructions: old numbers keep their meaning",
 "For every slot, if the version-0 table holds a valid instruction there, the version-1 table holds an instruction with the same opcode, flags, destination mode and the same (register) source mode there; slots that version 1 adds are invalid in version 0, and no valid instruction appears twice in either table. Table synthesis succeeds for every supported version and the legacy generator agrees with the current one on version 0.",
 ["configurations","inputs"],"all ISA versions x all slots",
 "The one test that compares versions uses the crate's own notion of semantic equality, so a weakened comparison hides a renumbering.",
 [D+"mod.rs",D+"uma.rs",D+"opcode_trait.rs"],
 [("semantically_equal / find_new_opcodes",D+"mod.rs")],
 ["synthesize_opcode_decoding_tables","synthesize_opcode_decoding_tables_legacy"])
p("C11","Reverse lookup maps are the exact inverse of the opcode table",
 "For every valid instruction in the table, both reverse maps (canonical index and monotonic number) return exactly its slot; for the invalid instruction they return slot 0; and for any variant that does not occur in the table they return nothing.",
 ["inputs"],"all 2048 slots and every representable variant (opcode x source mode x destination mode x flags)",
 "Tests look up two variants and print the result.",
 ["src/lib.rs",D+"mod.rs"],
 [("map construction","src/lib.rs: OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP, OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP")],
 ["OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP","OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP"])
p("C12","Property bitmasks are the one-hot description of the instruction",
 "For every table slot the integer bitmask has exactly: one bit for the opcode family (bits 0-15), one for the sub-variant (next 10 bits), one bit per set flag (next 2), one for the source mode (next 6), one for the destination mode (next 4), zero padding up to the 16-bit-rounded description width, then the kernel-only, allowed-in-static-context and explicit-panic bits, and nothing above. Distinct valid slots have distinct bitmasks, and the nop/panic published bitmasks are those of their variants.",
 ["inputs","configurations"],"all 2048 slots, both ISA versions",
 "Tests print a few masks and assert nothing about them.",
 [D+"mod.rs","src/lib.rs",D+"opcode_trait.rs",D+"all.rs"],
 [("opcode_as_integer_bitmask",D+"mod.rs"),("layout constants","src/lib.rs")],
 ["OPCODES_PROPS_INTEGER_BITMASKS","synthesize_bit_decomposition_table"])
p("C13","Published description widths agree with what the opcodes declare",
 "For each supported ISA version the reported number of sub-variant bits is one more than the largest sub-variant number any opcode has, the number of flag bits is the largest flag count any instruction uses, the description width is the sum of the five group widths, the rounded width is the least multiple of 16 not below it, and the full width adds the three auxiliary bits and fits in 64. The auxiliary flag indexes number those bits in order.",
 ["configurations"],"all supported ISA versions",
 "Tests only print the widths.",
 ["src/lib.rs",D+"mod.rs",D+"ptr.rs"],
 [("width functions","src/lib.rs: total_description_bits_for_version, total_description_bits_rounded_for_version, total_opcode_description_and_aux_bits_for_version"),("max_num_variants_for_version / max_num_flags_for_version",D+"mod.rs")],
 ["total_opcode_description_and_aux_bits_for_version"])
p("C14","Kernel-only and static-context restrictions are exactly the protocol's sets",
 "An instruction requires kernel mode if and only if it sets the 128-bit context value, sets ergs per pubdata byte, increments the transaction counter, makes a mimic far call, emits an event, sends an L1 message or calls a precompile. It is forbidden in a static context if and only if it is one of the first three, a storage write, an event or an L1 message; the answers depend on nothing else and are the same whether asked of the instruction variant, the opcode, the concrete operation or the slot's bitmask.",
 ["inputs"],"every opcode and sub-variant, every addressing mode and flag combination, every query path",
 "No test queries either predicate.",
 [D+"context.rs",D+"log.rs",D+"far_call.rs",D+"all.rs",D+"mod.rs"],
 [("requires_kernel_mode / can_be_used_in_static_context",D+"*.rs and the dispatch in "+D+"all.rs")],
 ["OpcodeVariant::requires_kernel_mode","OpcodeVariant::can_be_used_in_static_context","OPCODES_PROPS_INTEGER_BITMASKS"])
p("C15","Every instruction's ergs price is the documented sum of its circuit costs",
 "For every table slot the price table gives the price of that slot's instruction, which is the documented combination of circuit costs: VM cycle plus two RAM permutations for richly addressed opcodes; cycle plus one RAM permutation for context and ret, plus the call surcharge for near calls; the far call, storage, event, L1-message, precompile and memory-access formulas including doubled terms for rollback, the reentrancy/DDoS minimum for storage writes and the DDoS minimum for L1 messages, with the documented surcharges (storage read I/O 150, storage write I/O 250, event I/O 25, L1 message I/O 100, call 20). An invalid instruction costs the maximum 32-bit value, no other does, no price computation overflows, and no price is zero.",
 ["inputs","configurations"],"all 2048 slots and every opcode sub-variant",
 "No test reads a price.",
 ["src/lib.rs",D+"log.rs",D+"far_call.rs",D+"uma.rs",D+"near_call.rs","src/circuit_prices.rs","src/system_params.rs"],
 [("ergs_price",D+"*.rs"),("OPCODES_PRICES","src/lib.rs")],
 ["OPCODES_PRICES","OpcodeVariant::ergs_price"])
p("C16","Committed circuit prices are exactly what the price generator writes",
 "The price generator, run on the current capacities and limits, writes the price file with exactly the set of named constants and values that the crate is compiled with. With the circuits' deployed capacities (VM 23000 cycles, RAM 260000, decommitment 2 x 12100 words, storage application 118, both decommitment sorters 192500, demuxer 101500, storage sorter 79000, event sorter 88000, initial/repeated write hashers 4600/7400, keccak 2050, SHA-256 11500, ecrecover 72, 512 L1 messages), each per-unit price is the least integer whose product with the circuit's declared capacity covers the ergs budget of a circuit, the single-instance minimum prices are the least that keep a maximal transaction within the circuit limit (zero where the pubdata limit already does), and the storage-write minimum is the larger of the two hasher minimums.",
 ["configurations"],"all generated constants",
 "The generator is a separate binary that no test runs, and nothing compares the checked-in file with it.",
 ["src/circuit_pricing_generator/main.rs","src/circuit_prices.rs","src/system_params.rs"],
 [("generator formulas","src/circuit_pricing_generator/main.rs: main, ceil_div"),("generated constants","src/circuit_prices.rs")],
 ["circuit_prices"])
p("C17","Fee parameters keep the reentrancy and denial-of-service protections",
 "A storage write always costs more than the 2300 ergs transfer stipend and more than what the value-transfer simulator can pass on unspent (its additive cost minus its minimum use), L1 messages and calls are priced so that a transaction at the ergs limit cannot exceed the single-instance circuit limit or the call-stack depth, and the invalid instruction consumes any frame's whole budget. The derived minimum constants equal the maxima they are documented to be, without integer wrap-around.",
 ["configurations"],"the fee parameters as compiled, and all instructions that write storage, send messages or open frames",
 "No test looks at fee parameters.",
 ["src/system_params.rs","src/lib.rs",D+"log.rs",D+"near_call.rs",D+"far_call.rs"],
 [("MIN_STORAGE_WRITE_COST, VM_MAX_STACK_DEPTH","src/system_params.rs")],
 ["OPCODES_PRICES","system_params"])
p("C18","Sub-variant numbers are a bijection and version queries are monotone",
 "For every opcode family and supported ISA version, converting a sub-variant to its number and back is the identity, every number above the reported maximum is rejected, the listed sub-variants are exactly numbers 0..=maximum in order, and both reported maxima agree. A sub-variant is available in a version if and only if it was introduced in that version or an earlier one, and the sub-variant lists per version follow those predicates. Materialising sub-variant n from a family's prototype yields exactly that sub-variant and panics for numbers above the maximum. The supported versions are 0 and 1, and the versions compatible with one are it and the earlier ones in ascending order.",
 ["inputs","configurations"],"all 16 families x all numbers (every machine integer) x all versions",
 "No test converts a number back except through the table, and none asks for availability.",
 [D+"opcode_trait.rs",D+"all.rs",D+"ptr.rs",D+"context.rs",D+"log.rs",D+"uma.rs",D+"binop.rs",D+"shift.rs",D+"ret.rs",D+"far_call.rs"],
 [("from_variant_index_for_version / variant_index / max_variant_idx*",D+"*.rs"),("is_available_for_version",D+"opcode_trait.rs")],
 ["OpcodeVariantProps","Opcode::materialize_subvariant_from_prototype"])
p("C19","Declared operands and flags agree with the table and the memory-access queries",
 "For every opcode sub-variant and ISA version, the source modes, destination modes and flag combinations that occur for it in that version's table are exactly the product that its declared first input operand, first output operand and declared flag count allow. The queries whether source 0 may come from memory and whether destination 0 may go to memory answer yes exactly when the declared operand is fully addressable, identically through every query path.",
 ["configurations","inputs"],"all opcode sub-variants x all ISA versions x all addressing modes and flags",
 "Tests compare total counts only.",
 [D+"mod.rs",D+"opcode_trait.rs",D+"all.rs",D+"uma.rs",D+"log.rs",D+"context.rs",D+"ret.rs"],
 [("input_operands/output_operands/variants_data",D+"*.rs"),("can_have_src0_from_mem / can_write_dst0_into_memory",D+"opcode_trait.rs")],
 ["OPCODES_TABLE","Opcode::can_have_src0_from_mem"])
p("C20","Addressing-mode numbers and predicates agree across both operand kinds",
 "Addressing modes are numbered 0-5 in the order register, push/pop stack, relative stack, absolute stack, immediate, code page, with the same numbers for the modes that restricted operands share; memory is used exactly by the three stack modes and the code page, and a mode is a legal destination exactly when it is neither immediate nor code page. The reported counts of all, source and destination modes are the sizes of those sets, for the full and the restricted operand kind.",
 ["inputs"],"all addressing modes of both operand kinds",
 "No test queries these predicates directly.",
 ["src/imm_mem_modifiers.rs",D+"opcode_trait.rs"],
 [("ImmMemHandlerFlags / RegOrImmFlags","src/imm_mem_modifiers.rs"),("Operand::variant_idx",D+"opcode_trait.rs")],
 ["ImmMemHandlerFlags","RegOrImmFlags","Operand"])
p("C21","Fat pointers pack and unpack losslessly in the fixed layout",
 "For every fat pointer, packing places offset in bits 0-31, memory page in bits 32-63, start in bits 64-95 and length in bits 96-127 of the 256-bit word with all higher bits zero, and unpacking the result gives the same pointer. For every 256-bit word, unpacking reads exactly those bits, ignores the upper 128 and never panics; the empty pointer is all zeros.",
 ["inputs"],"all 2^128 pointers and all 2^256 words",
 "No test touches the ABI types.",
 [D+"abi/fat_pointer.rs"],[("from_u256/to_u256/empty",D+"abi/fat_pointer.rs")],["FatPointer::from_u256","FatPointer::to_u256"])
p("C22","Fat pointer validation accepts exactly the well-formed pointers",
 "For every pointer: validation reports the non-zero-offset exception if and only if the pointer is declared fresh and its offset is non-zero, and the out-of-range exception if and only if start plus length exceeds the 32-bit range, and nothing else. The in-bounds check holds exactly when offset < length, the slice check exactly when offset <= length, and the triviality check exactly when offset and length are both zero; none of them panics.",
 ["inputs"],"all 2^128 pointers x fresh/non-fresh",
 "No test validates a pointer; boundary cases (offset = length, start+length = 2^32) are exactly what sampling misses.",
 [D+"abi/fat_pointer.rs"],[("validate / validate_in_bounds / validate_as_slice / is_trivial",D+"abi/fat_pointer.rs")],["FatPointer::validate"])
p("C23","Far-call ABI words are parsed totally and field-exactly",
 "For every 256-bit word the far-call parser succeeds and takes the memory pointer from bits 0-127 as a fat pointer, passed ergs from bits 192-223, forwarding mode from bits 224-231, shard id from bits 232-239, and the constructor and system flags as 'byte non-zero' of bits 240-247 and 248-255, which are also the published byte indexes 28-31. Forwarding byte 1 means forward-fat-pointer, 2 means aux heap, every other value means heap.",
 ["inputs"],"all 2^256 words, all 256 forwarding bytes",
 "No test touches the ABI types.",
 [D+"abi/far_call.rs",D+"abi/fat_pointer.rs"],[("FarCallABI::from_u256, FarCallForwardPageType::from_u8",D+"abi/far_call.rs")],["FarCallABI::from_u256"])
p("C24","Return and near-call ABI words are parsed totally and field-exactly",
 "For every 256-bit word the return parser succeeds and takes the memory pointer from bits 0-127 as a fat pointer and the forwarding mode from bits 224-231 with the same meaning as for far calls (1 forward-fat-pointer, 2 aux heap, anything else heap), ignoring all other bits. The near-call parser succeeds and takes passed ergs from bits 0-31 only.",
 ["inputs"],"all 2^256 words",
 "No test touches the ABI types.",
 [D+"abi/ret.rs",D+"abi/near_call.rs"],[("RetABI::from_u256, RetForwardPageType::from_u8",D+"abi/ret.rs"),("NearCallABI::from_u256",D+"abi/near_call.rs")],["RetABI::from_u256","NearCallABI::from_u256"])
p("C25","Precompile-call ABI words pack and unpack losslessly",
 "For every word, the precompile ABI takes input offset/length from bits 0-31/32-63, output offset/length from bits 64-95/96-127 and the precompile-specific data from bits 192-255; the inner form additionally takes the read and write memory pages from bits 128-159/160-191. Packing the inner form and unpacking it is the identity in both directions, and neither direction panics.",
 ["inputs"],"all 2^256 words and all inner ABI values",
 "No test touches the ABI types.",
 [D+"abi/precompile_call.rs"],[("PrecompileCallABI / PrecompileCallInnerABI",D+"abi/precompile_call.rs")],["PrecompileCallInnerABI::to_u256"])
p("C26","VM meta parameters are packed without overlap in the fixed layout",
 "For all values, packing the meta parameters places ergs per pubdata byte in bits 0-31, heap size in bits 64-95, auxiliary heap size in bits 96-127, and the own, caller and code shard ids in bits 224-231, 232-239 and 240-247 of the word, with every other bit zero; distinct parameters therefore give distinct words.",
 ["inputs"],"all 2^120 parameter tuples",
 "No test touches the ABI types.",
 [D+"abi/meta.rs"],[("VmMetaParameters::to_u256",D+"abi/meta.rs")],["VmMetaParameters::to_u256"])
p("C27","Versioned code hashes serialize, parse and normalise exactly",
 "For every 32-byte input, parsing succeeds if and only if byte 0 is the version byte 1, and then serializing reproduces the input byte for byte while the to-be-stored form differs only in having marker byte 1 zeroed. Building from a digest and a word count keeps digest bytes 4-31, stores the count big-endian in bytes 2-3, sets the version byte and a zero (code-at-rest) marker; no step panics.",
 ["inputs"],"all 2^256 inputs; all digests, markers and word counts",
 "No test touches versioned hashes.",
 [D+"versioned_hash/mod.rs"],[("serialize / serialize_to_stored / try_deserialize / from_digest_and_preimage_num_words",D+"versioned_hash/mod.rs")],["VersionedHashGeneric"])
p("C28","Bytecode hashing accepts exactly legal lengths and hashes every word in order",
 "For every bytecode, hashing in production mode returns an error if and only if the number of 32-byte words is even or exceeds 65535, and otherwise returns the versioned hash whose digest part comes from SHA-256 over all words, each exactly once and in order, and whose length field is the true word count. The form generic in the encoding mode gives the same answer for production, and the testing encoding hashes every bytecode of legal length to the same value. The function never panics.",
 ["inputs"],"all bytecodes of any length",
 "No test calls it; the build used for tests does not even compile it.",
 ["src/utils.rs",D+"versioned_hash/mod.rs"],[("bytecode_to_code_hash / bytecode_to_code_hash_for_mode","src/utils.rs")],["bytecode_to_code_hash"])
p("C29","System addresses are distinct, reserved and agree between their published forms",
 "The published system contract and precompile addresses are the protocol's numbers (precompiles 1-4, bootloader 0x8001, account code storage 0x8002, nonce holder 0x8003, known codes 0x8004, immutable simulator 0x8005, deployer 0x8006, force deployer 0x8007, L1 messenger 0x8008, msg value 0x8009, eth token 0x800A, system context 0x800B, bootloader utilities 0x800C, event writer 0x800D, keccak 0x8010), pairwise distinct and inside the restricted space below 2^16. Each full 20-byte formal address is the big-endian zero-extension of its numeric form and the alternative names of one contract agree.",
 ["configurations"],"all published addresses",
 "No test reads an address.",
 ["src/system_params.rs"],[("ADDRESS_* constants and lazily built formal addresses","src/system_params.rs")],["system_params"])
p("C30","Operand swapping and explicit-panic queries depend only on opcode and flag",
 "Operands are swapped if and only if the instruction is a sub, div or shift with flag 1 set, or a pointer operation with flag 0 set; in the table these and only these operations (plus flag 0 as set-flags for add, sub, mul, div, binop and shift, the static/shard flags of far calls, the first-message flag of events and L1 messages, the to-label flag of ret and the increment flag of memory accesses) ever carry those flags. An instruction is an explicit panic exactly when its opcode is the invalid opcode.",
 ["inputs"],"every representable instruction variant",
 "No test queries either predicate.",
 [D+"mod.rs",D+"far_call.rs",D+"uma.rs",D+"ret.rs",D+"log.rs"],[("swap_operands / is_explicit_panic",D+"mod.rs"),("*_FLAG_IDX constants",D+"*.rs")],["OpcodeVariant::swap_operands","OpcodeVariant::is_explicit_panic"])
p("C31","Conditions are numbered by a fixed bijection",
 "Conditions always, greater, less, equal, greater-or-equal, less-or-equal, not-equal and greater-or-less have numbers 0 to 7 in that order; number-to-condition and condition-to-number are mutually inverse, the published list of conditions is in that order, and every number above 7 is rejected rather than mapped to some condition.",
 ["inputs"],"all machine integers and all conditions",
 "No test converts conditions.",
 [D+"condition.rs"],[("materialize_variant / variant_index / ALL_CONDITIONS",D+"condition.rs")],["Condition"])
p("C32","Library results are deterministic and free of side effects",
 "No public library operation performs I/O, reads the environment, time or randomness, lets a hash container's unspecified iteration order reach a result (order-insensitive uses are fine), keeps mutable global state other than one-time initialised tables, or contains unsafe code; hence every result is a function of the arguments alone in every process.",
 ["configurations","schedules","programs"],"all functions of the library crate reachable by any caller",
 "A single test process cannot observe dependence on hash seeds, environment or scheduling.",
 ["src/lib.rs",D+"mod.rs"],[("pure functions and lazy_static tables","whole library crate")],["public API"])
p("C33","One-time tables initialise without cyclic waits or panics, in any access order",
 "Whatever published table or constant is accessed first, its initialisation terminates without panicking: the 'initialisation needs' relation between the lazily built tables is acyclic, so no access order or thread schedule can deadlock or poison them.",
 ["schedules","histories"],"every first-access order of the lazily initialised statics, from any number of threads",
 "Tests touch three of the tables in one or two orders and single-threaded initialisation never shows a cycle through an untouched one.",
 ["src/lib.rs","src/system_params.rs",D+"mod.rs"],[("lazy_static statics","src/lib.rs, src/system_params.rs")],["OPCODES_TABLE and the other statics"])
p("C34","Nibble packing helpers are mutually inverse",
 "Splitting a byte yields its low and high nibble in that order, both below 16; merging two nibbles below 16 yields low + 16*high without panicking; splitting a merge and merging a split are identities.",
 ["inputs"],"all 256 bytes and all 256 nibble pairs","No test calls the helpers.",
 ["src/utils.rs"],[("split_as_u4 / merge_u4","src/utils.rs")],["split_as_u4","merge_u4"])
p("C35","Opcode dispatch is uniform: every query path describes the same opcode",
 "The published list of dynamic opcode prototypes and the list of concrete prototypes have 16 entries each and describe the same opcode family at each position; for every opcode the family numbers 0-15 are pairwise distinct, names are unique, and every property asked through the opcode enumeration equals the one of the wrapped operation and of the dynamic prototype.",
 ["inputs","configurations"],"all opcodes and sub-variants x all properties x all ISA versions",
 "No test compares the two lists or the dispatchers except through the table counts.",
 [D+"all.rs",D+"mod.rs","src/lib.rs"],[("dispatch matches",D+"all.rs"),("all_opcodes / all_opcode_prototypes",D+"mod.rs")],["Opcode","OPCODE_PROTOTYPES"])
p("C36","VM layout constants are mutually consistent",
 "The instruction layout constants partition the 16 low bits and place registers and immediates without overlap; register-role constants of calls and returns name distinct registers that together cover the 15 registers; bootloader pages (calldata 7, code 8, stack 9, heap 10, auxiliary heap 11) are distinct, non-zero and below the first dynamic page 2048, and each far call takes 8 pages; dereferenceable offsets never make offset plus 32 exceed the 32-bit range; the log aux bytes are distinct; and the numeric protocol constants for opcode flags fit the two flag slots.",
 ["configurations"],"all published layout constants",
 "No test relates constants to each other.",
 ["src/lib.rs","src/system_params.rs",D+"far_call.rs",D+"ret.rs",D+"uma.rs",D+"ptr.rs"],[("constants","src/lib.rs, src/system_params.rs, "+D+"{far_call,ret,uma,ptr}.rs")],["constants"])
p("C37","Every operation declares the protocol's operand list in every version",
 "In every ISA version each operation declares its fixed number of inputs and outputs: invalid 0/0, nop 1/1, add, sub, binop, shift and ptr 2/1, mul and div 2/2, jump and near call 1/0, setting the context value or the pubdata price 1/0, incrementing the transaction counter 0/0, other context reads 0/1, storage read and precompile call 1/1, storage write, event and L1 message 2/0, far call 2/0, ret ok and revert 1/0, ret panic 0/0, heap writes 2/1, heap and fat-pointer reads 1/2. Only the first input and the first output have addressing modes, every further one is register-only, every operand is declared by its register mode, and a version change alters nothing but the first input of the four heap accesses.",
 ["inputs","configurations"],"all operations x all ISA versions",
 "The tests only multiply the operands into a total count, where two changes can cancel and register operands count as one.",
 [D+"opcode_trait.rs",D+"all.rs",D+"uma.rs",D+"log.rs",D+"context.rs",D+"ret.rs",D+"far_call.rs",D+"mul.rs",D+"div.rs"],
 [("input_operands / output_operands",D+"*.rs"),("dispatch",D+"all.rs")],
 ["Opcode::input_operands","Opcode::output_operands"])
p("C38","Equality and order of instruction values are structural and lawful",
 "Two addressing modes, operands, conditions, ISA versions, opcodes, instruction variants, fat pointers, monotonic numbers or versioned hashes are equal exactly when all their parts are (a plain register operand and the register form of a restricted or full operand are different values), and so are two far-call, near-call, return, precompile or meta-parameter structures. Comparing gives 'equal' exactly for equal values, orders are antisymmetric (transitive for opcodes and operands), the partial order and the comparison operators follow the total order, versions, conditions and addressing modes are ordered by number, and a clone equals its original. Hence the lookup maps can only ever confuse identical instructions.",
 ["inputs"],"all pairs of values of each type (all triples of opcodes and of operands)",
 "No test compares two values that differ in one part only.",
 [D+"mod.rs",D+"opcode_trait.rs",D+"all.rs",D+"condition.rs","src/imm_mem_modifiers.rs",D+"abi/fat_pointer.rs",D+"versioned_hash/mod.rs","src/decoding/mod.rs"],
 [("Eq/Ord/Clone of the public value types","derives in src/definitions and src/imm_mem_modifiers.rs")],
 ["OpcodeVariant","Operand","ISAVersion","Condition"])
p("C39","Table and bitmask synthesis work for every width and instruction",
 "For either ISA version, synthesizing a table of w index bits gives exactly 2^w slots holding the version's instructions in deployed order followed by invalid ones, and panics instead of truncating when the instructions do not fit. The legacy generator does the same for version 0 and refuses version 1. Bitmask synthesis maps any list of instructions element by element to their one-hot descriptions, for every instruction value whose destination mode is legal (also those not in any table) and whatever the other elements are.",
 ["inputs","configurations"],"widths 0 to 13 (thorough also 14 and 15) x both versions, the legacy generator at 0, 5, 9-12 (thorough: 0-14); all pairs of instruction values",
 "The tests synthesize the 11-bit table only and print a few bitmasks.",
 [D+"mod.rs","src/lib.rs"],
 [("synthesize_opcode_decoding_tables",D+"mod.rs"),("synthesize_bit_decomposition_table / opcode_as_integer_bitmask",D+"mod.rs")],
 ["synthesize_opcode_decoding_tables","synthesize_bit_decomposition_table"])
p("C40","Instructions and the decoding format are displayed as what they are",
 "Displaying any instruction of the opcode table terminates without error and names its opcode with sub-variant, its source and destination operand kinds and modes, and its two flags, each in its own place; distinct instructions therefore display differently. Displaying a decoded instruction shows the text of its instruction, its condition, its four registers and its two immediates, each in its own place and alike in both encodings. Every operation and every prototype is named after its family, from 'Invalid opcode' to 'UMA opcode'. The decoding-format description states the total and the five group widths of the version.",
 ["inputs","configurations"],"all instructions of the table, both ISA versions; any condition, registers and immediates",
 "The tests print such text without looking at it.",
 [D+"mod.rs",D+"all.rs",D+"opcode_trait.rs","src/imm_mem_modifiers.rs"],
 [("Display for OpcodeVariant, compute_decoding_format",D+"mod.rs"),("Display for DecodedOpcode","src/decoding/mod.rs")],
 ["OpcodeVariant: Display","compute_decoding_format","DecodedOpcode: Display"])
p("C41","Published protocol parameters have the protocol's values",
 "The parameters other components compile against have the protocol's values: transaction limit 80,000,000 ergs (a multiple of the 80,000 ergs of one circuit), first frame 2^32-1 ergs, invalid price 2^32-1, call surcharge 20, the price per decommitted code word that of the circuit; 64, 40 and 88 pubdata bytes for a first write, a repeated write and an L1 message, 128 to prepay for the value simulator and at most 110,000 per batch (below 128 KiB); simulator overhead 64,000, part of its additive cost 75,500 and minimum use 72,000; reentrancy minimum 3,501; bootloader memory 2^32-1, frame stipend 1,024 bytes, 2^24 addressable heap bytes; first-frame exit at 0 and handler at 65,535; one pending cycle and 4 sponges; a packed pointer is 128 bits wide, which is what packing fills.",
 ["configurations"],"all published parameters; for the packed width every fat pointer",
 "No test looks at these constants, and the VM, the circuits and the bootloader each compile against them: a silently changed one splits the network or opens a fee attack rather than failing a build.",
 ["src/system_params.rs","src/lib.rs",D+"abi/fat_pointer.rs","src/circuit_prices.rs"],
 [("system parameters","src/system_params.rs")],
 ["zkevm_opcode_defs::system_params"])
p("C42","Unsupported ISA versions are refused, not treated as a supported one",
 "For every version number above 1, asking any operation or prototype for its declared sub-variants panics, and so do the memory accesses' operand, source-query and largest-number questions, the sub-variant and description widths, the decoding format and bitmask synthesis of a non-empty list. The two questions that accumulate over versions, table synthesis and the number of flag bits, answer with the newest supported version.",
 ["inputs","configurations"],"all 254 unsupported version numbers",
 "No test passes a version other than the default one.",
 [D+"mod.rs",D+"opcode_trait.rs",D+"uma.rs",D+"log.rs",D+"ptr.rs",D+"ret.rs",D+"far_call.rs","src/lib.rs"],
 [("variants_data",D+"*.rs"),("operands and maxima of memory accesses",D+"uma.rs"),("widths","src/lib.rs")],
 ["OpcodeProps::variants_data","ISAVersion"])
p("C43","What cannot be represented is refused, never answered with something else",
 "In both encodings, encoding or serializing an instruction succeeds exactly when its variant is in the opcode table (invalid included) and panics for every other variant; both reverse maps have an entry for exactly those variants. Fetching from a 32-byte word succeeds exactly for the slots it has (0-3 in production, 0-1 in testing) and panics for every other slot number.",
 ["inputs","configurations"],"all instruction values, all slot numbers and words",
 "The tests encode a few valid instructions and never something unrepresentable.",
 ["src/decoding/encoding_mode_production.rs","src/decoding/encoding_mode_testing.rs","src/lib.rs"],
 [("encode_as_integer, integer_representaiton_from_u256","src/decoding/encoding_mode_*.rs"),("reverse maps","src/lib.rs")],
 ["EncodingModeProduction","EncodingModeTesting","OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP"])
p("C44","Each sub-variant exists since version 0 with the protocol's flags and immediates",
 "Every operation's sub-variants were all introduced in version 0, none later, and each list of them names each once in numeric order. In every ISA version every operation, whichever of its sub-variants or prototypes is asked, declares its sub-variants in numeric order with the protocol's number of flags (2 for sub, div, shift and far calls, 1 for add, mul, binop, pointer operations, events, L1 messages, ret and memory accesses, 0 for all others) and of immediates (2 for nop, arithmetic, binop, shift, pointer operations and near calls, 1 for jump, far call and ret, 0 for invalid, context, log and memory accesses).",
 ["inputs","configurations"],"all operations and sub-variants x both ISA versions",
 "The immediates counts enter nothing else in the crate, so only callers ever see them; the tests do not.",
 [D+"opcode_trait.rs",D+"log.rs",D+"context.rs",D+"far_call.rs",D+"near_call.rs",D+"uma.rs"],
 [("variants_data",D+"*.rs"),("full_variants_product",D+"opcode_trait.rs")],
 ["OpcodeProps::variants_data","OpcodeVariantData"])
p("C45","Generic operations add nothing to a caller's own mode, hash or operation",
 "For a coherent encoding mode of the caller's own, serializing an instruction gives exactly that mode's integer and bytes, the default and masked instructions are the published ones with the immediates kept, and bytecode hashing accepts odd lengths up to that mode's largest counter with the same hash as every other mode. A versioned hash of the caller's own definition parses, serializes and stores exactly as the definition says. For operations of the caller's own, introduced in any versions and with any first operands, the provided availability lists and memory-access queries follow their declarations for every version number.",
 ["inputs","configurations"],"an arbitrary instruction in a 4-byte mode with 4-bit counters, lengths 0-39; every 32-byte hash of a definition with version byte 7; all 256 versions x operations introduced in versions 0, 1, 3 and 255; all first operands",
 "The crate's own operations all start in version 0 and its two modes are alike, so the generic code is hardly exercised even by them.",
 ["src/opcode.rs","src/utils.rs",D+"versioned_hash/mod.rs",D+"opcode_trait.rs","src/decoding/mod.rs"],
 [("DecodedOpcode<N, E>","src/opcode.rs"),("bytecode_to_code_hash_for_mode","src/utils.rs"),("VersionedHashGeneric<V>",D+"versioned_hash/mod.rs"),("provided methods of OpcodeProps and OpcodeVariantProps",D+"opcode_trait.rs")],
 ["DecodedOpcode","VersionedHashGeneric","OpcodeProps","OpcodeVariantProps"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
