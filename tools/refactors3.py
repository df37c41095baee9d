"""Behaviour-preserving edits: generator and misc, continued."""
import importlib.util, os
sp = importlib.util.spec_from_file_location("r2", os.path.join(os.path.dirname(__file__), "refactors2.py"))
r2 = importlib.util.module_from_spec(sp); sp.loader.exec_module(r2)
G = r2.G; D = r2.D; U = r2.U
M = D + "mod.rs"
T = "src/decoding/encoding_mode_production.rs"
R = {}
R["gen4"] = [
 (G, ("    let file_content = vec![", "fn main"), '''    let mut f = std::fs::OpenOptions::new()
        .write(true)
        .create(true)
        .truncate(true)
        .open(std::path::Path::new(filepath))
        .expect("Unable to create file");
    for part in [HEADER, prices.as_str()] {
        f.write_all(part.as_bytes()).expect("Unable to write data");
    }
}

const HEADER: &str = concat!(
    "// This file is auto-generated, do not edit it manually\\n",
    "// Any changes to this file require system upgrade!\\n",
    "\\n",
);

'''),
 (G, 'format!("\\n// {}\\n", comment)', '["\\n// ", comment, "\\n"].concat()'),
 (G, 'format!("pub const {}: u32 = {};\\n", name, value)', '"pub const ".to_string() + name + ": u32 = " + &value.to_string() + ";\\n"'),
]
R["gen5"] = [
 (G, 'fn ergs_constant(name: &str, value: u32) -> String {\n    format!("pub const {}: u32 = {};\\n", name, value)\n}', 'fn ergs_constant(name: impl std::fmt::Display, value: u32) -> String {\n    use std::fmt::Write as _;\n    let mut s = String::new();\n    writeln!(s, "pub const {name}: u32 = {};", value).unwrap();\n    s\n}'),
 (G, "std::cmp::max(min_price_for_initial_pubdata_write, min_price_for_repeated_pubdata_write)", "[min_price_for_initial_pubdata_write, min_price_for_repeated_pubdata_write].into_iter().max().unwrap()"),
 (G, '    let mut f = File::create(filepath).expect("Unable to create file");\n    f.write_all(file_content.as_bytes())\n        .expect("Unable to write data");', '    if let Err(e) = File::create(filepath).and_then(|mut f| f.write_all(file_content.as_bytes())) {\n        panic!("Unable to write data: {}", e);\n    }'),
]
R["noop"] = [
 (M, "    assert!(table_bits", "    let _unused = 0u8;\n    assert!(table_bits") if "    assert!(table_bits" in open("/repo/src/definitions/mod.rs").read() else (M, None, "\n// trailing comment\n"),
 (T, None, "\n// trailing comment\n"),
 (U, "    use sha2::{Digest, Sha256};\n", "    use sha2::{Digest, Sha256};\n    let _ = std::hint::black_box(1u8);\n"),
]
C = D + "condition.rs"
R["cond1"] = [
 (C, ("        assert!(idx < Self::NUM_VARIANTS);", "    pub const fn variant_index"), "        ALL_CONDITIONS[idx]\n    }\n\n"),
 (C, ("        match self {\n            Condition::Always => 0", "}\n\npub const ALL"), "        *self as usize\n    }\n"),
]
R["cond2"] = [
 (C, ("        assert!(idx < Self::NUM_VARIANTS);", "    pub const fn variant_index"), '''        ALL_CONDITIONS
            .iter()
            .copied()
            .find(|c| c.variant_index() == idx)
            .unwrap_or_else(|| panic!("unknown variant {}", idx))
    }

'''),
]
O = "src/opcode.rs"
R["mask1"] = [
 (O, ("        // we only mask first 8 bytes of the opcode, and do not touch regs or imms\n        self.variant.opcode = Opcode::Ret", "    pub fn mask_into_nop"), '''        self.mask_with(PANIC_OPCODE_TEMPLATE);
    }

    fn mask_with(&mut self, variant: OpcodeVariant) {
        let (imm_0, imm_1) = (self.imm_0, self.imm_1);
        *self = Self {
            variant,
            condition: Condition::Always,
            imm_0,
            imm_1,
            src0_reg_idx: 0,
            src1_reg_idx: 0,
            dst0_reg_idx: 0,
            dst1_reg_idx: 0,
        };
    }

'''),
 (O, None, '''
const PANIC_OPCODE_TEMPLATE: OpcodeVariant = OpcodeVariant {
    opcode: Opcode::Ret(RetOpcode::Panic),
    src0_operand_type: Operand::RegOnly,
    dst0_operand_type: Operand::RegOnly,
    flags: [false; NUM_NON_EXCLUSIVE_FLAGS],
};
'''),
]
