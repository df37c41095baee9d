use crate::rt::*;
use zkevm_opcode_defs::*;

type H = VersionedHashGeneric<ContractCodeSha256>;

fn check_parse() {
    let b: [u8; 32] = any("input");
    let r = H::try_create_from_raw(b);
    prove(r.is_some() == (b[0] == 1), "parsing succeeds exactly when byte 0 is the version byte 1");
    if let Some(h) = r {
        let s = h.serialize();
        prove(s == Some(b), "serializing a parsed hash reproduces the input");
        let mut want = b;
        want[1] = 0;
        prove(h.serialize_to_stored() == Some(want), "the stored form differs only in a zero marker byte");
        let l = h.layout_ref();
        prove(l.code_length_in_words == (b[2] as u16) << 8 | b[3] as u16, "the length is bytes 2-3 big-endian");
        prove(l.extra_marker == b[1], "the marker is byte 1");
        let mut same = true;
        for i in 0..28 {
            same = same & (l.partial_hash[i] == b[4 + i]);
        }
        prove(same, "the partial hash is bytes 4-31");
    }
    cover(r.is_some(), "some input parses");
}

fn check_build() {
    let d: [u8; 32] = any("digest");
    let n: u16 = any("num_words");
    let h = H::from_digest_and_preimage_num_words(d, n);
    let mut want = d;
    want[0] = 1;
    want[1] = 0;
    want[2] = (n >> 8) as u8;
    want[3] = n as u8;
    prove(h.serialize() == Some(want), "a built hash has version, zero marker, big-endian length and digest bytes 4-31");
    prove(h.serialize_to_stored() == Some(want), "a built hash is stored unchanged");
    prove(H::try_create_from_raw(want) == Some(h), "a built hash parses back to itself");
}

fn check_layout() {
    let s = ContractCodeSha256Storage { code_length_in_words: any("length"), extra_marker: any("marker"), partial_hash: any("partial_hash") };
    let b = ContractCodeSha256::serialize(s);
    prove(b.is_some(), "every layout serializes");
    if let Some(b) = b {
        prove(ContractCodeSha256::try_deserialize(b) == Some(s), "parsing a serialized layout gives the layout");
        let st = ContractCodeSha256::serialize_to_stored(s);
        prove(st.is_some(), "every layout has a stored form");
        if let Some(st) = st {
            let mut w = b;
            w[1] = 0;
            prove(st == w, "the stored form of a layout has a zero marker");
        }
    }
    prove(ContractCodeSha256::VERSION_BYTE == 1, "the version byte is 1");
    prove(ContractCodeSha256::CODE_AT_REST_MARKER == 0 && ContractCodeSha256::YET_CONSTRUCTED_MARKER == 1, "the marker values");
}
