use crate::rt::*;
use zkevm_opcode_defs::decoding::{EncodingModeProduction, EncodingModeTesting};
use zkevm_opcode_defs::{bytecode_to_code_hash, bytecode_to_code_hash_for_mode, sha2::Sha256};

/// The versioned hash of a bytecode of these `n` words.
fn wanted(words: &[[u8; 32]], n: usize) -> [u8; 32] {
    let d = hash_words::<Sha256>(words);
    let mut w = d;
    w[0] = 1;
    w[1] = 0;
    w[2] = (n >> 8) as u8;
    w[3] = n as u8;
    w
}

fn legal(n: usize) -> bool {
    n % 2 == 1 && n <= 65535
}

fn judge(words: &[[u8; 32]], n: usize) {
    note("words", &n);
    let r = bytecode_to_code_hash(words);
    prove(r.is_ok() == legal(n), "hashing succeeds exactly for an odd number of at most 65535 words");
    if legal(n) {
        prove(r == Ok(wanted(words, n)), "the digest covers all words once and in order, and the length is the word count");
    }
}

fn arbitrary(n: usize) {
    judge(arbitrary_words(n), n);
}

// Every bytecode of each of these lengths, whatever its contents.
fn check_short() {
    for n in 0..300 {
        arbitrary(n);
    }
}

fn check_boundaries() {
    for n in [511, 513, 1023, 1025, 2047, 2049, 4095, 4097, 8193] {
        arbitrary(n);
    }
}

fn check_half() {
    for n in [16385, 32767, 32768, 32769] {
        arbitrary(n);
    }
}

fn check_limit() {
    for n in [65534, 65535, 65536, 65537] {
        arbitrary(n);
    }
}

// The form that is generic in the encoding.
fn check_modes() {
    for n in [0, 1, 2, 3, 16, 17, 33, 64, 65, 129, 2049, 65535] {
        note("words", &n);
        let words = arbitrary_words(n);
        let p = bytecode_to_code_hash_for_mode::<8, EncodingModeProduction>(words);
        let t = bytecode_to_code_hash_for_mode::<16, EncodingModeTesting>(words);
        if legal(n) {
            let w = wanted(words, n);
            prove(p == Ok(w) && t == Ok(w), "both encodings hash a legal bytecode alike");
        } else {
            prove(p.is_err() && t.is_err(), "both encodings reject an even number of words");
        }
    }
}

// One bytecode of each of these lengths, with pairwise distinct words.
fn check_beyond() {
    for n in [65538, 65539, 131071, 131073, 131077] {
        judge(numbered(n), n);
    }
}

// Lengths around every constant the code mentions, taken as a number of words and of bytes.
// (The statements are analysed in the order in which they are written.)
fn check_mentioned_lengths() {
    let mut budget = 400_000;
    for unit in [1, 32] {
        for c in constants_between(150, 66_000 * unit) {
            let c = (*c / unit) as isize;
            for n in [c - 2, c - 1, c, c + 1, c + 2, 2 * c - 1, 2 * c + 1] {
                // the other lengths are among those above
                if n >= 300 && n < 65_534 && n <= budget {
                    budget -= n;
                    arbitrary(n as usize);
                }
            }
        }
    }
}

// Every illegal length at once: the error does not depend on the contents.
fn check_opt_illegal_lengths() {
    let n: usize = any("words");
    assume(!legal(n));
    let words = opaque(n);
    prove(bytecode_to_code_hash(words).is_err(), "every illegal number of words is rejected");
}

#[cfg(thorough)]
fn check_every_length_to_1000() {
    for n in 300..1000 {
        arbitrary(n);
    }
}

#[cfg(thorough)]
fn check_more_lengths() {
    for n in [2051, 3001, 6143, 7777, 10001, 12345, 20479, 24577, 40961, 49151, 49153, 57345, 61441, 64513] {
        arbitrary(n);
    }
}
