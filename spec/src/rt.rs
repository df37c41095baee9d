//! The vocabulary of the property statements. None of these bodies ever runs: the analyser
//! gives them their meaning (any: an arbitrary value of the type; prove: an obligation that
//! has to hold for every value; catch: Some(result), or None exactly where the call panics).
#![allow(unused_variables)]
pub fn any<T>(name: &str) -> T { loop {} }
pub fn assume(c: bool) { loop {} }
pub fn prove(c: bool, what: &str) { loop {} }
pub fn cover(c: bool, what: &str) { loop {} }
pub fn catch<T, F: FnOnce() -> T>(f: F) -> Option<T> { loop {} }
pub fn is_const<T>(v: &T) -> bool { loop {} }
pub fn note<T>(name: &str, v: &T) { loop {} }
pub fn hash_of<H>(data: &[u8]) -> [u8; 32] { loop {} }
pub fn output() -> Vec<u8> { loop {} }
pub fn opaque(words: usize) -> &'static [[u8; 32]] { loop {} }
/// `words` pairwise distinct words.
pub fn numbered(words: usize) -> &'static [[u8; 32]] { loop {} }
/// The digest of the words' bytes, in order.
pub fn hash_words<H>(words: &[[u8; 32]]) -> [u8; 32] { loop {} }
/// The first `words` words of one arbitrary sequence (the same sequence at every call).
pub fn arbitrary_words(words: usize) -> &'static [[u8; 32]] { loop {} }
/// The integer constants in the crate functions analysed so far, in increasing order.
pub fn constants_between(low: usize, high: usize) -> &'static [usize] { loop {} }
