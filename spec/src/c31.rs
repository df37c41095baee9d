use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::*;

fn check_bijection() {
    let c: Condition = any("condition");
    prove(c.variant_index() as u64 == cond_no(c), "the number of a condition");
    prove(Condition::materialize_variant(c.variant_index()) == c, "number-to-condition inverts condition-to-number");
    let n: usize = any("number");
    let r = catch(|| Condition::materialize_variant(n));
    prove(r.is_some() == (n < 8), "exactly the numbers 0-7 denote conditions");
    if let Some(c) = r {
        prove(cond_no(c) == n as u64, "a number denotes the condition of that number");
    }
    prove(ALL_CONDITIONS.len() == 8, "there are eight conditions");
    for i in 0..8 {
        prove(cond_no(ALL_CONDITIONS[i]) == i as u64, "the published list is in numeric order");
    }
    prove(CONDITIONAL_BITS_WIDTH == 3, "conditions take three bits");
}
