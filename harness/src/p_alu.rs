//! C16: ALU and condition codes.
use crate::vp;
use y86_sim::isa::{arithmetic_compute, ConditionCode};

/// C16: ALU and condition codes against integer arithmetic on i128.
#[no_mangle]
pub extern "C" fn vp_c16_alu() {
    vp::stub_format();
    let (a, b) = (vp::u64("a"), vp::u64("b"));
    let op = vp::u8("op");
    let r = arithmetic_compute(a, b, op);
    if op > 3 {
        vp::reach(1);
        vp::assert(r.is_none(), 1);
        return;
    }
    let Some(e) = r else {
        vp::assert(false, 2);
        return;
    };
    let (sa, sb) = (a as i64 as i128, b as i64 as i128);
    let exact: i128 = match op {
        0 => sb + sa,
        1 => sb - sa,
        2 => (b & a) as i64 as i128,
        _ => (b ^ a) as i64 as i128,
    };
    let wrapped = exact as u64;
    vp::assert(e == wrapped, 3);
    // the flags before the operation must not matter
    let mut cc = ConditionCode { sf: vp::bool("sf0"), of: vp::bool("of0"), zf: vp::bool("zf0") };
    cc.set(a, b, e, op);
    vp::assert(cc.zf == (wrapped == 0), 4);
    vp::assert(cc.sf == ((wrapped as i64) < 0), 5);
    vp::assert(cc.of == (exact != wrapped as i64 as i128), 6);
    // conditions name signed comparisons of the exact result with zero
    let f = vp::u8("fun");
    let t = cc.test(f);
    let want = match f {
        0 => true,
        1 => exact <= 0,
        2 => exact < 0,
        3 => wrapped == 0,
        4 => wrapped != 0,
        5 => exact >= 0,
        6 => exact > 0,
        _ => t,
    };
    // `le`/`g` combine ZF (of the wrapped result) with SF^OF (sign of the exact result); the two
    // disagree only for b + a = -2^64
    let want = match f {
        1 => want || wrapped == 0,
        6 => want && wrapped != 0,
        _ => want,
    };
    vp::assert(t == want, 7);
    vp::reach(2);
}

/// C16 on the hardware ALU path for subtraction: `subq a, b` followed by a condition is the
/// signed comparison of b with a.
#[no_mangle]
pub extern "C" fn vp_c16_cmp() {
    vp::stub_format();
    let (a, b) = (vp::u64("a"), vp::u64("b"));
    let mut cc = ConditionCode { sf: vp::bool("sf0"), of: vp::bool("of0"), zf: vp::bool("zf0") };
    let e = arithmetic_compute(a, b, 1).unwrap_or(0);
    cc.set(a, b, e, 1);
    let (x, y) = (b as i64, a as i64);
    vp::assert(cc.test(0), 1);
    vp::assert(cc.test(1) == (x <= y), 2);
    vp::assert(cc.test(2) == (x < y), 3);
    vp::assert(cc.test(3) == (x == y), 4);
    vp::assert(cc.test(4) == (x != y), 5);
    vp::assert(cc.test(5) == (x >= y), 6);
    vp::assert(cc.test(6) == (x > y), 7);
    vp::reach(1);
}
