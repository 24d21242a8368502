//! C08: numeric literals.
use crate::vp;
use y86_sim::utils::parse_literal;

/// What a short string denotes as a numeric literal (no overflow possible up to 18 characters).
fn literal(s: &[u8]) -> Option<u64> {
    let (negative, d) = match s.first() {
        Some(b'-') => (true, &s[1..]),
        _ => (false, s),
    };
    let hex = d.len() >= 2 && d[0] == b'0' && d[1] == b'x';
    let (base, d) = if hex { (16, &d[2..]) } else { (10, d) };
    if d.is_empty() {
        return None;
    }
    let mut x: u64 = 0;
    for &c in d {
        let k = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' if hex => c - b'a' + 10,
            b'A'..=b'F' if hex => c - b'A' + 10,
            _ => return None,
        };
        x = x.wrapping_mul(base).wrapping_add(k as u64);
    }
    Some(if negative { x.wrapping_neg() } else { x })
}

fn check_literal(b: &[u8], want: Option<u64>, id: u64) {
    let got = parse_literal(unsafe { std::str::from_utf8_unchecked(b) });
    vp::assert(got.is_some() == want.is_some(), id);
    vp::assert(got.unwrap_or(0) == want.unwrap_or(0), id + 1);
}

/// C08: every ASCII string of up to N characters.
fn c08_any(nmax: u64) {
    vp::stub_format();
    let n = vp::case(nmax + 1) as usize;
    let mut buf = [0u8; 24];
    for (i, c) in buf.iter_mut().enumerate().take(n) {
        *c = vp::u8(&vp::tag(b'c', i));
        vp::assume(*c < 128 && *c != b'+'); // a leading plus is outside the property
    }
    check_literal(&buf[..n], literal(&buf[..n]), 1);
    vp::reach(1);
}
#[no_mangle]
pub extern "C" fn vp_c08_any4() {
    c08_any(4)
}
#[no_mangle]
pub extern "C" fn vp_c08_any6() {
    c08_any(6)
}

/// C08: every decimal number of 1 to 20 digits, with and without sign. Numbers of 19 and 20 digits
/// are split on the first digit in which they differ from the largest magnitude allowed.
#[no_mangle]
pub extern "C" fn vp_c08_dec() {
    vp::stub_format();
    let k = vp::case(40) as usize;
    let (n, negative) = (k / 2 + 1, k % 2 == 1);
    let bound: &[u8; 19] = if negative { b"9223372036854775808" } else { b"9223372036854775807" };
    // (first digit that differs, above the bound?) of the last 19 digits
    let (at, above) = if n >= 19 {
        let c = vp::case(39) as usize;
        (c / 2, c % 2 == 1)
    } else {
        (0, false)
    };
    let mut buf = [0u8; 24];
    let mut p = 0;
    if negative {
        buf[0] = b'-';
        p = 1;
    }
    let (mut first, mut v) = (0, 0u64);
    for i in 0..n {
        let (mut lo, mut hi) = (0, 9);
        if n >= 19 && i + 19 >= n {
            let i = i + 19 - n;
            let b = (bound[i] - b'0') as u64;
            if i < at {
                (lo, hi) = (b, b);
            } else if i == at && above {
                lo = b + 1;
            } else if i == at {
                vp::assume(b > 0);
                hi = b - 1;
            }
        }
        if n == 20 && i == 0 {
            (lo, hi) = if vp::case(2) == 0 { (0, 0) } else { (1, 9) };
        }
        vp::assume(lo <= hi);
        let d = if lo == hi { lo } else { vp::range(&vp::tag(b'd', i), lo, hi) };
        buf[p] = b'0' + d as u8;
        p += 1;
        if n == 20 && i == 0 {
            first = d;
        } else {
            v = v.wrapping_mul(10).wrapping_add(d); // 19 digits fit in 64 bits
        }
    }
    // 20 digits: a non-zero first digit makes the number larger than 2^63
    let max = (1u64 << 63) - (!negative) as u64;
    let ok = first == 0 && v <= max;
    let w = if negative { v.wrapping_neg() } else { v };
    check_literal(&buf[..p], if ok { Some(w) } else { None }, 1);
    if ok {
        vp::reach(1);
    } else {
        vp::reach(2);
    }
}

/// C08: every hexadecimal number of 1 to 17 digits in either case, with and without sign.
#[no_mangle]
pub extern "C" fn vp_c08_hex() {
    vp::stub_format();
    let k = vp::case(34) as usize;
    let (n, negative) = (k / 2 + 1, k % 2 == 1);
    let mut buf = [0u8; 24];
    let mut p = 0;
    if negative {
        buf[0] = b'-';
        p = 1;
    }
    buf[p] = b'0';
    buf[p + 1] = b'x';
    p += 2;
    let (mut first, mut v) = (0, 0u64);
    for i in 0..n {
        let d = vp::range(&vp::tag(b'd', i), 0, 15);
        let up = vp::range(&vp::tag(b'u', i), 0, 1);
        buf[p] = if d < 10 {
            b'0' + d as u8
        } else if up == 1 {
            b'A' - 10 + d as u8
        } else {
            b'a' - 10 + d as u8
        };
        p += 1;
        if n == 17 && i == 0 {
            first = d;
        } else {
            v = v.wrapping_mul(16).wrapping_add(d);
        }
    }
    let w = if negative { v.wrapping_neg() } else { v };
    check_literal(&buf[..p], if first == 0 { Some(w) } else { None }, 1);
    vp::reach(1);
}

/// C08: a stray character at any position of a long literal (decimal and hexadecimal).
#[no_mangle]
pub extern "C" fn vp_c08_bad() {
    vp::stub_format();
    let hex = vp::case(2) == 1;
    let n = if hex { 16 } else { 18 };
    let pos = vp::case(n as u64) as usize;
    let mut buf = [b'7'; 24];
    let mut v = 0u64;
    let o = if hex { 2 } else { 0 };
    let c = vp::u8("c");
    vp::assume(c < 128);
    // a sign or an `x` in front can be meaningful: covered by the short strings
    vp::assume(o + pos > 1 || hex || (c != b'-' && c != b'x' && c != b'+'));
    vp::assume(!(hex && pos == 0 && c == b'+'));
    if hex {
        buf[0] = b'0';
        buf[1] = b'x';
    }
    let mut ok = true;
    for i in 0..n {
        let ch = if i == pos { c } else { b'7' };
        buf[o + i] = ch;
        let k = match ch {
            b'0'..=b'9' => ch - b'0',
            b'a'..=b'f' if hex => ch - b'a' + 10,
            b'A'..=b'F' if hex => ch - b'A' + 10,
            _ => {
                ok = false;
                0
            }
        };
        v = v.wrapping_mul(if hex { 16 } else { 10 }).wrapping_add(k as u64);
    }
    check_literal(&buf[..o + n], if ok { Some(v) } else { None }, 1);
    if ok {
        vp::reach(1);
    } else {
        vp::reach(2);
    }
}
