//! Hash-consed bit-vector terms with simplification. Width 1 terms double as booleans.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Mul,
    Udiv,
    Urem,
    Sdiv,
    Srem,
    Shl,
    Lshr,
    Ashr,
    /// a = high part, b = low part
    Concat,
    /// b = lowest bit (raw number)
    Extract,
    Sext,
    Ite,
    Eq,
    Ult,
    Slt,
    /// a = array number (raw), b = index term
    Select,
}

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    /// number of constant leaves if this is an ite tree with constant leaves (1 = constant), else 0
    pub cl: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    /// bits known to be zero / one
    pub k0: u128,
    pub k1: u128,
}

pub struct Array {
    pub name: String,
    /// index width
    pub iw: u32,
    pub size: u64,
    pub pins: HashMap<u64, u8>,
}

pub struct Tm {
    pub nodes: Vec<Node>,
    map: HashMap<(Op, u8, u32, u32, u32), T, Fx>,
    consts: HashMap<(u8, u128), T, Fx>,
    pub vars: Vec<(String, u32, T)>,
    pub arrays: Vec<Array>,
    /// declared ranges of variables (their bounds are also part of the path condition)
    pub ranges: HashMap<u32, (u128, u128)>,
    ivs: HashMap<T, (u128, u128), Fx>,
    sivs: HashMap<T, (i128, i128), Fx>,
}

#[derive(Clone, Copy, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl FxH {
    #[inline]
    fn add(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.add(*x as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.add(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.add(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.add(v)
    }
    fn write_usize(&mut self, v: usize) {
        self.add(v as u64)
    }
    fn write_u128(&mut self, v: u128) {
        self.add(v as u64);
        self.add((v >> 64) as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.add(v as u64)
    }
}

static mut TM: Option<Tm> = None;

#[allow(static_mut_refs)]
#[inline]
pub fn tm() -> &'static mut Tm {
    unsafe {
        if TM.is_none() {
            let mut t = Tm { nodes: Vec::new(), map: HashMap::default(), consts: HashMap::default(), vars: vec![], arrays: vec![], ranges: HashMap::new(), ivs: HashMap::default(), sivs: HashMap::default() };
            // reserve id 0 = false, 1 = true
            t.mk_const(1, 0);
            t.mk_const(1, 1);
            TM = Some(t);
        }
        TM.as_mut().unwrap_unchecked()
    }
}
pub const FALSE: T = 0;
pub const TRUE: T = 1;

#[inline]
pub fn ones(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

impl Tm {
    fn mk_const(&mut self, w: u32, v: u128) -> T {
        let v = v & ones(w);
        if let Some(t) = self.consts.get(&(w as u8, v)) {
            return *t;
        }
        let id = self.nodes.len() as T;
        self.nodes.push(Node { op: Op::Const, w: w as u8, cl: 1, a: 0, b: 0, c: 0, k0: !v & ones(w), k1: v });
        self.consts.insert((w as u8, v), id);
        id
    }
}

#[inline]
pub fn cst(w: u32, v: u128) -> T {
    tm().mk_const(w, v)
}
#[inline]
pub fn node(t: T) -> Node {
    tm().nodes[t as usize]
}
#[inline]
pub fn width(t: T) -> u32 {
    tm().nodes[t as usize].w as u32
}
#[inline]
pub fn is_const(t: T) -> Option<u128> {
    let n = &tm().nodes[t as usize];
    if n.op == Op::Const {
        Some(n.k1)
    } else {
        None
    }
}
pub fn boolc(b: bool) -> T {
    if b {
        TRUE
    } else {
        FALSE
    }
}

pub fn var(name: &str, w: u32) -> T {
    let m = tm();
    let id = m.nodes.len() as T;
    let vi = m.vars.len() as u32;
    m.vars.push((name.to_string(), w, id));
    m.nodes.push(Node { op: Op::Var, w: w as u8, cl: 0, a: vi, b: 0, c: 0, k0: 0, k1: 0 });
    id
}

pub fn new_array(name: &str, size: u64) -> u32 {
    let mut iw = 1;
    while (1u64 << iw) < size {
        iw += 1;
    }
    let m = tm();
    m.arrays.push(Array { name: name.to_string(), iw, size, pins: HashMap::new() });
    m.arrays.len() as u32 - 1
}

/// known bits of an addition with carry-in
fn kb_add(a0: u128, a1: u128, b0: u128, b1: u128, w: u32) -> (u128, u128) {
    // min and max sums: LLVM style
    let m = ones(w);
    let pmax = (!a0 & m).wrapping_add(!b0 & m); // largest sum (all unknown 1)
    let pmin = a1.wrapping_add(b1);
    // carry known zero / one
    let c0 = !(pmax ^ a0 ^ b0); // as in LLVM: CarryKnownZero = ~(PossibleSumZero ^ LHS.Zero ^ RHS.Zero)
    let c1 = pmin ^ a1 ^ b1;
    let known = (a0 | a1) & (b0 | b1) & (c0 | c1);
    ((!pmax & known) & m, (pmin & known) & m)
}

fn mk(op: Op, w: u32, a: u32, b: u32, c: u32) -> T {
    let m = tm();
    let key = (op, w as u8, a, b, c);
    if let Some(t) = m.map.get(&key) {
        return *t;
    }
    let full = ones(w);
    let (mut k0, mut k1) = (0u128, 0u128);
    let n = |t: u32| -> &Node { &m.nodes[t as usize] };
    match op {
        Op::Not => {
            k0 = n(a).k1;
            k1 = n(a).k0;
        }
        Op::And => {
            k0 = n(a).k0 | n(b).k0;
            k1 = n(a).k1 & n(b).k1;
        }
        Op::Or => {
            k0 = n(a).k0 & n(b).k0;
            k1 = n(a).k1 | n(b).k1;
        }
        Op::Xor => {
            k0 = (n(a).k0 & n(b).k0) | (n(a).k1 & n(b).k1);
            k1 = (n(a).k0 & n(b).k1) | (n(a).k1 & n(b).k0);
        }
        Op::Add => {
            let r = kb_add(n(a).k0, n(a).k1, n(b).k0, n(b).k1, w);
            k0 = r.0;
            k1 = r.1;
        }
        Op::Mul => {
            let tz = (n(a).k0 | !full).trailing_ones().min(w) + (n(b).k0 | !full).trailing_ones().min(w);
            k0 = ones(tz.min(w));
            // leading zeros
            let la = ((n(a).k0 | !full).leading_ones()) - (128 - w);
            let lb = ((n(b).k0 | !full).leading_ones()) - (128 - w);
            let bits = (w - la) + (w - lb);
            if bits < w {
                k0 |= full & !ones(bits);
            }
        }
        Op::Udiv => {
            let la = ((n(a).k0 | !full).leading_ones()) - (128 - w);
            // x/0 = all ones in SMT, so only when the divisor is known non-zero
            if n(b).k1 != 0 {
                k0 = full & !ones(w - la);
            }
        }
        Op::Urem => {
            let la = ((n(a).k0 | !full).leading_ones()) - (128 - w);
            k0 = full & !ones(w - la);
        }
        Op::Shl | Op::Lshr | Op::Ashr | Op::Sdiv | Op::Srem => {
            if op == Op::Lshr {
                let la = ((n(a).k0 | !full).leading_ones()) - (128 - w);
                k0 = full & !ones(w - la);
            }
        }
        Op::Concat => {
            let lw = n(b).w as u32;
            k0 = (n(a).k0 << lw) | n(b).k0;
            k1 = (n(a).k1 << lw) | n(b).k1;
        }
        Op::Extract => {
            k0 = (n(a).k0 >> b) & full;
            k1 = (n(a).k1 >> b) & full;
        }
        Op::Sext => {
            let iw = n(a).w as u32;
            k0 = n(a).k0;
            k1 = n(a).k1;
            let hi = full & !ones(iw);
            if k0 >> (iw - 1) & 1 == 1 {
                k0 |= hi
            }
            if k1 >> (iw - 1) & 1 == 1 {
                k1 |= hi
            }
        }
        Op::Ite => {
            k0 = n(b).k0 & n(c).k0;
            k1 = n(b).k1 & n(c).k1;
        }
        _ => {}
    }
    if (k0 | k1) == full {
        let r = m.mk_const(w, k1);
        m.map.insert(key, r);
        return r;
    }
    let cl = if op == Op::Ite {
        let (x, y) = (n(b).cl as u32, n(c).cl as u32);
        if x > 0 && y > 0 && x + y <= 24 {
            (x + y) as u8
        } else {
            0
        }
    } else {
        0
    };
    let id = m.nodes.len() as T;
    if id > 60_000_000 {
        panic!("term limit");
    }
    m.nodes.push(Node { op, w: w as u8, cl, a, b, c, k0, k1 });
    m.map.insert(key, id);
    id
}

/// apply f to the constant leaves of an ite tree
fn lift1(t: T, f: &mut dyn FnMut(T) -> T) -> T {
    let n = node(t);
    if n.op == Op::Const {
        return f(t);
    }
    debug_assert!(n.op == Op::Ite);
    let x = lift1(n.b, f);
    let y = lift1(n.c, f);
    ite(n.a, x, y)
}

fn try_lift2(a: T, b: T, f: fn(T, T) -> T) -> Option<T> {
    let (na, nb) = (node(a), node(b));
    if na.cl > 1 && nb.cl == 1 {
        return Some(lift1(a, &mut |x| f(x, b)));
    }
    if nb.cl > 1 && na.cl == 1 {
        return Some(lift1(b, &mut |x| f(a, x)));
    }
    if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a && na.cl > 1 && nb.cl > 1 {
        let x = f(na.b, nb.b);
        let y = f(na.c, nb.c);
        return Some(ite(na.a, x, y));
    }
    if na.cl > 1 && nb.cl > 1 && (na.cl as u32) * (nb.cl as u32) <= 36 {
        return Some(lift1(a, &mut |x| lift1(b, &mut |y| f(x, y))));
    }
    None
}

pub fn not(a: T) -> T {
    let n = node(a);
    match n.op {
        Op::Const => return cst(n.w as u32, !n.k1),
        Op::Not => return n.a,
        Op::Concat => {
            if n.w > 1 {
                return concat(not(n.a), not(n.b));
            }
        }
        _ => {}
    }
    if n.cl > 1 {
        return lift1(a, &mut not);
    }
    mk(Op::Not, n.w as u32, a, 0, 0)
}

fn runs(mask: u128, w: u32) -> Vec<(u32, u32, bool)> {
    // (lo, hi, set)
    let mut v = vec![];
    let mut i = 0;
    while i < w {
        let s = mask >> i & 1 == 1;
        let mut j = i;
        while j + 1 < w && (mask >> (j + 1) & 1 == 1) == s {
            j += 1;
        }
        v.push((i, j, s));
        i = j + 1;
    }
    v
}

fn disjoint_join(a: T, b: T) -> Option<T> {
    let (na, nb) = (node(a), node(b));
    let w = na.w as u32;
    if w == 1 {
        return None;
    }
    let full = ones(w);
    let (ma, mb) = (!na.k0 & full, !nb.k0 & full);
    if ma & mb != 0 {
        return None;
    }
    // region list: who owns
    let mut regs: Vec<(u32, bool)> = vec![]; // (start bit, owner is a)
    for i in 0..w {
        let o = if ma >> i & 1 == 1 {
            true
        } else if mb >> i & 1 == 1 {
            false
        } else {
            continue;
        };
        match regs.last() {
            None => regs.push((0, o)),
            Some((_, p)) if *p != o => regs.push((i, o)),
            _ => {}
        }
    }
    if regs.is_empty() {
        return Some(cst(w, 0));
    }
    if regs.len() > 20 {
        return None;
    }
    let mut acc: Option<T> = None;
    for (k, (s, o)) in regs.iter().enumerate() {
        let e = if k + 1 < regs.len() { regs[k + 1].0 - 1 } else { w - 1 };
        let p = extract(e, *s, if *o { a } else { b });
        acc = Some(match acc {
            None => p,
            Some(l) => concat(p, l),
        });
    }
    acc
}

pub fn and(a: T, b: T) -> T {
    if a == b {
        return a;
    }
    let (na, nb) = (node(a), node(b));
    let w = na.w as u32;
    debug_assert_eq!(na.w, nb.w);
    if na.op == Op::Const && nb.op != Op::Const {
        return and(b, a);
    }
    if nb.op == Op::Const {
        let k = nb.k1;
        if na.op == Op::Const {
            return cst(w, k & na.k1);
        }
        if k == 0 {
            return b;
        }
        if k == ones(w) {
            return a;
        }
        // mask covered by known bits
        if (!na.k0 & ones(w)) & !k == 0 {
            return a;
        }
        if na.cl > 1 {
            return lift1(a, &mut |x| and(x, b));
        }
        let rs = runs(k, w);
        if rs.len() <= 8 {
            let mut acc: Option<T> = None;
            for (lo, hi, s) in rs {
                let p = if s { extract(hi, lo, a) } else { cst(hi - lo + 1, 0) };
                acc = Some(match acc {
                    None => p,
                    Some(l) => concat(p, l),
                });
            }
            return acc.unwrap();
        }
    }
    if w == 1 {
        return band(a, b);
    }
    if let Some(r) = try_lift2(a, b, and) {
        return r;
    }
    if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
        return cst(w, 0);
    }
    if let Some(r) = split_bitwise(a, b, and) {
        return r;
    }
    let (x, y) = if a < b { (a, b) } else { (b, a) };
    mk(Op::And, w, x, y, 0)
}

/// bitwise op over concats: split if one side has constant parts
fn split_bitwise(a: T, b: T, f: fn(T, T) -> T) -> Option<T> {
    let (na, nb) = (node(a), node(b));
    let cut = if na.op == Op::Concat && (is_const(na.a).is_some() || is_const(na.b).is_some()) {
        node(na.b).w as u32
    } else if nb.op == Op::Concat && (is_const(nb.a).is_some() || is_const(nb.b).is_some()) {
        node(nb.b).w as u32
    } else if na.op == Op::Concat && nb.op == Op::Concat && node(na.b).w == node(nb.b).w {
        node(na.b).w as u32
    } else {
        return None;
    };
    let w = na.w as u32;
    let h = f(extract(w - 1, cut, a), extract(w - 1, cut, b));
    let l = f(extract(cut - 1, 0, a), extract(cut - 1, 0, b));
    Some(concat(h, l))
}

fn band(a: T, b: T) -> T {
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Const {
        return if na.k1 == 1 { b } else { a };
    }
    if nb.op == Op::Const {
        return if nb.k1 == 1 { a } else { b };
    }
    if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
        return FALSE;
    }
    for (x, nx, y, ny) in [(a, na, b, nb), (b, nb, a, na)] {
        // y = and(..x..)
        if ny.op == Op::And && (ny.a == x || ny.b == x) {
            return y;
        }
        if ny.op == Op::And && (is_neg(ny.a, x) || is_neg(ny.b, x)) {
            return FALSE;
        }
        if ny.op == Op::Or {
            if ny.a == x || ny.b == x {
                return x;
            }
            if is_neg(ny.a, x) {
                return band(x, ny.b);
            }
            if is_neg(ny.b, x) {
                return band(x, ny.a);
            }
        }
        if ny.op == Op::Not {
            let ni = node(ny.a);
            // x & !(x & z) = x & !z
            if ni.op == Op::And {
                if ni.a == x {
                    return band(x, not(ni.b));
                }
                if ni.b == x {
                    return band(x, not(ni.a));
                }
                // !z & !(z & q) = !z
                if is_neg(ni.a, x) || is_neg(ni.b, x) {
                    return x;
                }
            }
            if ni.op == Op::Or {
                // x & !(x|z) = false ; x & !(!x | z) = x & !z
                if ni.a == x || ni.b == x {
                    return FALSE;
                }
                if is_neg(ni.a, x) {
                    return band(x, not(ni.b));
                }
                if is_neg(ni.b, x) {
                    return band(x, not(ni.a));
                }
            }
            let _ = nx;
        }
        // x = (t == k1), y = (t == k2)
        if let (Some((t1, k1)), Some((t2, k2))) = (eq_const(x), eq_const(y)) {
            if t1 == t2 && k1 != k2 {
                return FALSE;
            }
        }
        // x = (t==k1), y = !(t==k2), k1 != k2 -> x
        if ny.op == Op::Not {
            if let (Some((t1, k1)), Some((t2, k2))) = (eq_const(x), eq_const(ny.a)) {
                if t1 == t2 && k1 != k2 {
                    return x;
                }
            }
        }
    }
    let (x, y) = if a < b { (a, b) } else { (b, a) };
    mk(Op::And, 1, x, y, 0)
}
fn eq_const(t: T) -> Option<(T, T)> {
    let n = node(t);
    if n.op == Op::Eq {
        if node(n.b).op == Op::Const {
            return Some((n.a, n.b));
        }
        if node(n.a).op == Op::Const {
            return Some((n.b, n.a));
        }
    }
    None
}
#[inline]
fn is_neg(a: T, b: T) -> bool {
    let (na, nb) = (node(a), node(b));
    na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a
}

pub fn or(a: T, b: T) -> T {
    if a == b {
        return a;
    }
    let (na, nb) = (node(a), node(b));
    let w = na.w as u32;
    debug_assert_eq!(na.w, nb.w);
    if na.op == Op::Const && nb.op != Op::Const {
        return or(b, a);
    }
    if w == 1 {
        if na.op == Op::Not && nb.op == Op::Not {
            return not(band(na.a, nb.a));
        }
        if nb.op == Op::Const {
            return if nb.k1 == 1 { b } else { a };
        }
        if is_neg(a, b) {
            return TRUE;
        }
        for (x, y, ny) in [(a, b, nb), (b, a, na)] {
            if ny.op == Op::Or {
                if ny.a == x || ny.b == x {
                    return y;
                }
                if is_neg(ny.a, x) || is_neg(ny.b, x) {
                    return TRUE;
                }
            }
            if ny.op == Op::And {
                if ny.a == x || ny.b == x {
                    return x;
                }
                if is_neg(ny.a, x) {
                    return or(x, ny.b);
                }
                if is_neg(ny.b, x) {
                    return or(x, ny.a);
                }
            }
            if ny.op == Op::Not {
                let ni = node(ny.a);
                if ni.op == Op::And {
                    if ni.a == x || ni.b == x {
                        return TRUE;
                    }
                }
            }
        }
        // (p & q) | (p & !q) = p
        if na.op == Op::And && nb.op == Op::And {
            for (p, q) in [(na.a, na.b), (na.b, na.a)] {
                for (r, s) in [(nb.a, nb.b), (nb.b, nb.a)] {
                    if p == r {
                        return band(p, or(q, s));
                    }
                    let _ = (q, s);
                }
            }
        }
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        return mk(Op::Or, 1, x, y, 0);
    }
    if nb.op == Op::Const {
        let k = nb.k1;
        if na.op == Op::Const {
            return cst(w, k | na.k1);
        }
        if k == 0 {
            return a;
        }
        if k == ones(w) {
            return b;
        }
        if na.cl > 1 {
            return lift1(a, &mut |x| or(x, b));
        }
        let rs = runs(k, w);
        if rs.len() <= 8 {
            let mut acc: Option<T> = None;
            for (lo, hi, s) in rs {
                let p = if s { cst(hi - lo + 1, u128::MAX) } else { extract(hi, lo, a) };
                acc = Some(match acc {
                    None => p,
                    Some(l) => concat(p, l),
                });
            }
            return acc.unwrap();
        }
    }
    if let Some(r) = try_lift2(a, b, or) {
        return r;
    }
    if let Some(r) = disjoint_join(a, b) {
        return r;
    }
    if let Some(r) = split_bitwise(a, b, or) {
        return r;
    }
    let (x, y) = if a < b { (a, b) } else { (b, a) };
    mk(Op::Or, w, x, y, 0)
}

pub fn xor(a: T, b: T) -> T {
    let (na, nb) = (node(a), node(b));
    let w = na.w as u32;
    if a == b {
        return cst(w, 0);
    }
    debug_assert_eq!(na.w, nb.w);
    if na.op == Op::Const && nb.op != Op::Const {
        return xor(b, a);
    }
    if nb.op == Op::Const {
        let k = nb.k1;
        if na.op == Op::Const {
            return cst(w, k ^ na.k1);
        }
        if k == 0 {
            return a;
        }
        if k == ones(w) {
            return not(a);
        }
        if na.cl > 1 {
            return lift1(a, &mut |x| xor(x, b));
        }
        let rs = runs(k, w);
        if rs.len() <= 8 {
            let mut acc: Option<T> = None;
            for (lo, hi, s) in rs {
                let p = extract(hi, lo, a);
                let p = if s { not(p) } else { p };
                acc = Some(match acc {
                    None => p,
                    Some(l) => concat(p, l),
                });
            }
            return acc.unwrap();
        }
    }
    if w == 1 {
        // canonical: strip negations
        let (mut x, mut y, mut neg) = (a, b, false);
        if na.op == Op::Not {
            x = na.a;
            neg = !neg;
        }
        if nb.op == Op::Not {
            y = nb.a;
            neg = !neg;
        }
        if x == y {
            return boolc(neg);
        }
        let (x, y) = if x < y { (x, y) } else { (y, x) };
        let r = mk(Op::Xor, 1, x, y, 0);
        return if neg { not(r) } else { r };
    }
    if is_neg(a, b) {
        return cst(w, u128::MAX);
    }
    if na.op == Op::Xor && (na.a == b || na.b == b) {
        return if na.a == b { na.b } else { na.a };
    }
    if nb.op == Op::Xor && (nb.a == a || nb.b == a) {
        return if nb.a == a { nb.b } else { nb.a };
    }
    if let Some(r) = try_lift2(a, b, xor) {
        return r;
    }
    if let Some(r) = disjoint_join(a, b) {
        return r;
    }
    if let Some(r) = split_bitwise(a, b, xor) {
        return r;
    }
    let (x, y) = if a < b { (a, b) } else { (b, a) };
    mk(Op::Xor, w, x, y, 0)
}

// ---------------------------------------------------------------- linear forms

/// sum of coef*leaf + const (mod 2^w)
#[derive(Clone, Debug)]
pub struct Lin {
    pub w: u32,
    pub k: u128,
    pub ls: Vec<(T, u128)>,
}

impl Lin {
    fn push(&mut self, t: T, c: u128) {
        let c = c & ones(self.w);
        if c == 0 {
            return;
        }
        for i in 0..self.ls.len() {
            if self.ls[i].0 == t {
                let n = self.ls[i].1.wrapping_add(c) & ones(self.w);
                if n == 0 {
                    self.ls.swap_remove(i);
                } else {
                    self.ls[i].1 = n;
                }
                return;
            }
        }
        self.ls.push((t, c));
    }
    fn add(&mut self, t: T, c: u128) {
        let n = node(t);
        match n.op {
            Op::Const => self.k = self.k.wrapping_add(n.k1.wrapping_mul(c)) & ones(self.w),
            Op::Add => {
                self.add(n.a, c);
                self.add(n.b, c);
            }
            Op::Mul if node(n.b).op == Op::Const => self.add(n.a, c.wrapping_mul(node(n.b).k1) & ones(self.w)),
            Op::Not if n.w > 1 => {
                self.k = self.k.wrapping_sub(c) & ones(self.w);
                self.add(n.a, c.wrapping_neg() & ones(self.w));
            }
            Op::Concat if node(n.a).op == Op::Const && node(n.a).k1 != 0 => {
                let k = node(n.a).k1 << node(n.b).w;
                self.k = self.k.wrapping_add(k.wrapping_mul(c)) & ones(self.w);
                self.add(zext(n.b, self.w), c);
            }
            Op::Concat if node(n.b).op == Op::Const => {
                let lw = node(n.b).w as u32;
                self.k = self.k.wrapping_add(node(n.b).k1.wrapping_mul(c)) & ones(self.w);
                let x = node(n.a);
                let c2 = (c << lw) & ones(self.w);
                if x.op == Op::Extract && x.b == 0 && width(x.a) == self.w {
                    // the bits cut off are multiples of 2^w
                    self.add(x.a, c2);
                } else {
                    self.add(zext(n.a, self.w), c2);
                }
            }
            Op::Extract if n.b == 0 && matches!(node(n.a).op, Op::Add | Op::Mul) => {
                // a truncated sum is the sum of the truncated parts
                let l = Lin::of(n.a);
                if l.ls.len() == 1 && l.ls[0].0 == n.a {
                    return self.push(t, c);
                }
                self.k = self.k.wrapping_add(l.k.wrapping_mul(c)) & ones(self.w);
                for (x, k) in l.ls {
                    self.add(extract(self.w - 1, 0, x), c.wrapping_mul(k) & ones(self.w));
                }
            }
            _ => self.push(t, c),
        }
    }
    pub fn of(t: T) -> Lin {
        let mut l = Lin { w: width(t), k: 0, ls: vec![] };
        l.add(t, 1);
        l
    }
    pub fn build(mut self) -> T {
        self.ls.sort();
        let w = self.w;
        // sum: leaves first, const last
        let mut acc: Option<T> = None;
        if self.ls.len() == 1 && self.ls[0].1 == ones(w) && self.k == ones(w) {
            return not(self.ls[0].0);
        }
        for (t, c) in &self.ls {
            let x = if *c == 1 {
                *t
            } else if c.is_power_of_two() {
                shl_const(*t, c.trailing_zeros())
            } else {
                mk(Op::Mul, w, *t, cst(w, *c), 0)
            };
            acc = Some(match acc {
                None => x,
                Some(a) => raw_add(a, x),
            });
        }
        match acc {
            None => cst(w, self.k),
            Some(a) => {
                if self.k == 0 {
                    a
                } else {
                    raw_add(a, cst(w, self.k))
                }
            }
        }
    }
}

fn raw_add(a: T, b: T) -> T {
    if let Some(r) = disjoint_join(a, b) {
        return r;
    }
    // low zero bits of the constant: split off the low part if it is constant-zero in one operand
    mk(Op::Add, width(a), a, b, 0)
}

pub fn add(a: T, b: T) -> T {
    let (na, nb) = (node(a), node(b));
    let w = na.w as u32;
    debug_assert_eq!(na.w, nb.w);
    if na.op == Op::Const && nb.op == Op::Const {
        return cst(w, na.k1.wrapping_add(nb.k1));
    }
    if na.op == Op::Const && na.k1 == 0 {
        return b;
    }
    if nb.op == Op::Const && nb.k1 == 0 {
        return a;
    }
    if w == 1 {
        return xor(a, b);
    }
    if let Some(r) = try_lift2(a, b, add) {
        return r;
    }
    let mut l = Lin { w, k: 0, ls: vec![] };
    l.add(a, 1);
    l.add(b, 1);
    if l.ls.len() <= 24 {
        return l.build();
    }
    raw_add(a, b)
}

pub fn neg(a: T) -> T {
    let w = width(a);
    if w == 1 {
        return a;
    }
    if let Some(k) = is_const(a) {
        return cst(w, k.wrapping_neg());
    }
    if node(a).cl > 1 {
        return lift1(a, &mut neg);
    }
    let mut l = Lin { w, k: 0, ls: vec![] };
    l.add(a, ones(w));
    l.build()
}

pub fn sub(a: T, b: T) -> T {
    let w = width(a);
    if a == b {
        return cst(w, 0);
    }
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Const && nb.op == Op::Const {
        return cst(w, na.k1.wrapping_sub(nb.k1));
    }
    if nb.op == Op::Const && nb.k1 == 0 {
        return a;
    }
    if w == 1 {
        return xor(a, b);
    }
    if let Some(r) = try_lift2(a, b, sub) {
        return r;
    }
    let mut l = Lin { w, k: 0, ls: vec![] };
    l.add(a, 1);
    l.add(b, ones(w));
    if l.ls.len() <= 24 {
        return l.build();
    }
    raw_add(a, neg(b))
}

pub fn mul(a: T, b: T) -> T {
    let (na, nb) = (node(a), node(b));
    let w = na.w as u32;
    if na.op == Op::Const && nb.op != Op::Const {
        return mul(b, a);
    }
    if w == 1 {
        return and(a, b);
    }
    if nb.op == Op::Const {
        if na.op == Op::Const {
            return cst(w, na.k1.wrapping_mul(nb.k1));
        }
        if nb.k1 == 0 {
            return b;
        }
        if nb.k1 == 1 {
            return a;
        }
        if na.cl > 1 {
            return lift1(a, &mut |x| mul(x, b));
        }
        if nb.k1.is_power_of_two() {
            return shl_const(a, nb.k1.trailing_zeros());
        }
        let mut l = Lin { w, k: 0, ls: vec![] };
        l.add(a, nb.k1);
        if l.ls.len() <= 4 {
            return l.build();
        }
        return mk(Op::Mul, w, a, b, 0);
    }
    if let Some(r) = try_lift2(a, b, mul) {
        return r;
    }
    let (x, y) = if a < b { (a, b) } else { (b, a) };
    mk(Op::Mul, w, x, y, 0)
}

pub fn shl_const(a: T, k: u32) -> T {
    let w = width(a);
    if k == 0 {
        return a;
    }
    if k >= w {
        return cst(w, 0);
    }
    concat(extract(w - 1 - k, 0, a), cst(k, 0))
}

pub fn shl(a: T, b: T) -> T {
    let w = width(a);
    if let Some(k) = is_const(b) {
        return if k >= w as u128 { cst(w, 0) } else { shl_const(a, k as u32) };
    }
    if node(b).cl > 1 {
        return lift1(b, &mut |x| shl(a, x));
    }
    mk(Op::Shl, w, a, b, 0)
}
pub fn lshr(a: T, b: T) -> T {
    let w = width(a);
    if let Some(k) = is_const(b) {
        if k == 0 {
            return a;
        }
        if k >= w as u128 {
            return cst(w, 0);
        }
        let k = k as u32;
        return concat(cst(k, 0), extract(w - 1, k, a));
    }
    if node(b).cl > 1 {
        return lift1(b, &mut |x| lshr(a, x));
    }
    mk(Op::Lshr, w, a, b, 0)
}
pub fn ashr(a: T, b: T) -> T {
    let w = width(a);
    if let Some(k) = is_const(b) {
        if k == 0 {
            return a;
        }
        let k = (k.min(w as u128 - 1)) as u32;
        return sext(extract(w - 1, k, a), w);
    }
    if node(b).cl > 1 {
        return lift1(b, &mut |x| ashr(a, x));
    }
    mk(Op::Ashr, w, a, b, 0)
}

fn cdiv(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let (sa, sb) = (sx(a, w), sx(b, w));
    ones(w)
        & match op {
            Op::Udiv => {
                if b == 0 {
                    u128::MAX
                } else {
                    a / b
                }
            }
            Op::Urem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::Sdiv => {
                if b == 0 {
                    if sa < 0 {
                        1
                    } else {
                        u128::MAX
                    }
                } else {
                    sa.wrapping_div(sb) as u128
                }
            }
            _ => {
                if b == 0 {
                    a
                } else {
                    sa.wrapping_rem(sb) as u128
                }
            }
        }
}
pub fn div(op: Op, a: T, b: T) -> T {
    let w = width(a);
    let (na, nb) = (node(a), node(b));
    if na.op == Op::Const && nb.op == Op::Const {
        return cst(w, cdiv(op, na.k1, nb.k1, w));
    }
    if nb.op == Op::Const && nb.k1.is_power_of_two() && w > 1 {
        let k = nb.k1.trailing_zeros();
        if op == Op::Udiv {
            return lshr(a, cst(w, k as u128));
        }
        if op == Op::Urem {
            return and(a, cst(w, nb.k1 - 1));
        }
    }
    if nb.cl == 1 && na.cl > 1 {
        return lift1(a, &mut |x| div(op, x, b));
    }
    mk(op, w, a, b, 0)
}

// ---------------------------------------------------------------- structure

pub fn concat(a: T, b: T) -> T {
    let (na, nb) = (node(a), node(b));
    let w = na.w as u32 + nb.w as u32;
    assert!(w <= 128, "concat too wide");
    if na.op == Op::Const && nb.op == Op::Const {
        return cst(w, (na.k1 << nb.w) | nb.k1);
    }
    if na.op == Op::Concat {
        return concat(na.a, concat(na.b, b));
    }
    if na.op == Op::Const && na.k1 == 0 && nb.op == Op::Extract && nb.b == 0 {
        // all of x, when the part cut off is known to be zero
        let x = node(nb.a);
        if x.w as u32 == w && (x.k0 >> nb.w == ones(w - nb.w as u32) || !tm().ranges.is_empty() && umin_max(nb.a).1 <= ones(nb.w as u32)) {
            return nb.a;
        }
    }
    if let Some(r) = join2(a, b) {
        return r;
    }
    if nb.op == Op::Concat {
        if let Some(r) = join2(a, nb.a) {
            return concat(r, nb.b);
        }
    }
    mk(Op::Concat, w, a, b, 0)
}

/// join of two adjacent pieces into something simpler than a concat
fn join2(a: T, b: T) -> Option<T> {
    let (na, nb) = (node(a), node(b));
    let w = na.w as u32 + nb.w as u32;
    if na.op == Op::Const && nb.op == Op::Const {
        return Some(cst(w, (na.k1 << nb.w) | nb.k1));
    }
    if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.b == nb.b + nb.w as u32 {
        return Some(extract(na.b + na.w as u32 - 1, nb.b, na.a));
    }
    // extract of x on top, x itself is the low part (x narrower?) not possible
    if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
        let x = concat(na.b, nb.b);
        let y = concat(na.c, nb.c);
        return Some(ite(na.a, x, y));
    }
    if na.op == Op::Const && nb.cl > 1 {
        return Some(lift1(b, &mut |x| concat(a, x)));
    }
    if nb.op == Op::Const && na.cl > 1 {
        return Some(lift1(a, &mut |x| concat(x, b)));
    }
    None
}

pub fn extract(hi: u32, lo: u32, a: T) -> T {
    let n = node(a);
    let w = n.w as u32;
    debug_assert!(hi >= lo && hi < w);
    if lo == 0 && hi == w - 1 {
        return a;
    }
    let nw = hi - lo + 1;
    let m = ones(nw);
    let (k0, k1) = ((n.k0 >> lo) & m, (n.k1 >> lo) & m);
    if k0 | k1 == m {
        return cst(nw, k1);
    }
    match n.op {
        Op::Extract => return extract(hi + n.b, lo + n.b, n.a),
        Op::Concat => {
            let lw = width(n.b);
            if lo >= lw {
                return extract(hi - lw, lo - lw, n.a);
            }
            if hi < lw {
                return extract(hi, lo, n.b);
            }
            return concat(extract(hi - lw, 0, n.a), extract(lw - 1, lo, n.b));
        }
        Op::Sext => {
            let iw = width(n.a);
            if hi < iw {
                return extract(hi, lo, n.a);
            }
            if lo < iw {
                return sext(extract(iw - 1, lo, n.a), nw);
            }
            return sext(extract(iw - 1, iw - 1, n.a), nw);
        }
        Op::Ite => {
            if n.cl > 1 {
                return lift1(a, &mut |x| extract(hi, lo, x));
            }
            let (x, y) = (node(n.b), node(n.c));
            let good = |z: &Node| matches!(z.op, Op::Const | Op::Concat | Op::Extract | Op::Sext);
            if good(&x) && good(&y) {
                return ite(n.a, extract(hi, lo, n.b), extract(hi, lo, n.c));
            }
        }
        Op::And | Op::Or | Op::Xor if nw == 1 => {
            let x = extract(hi, lo, n.a);
            let y = extract(hi, lo, n.b);
            return match n.op {
                Op::And => and(x, y),
                Op::Or => or(x, y),
                _ => xor(x, y),
            };
        }
        Op::Not if nw == 1 => return not(extract(hi, lo, n.a)),
        _ => {}
    }
    mk(Op::Extract, nw, a, lo, 0)
}

pub fn zext(a: T, w: u32) -> T {
    let aw = width(a);
    if aw == w {
        a
    } else {
        concat(cst(w - aw, 0), a)
    }
}
pub fn sext(a: T, w: u32) -> T {
    let n = node(a);
    let aw = n.w as u32;
    if aw == w {
        return a;
    }
    if n.op == Op::Const {
        return cst(w, sx(n.k1, aw) as u128);
    }
    if n.k0 >> (aw - 1) & 1 == 1 || !tm().ranges.is_empty() && umin_max(a).1 >> (aw - 1) == 0 {
        return zext(a, w);
    }
    if n.cl > 1 {
        return lift1(a, &mut |x| sext(x, w));
    }
    if n.op == Op::Sext {
        return sext(n.a, w);
    }
    if aw == 1 {
        return ite(a, cst(w, u128::MAX), cst(w, 0));
    }
    mk(Op::Sext, w, a, 0, 0)
}

fn eq_const_k(t: T) -> Option<(T, u128)> {
    let n = node(t);
    if n.op != Op::Eq {
        return None;
    }
    if let Some(k) = is_const(n.b) {
        return Some((n.a, k));
    }
    is_const(n.a).map(|k| (n.b, k))
}

pub fn ite(c: T, a: T, b: T) -> T {
    if a == b {
        return a;
    }
    let nc = node(c);
    if nc.op == Op::Const {
        return if nc.k1 == 1 { a } else { b };
    }
    if nc.op == Op::Not {
        return ite(nc.a, b, a);
    }
    let (na, nb) = (node(a), node(b));
    debug_assert_eq!(na.w, nb.w);
    let w = na.w as u32;
    if w == 1 {
        if na.op == Op::Const {
            return if na.k1 == 1 { or(c, b) } else { and(not(c), b) };
        }
        if nb.op == Op::Const {
            return if nb.k1 == 1 { or(not(c), a) } else { and(c, a) };
        }
        if a == c {
            return or(c, b);
        }
        if b == c {
            return and(c, a);
        }
        if is_neg(a, c) {
            return and(not(c), b);
        }
        if is_neg(b, c) {
            return or(not(c), a);
        }
        if is_neg(a, b) {
            // c ? a : !a  = xnor
            return not(xor(c, a));
        }
    }
    if na.op == Op::Ite {
        if na.a == c {
            return ite(c, na.b, b);
        }
        if na.c == b {
            // c ? (d ? x : b) : b
            return ite(and(c, na.a), na.b, b);
        }
        if na.b == b {
            // c ? (d ? b : y) : b
            return ite(and(c, not(na.a)), na.c, b);
        }
    }
    if nb.op == Op::Ite {
        if nb.a == c {
            return ite(c, a, nb.c);
        }
        if nb.b == a {
            return ite(or(c, nb.a), a, nb.c);
        }
        if nb.c == a {
            // c ? a : (d ? x : a)
            return ite(and(not(c), nb.a), nb.b, a);
        }
    }
    // chains of comparisons of one term with constants: ascending order, largest constant last
    if let Some((x, k)) = eq_const_k(c) {
        if let (Op::Ite, Some((y, k2))) = (na.op, eq_const_k(na.a)) {
            if x == y {
                return ite(c, if k == k2 { na.b } else { na.c }, b);
            }
        }
        if let (Op::Ite, Some((y, k2))) = (nb.op, eq_const_k(nb.a)) {
            if x == y {
                if k == k2 {
                    return ite(c, a, nb.c);
                }
                if k2 < k {
                    let r = ite(c, a, nb.c);
                    return ite(nb.a, nb.b, r);
                }
                let wx = width(x);
                if wx <= 4 {
                    let full = umin_max(x).1.min((1 << wx) - 1) as usize + 1;
                    let mut es = vec![(k, a)];
                    let mut t = b;
                    while let (Op::Ite, Some((y, k2))) = (node(t).op, eq_const_k(node(t).a)) {
                        if y != x {
                            break;
                        }
                        es.push((k2, node(t).b));
                        t = node(t).c;
                    }
                    es.retain(|e| (e.0 as usize) < full);
                    if full > 1 && es.len() >= full - 1 && es.windows(2).all(|p| p[0].0 < p[1].0) {
                        if es.len() == full - 1 {
                            let m = (0..full as u128).find(|m| !es.iter().any(|e| e.0 == *m)).unwrap();
                            if m == full as u128 - 1 {
                                return mk(Op::Ite, w, c, a, b);
                            }
                            es.insert(m as usize, (m, t));
                        }
                        let mut r = es[full - 1].1;
                        for (k, v) in es[..full - 1].iter().rev() {
                            if *v != r {
                                r = mk(Op::Ite, w, eq(x, cst(wx, *k)), *v, r);
                            }
                        }
                        return r;
                    }
                }
            }
        }
    }
    if w > 1 && na.op == Op::Concat && nb.op == Op::Concat {
        let (l1, l2) = (width(na.b), width(nb.b));
        if l1 == l2 && (na.a == nb.a || na.b == nb.b) {
            return concat(ite(c, na.a, nb.a), ite(c, na.b, nb.b));
        }
        if na.a == nb.a {
            return concat(na.a, ite(c, na.b, nb.b));
        }
    }
    // common leading known zero part: zext'ed values
    if w > 8 && (na.cl == 0 || nb.cl == 0) {
        let full = ones(w);
        let la = (na.k0 | !full).leading_ones() - (128 - w);
        let lb = (nb.k0 | !full).leading_ones() - (128 - w);
        let l = la.min(lb);
        if l > 0 && l < w && (na.op == Op::Concat || nb.op == Op::Concat) {
            let x = extract(w - 1 - l, 0, a);
            let y = extract(w - 1 - l, 0, b);
            return concat(cst(l, 0), ite(c, x, y));
        }
    }
    mk(Op::Ite, w, c, a, b)
}

pub fn umin_max(t: T) -> (u128, u128) {
    let n = node(t);
    if n.op == Op::Const {
        return (n.k1, n.k1);
    }
    if tm().ranges.is_empty() {
        return (n.k1, !n.k0 & ones(n.w as u32));
    }
    if let Some(r) = tm().ivs.get(&t) {
        return *r;
    }
    let r = interval(t);
    tm().ivs.insert(t, r);
    r
}
/// signed bounds (w <= 96)
pub fn smin_max(t: T) -> (i128, i128) {
    let n = node(t);
    let w = n.w as u32;
    if n.op == Op::Const {
        return (sx(n.k1, w), sx(n.k1, w));
    }
    if let Some(r) = tm().sivs.get(&t) {
        return *r;
    }
    let half = 1i128 << (w - 1);
    let (ul, uh) = umin_max(t);
    let mut r = if uh < half as u128 {
        (ul as i128, uh as i128)
    } else if ul >= half as u128 {
        (sx(ul, w), sx(uh, w))
    } else {
        (-half, half - 1)
    };
    match n.op {
        Op::Ite => {
            let (a, b) = (smin_max(n.b), smin_max(n.c));
            r = (r.0.max(a.0.min(b.0)), r.1.min(a.1.max(b.1)));
        }
        Op::Sext => {
            let a = smin_max(n.a);
            r = (r.0.max(a.0), r.1.min(a.1));
        }
        Op::Add | Op::Mul | Op::Not => {
            let l = Lin::of(t);
            let mut ok = !(l.ls.is_empty() || l.ls.iter().any(|x| x.0 == t));
            let (mut a, mut b) = (sx(l.k, w), sx(l.k, w));
            for (x, c) in &l.ls {
                let (xl, xh) = smin_max(*x);
                let c = sx(*c, w);
                if let (Some(p), Some(q)) = (c.checked_mul(xl), c.checked_mul(xh)) {
                    if let (Some(x), Some(y)) = (a.checked_add(p.min(q)), b.checked_add(p.max(q))) {
                        a = x;
                        b = y;
                        continue;
                    }
                }
                ok = false;
                break;
            }
            if ok && a >= -half && b < half {
                r = (r.0.max(a), r.1.min(b));
            }
        }
        _ => {}
    }
    tm().sivs.insert(t, r);
    r
}
/// unsigned bounds that hold for every value of the variables within their declared ranges
fn interval(t: T) -> (u128, u128) {
    let n = node(t);
    let w = n.w as u32;
    let full = ones(w);
    let (mut lo, mut hi) = (n.k1, !n.k0 & full);
    let r = match n.op {
        Op::Var => tm().ranges.get(&n.a).copied(),
        Op::Concat => {
            let (a, b) = (umin_max(n.a), umin_max(n.b));
            let lw = width(n.b);
            Some((a.0 << lw | b.0, a.1 << lw | b.1))
        }
        Op::Ite => {
            let (a, b) = (umin_max(n.b), umin_max(n.c));
            Some((a.0.min(b.0), a.1.max(b.1)))
        }
        Op::Add | Op::Mul => {
            // a sum of multiples; coefficients above half the modulus count as negative
            let l = if n.op == Op::Add {
                let mut l = Lin { w, k: 0, ls: vec![] };
                l.add(t, 1);
                l
            } else {
                match is_const(n.b) {
                    Some(k) => Lin { w, k: 0, ls: vec![(n.a, k)] },
                    None => Lin { w, k: 0, ls: vec![] },
                }
            };
            if w > 96 || l.ls.is_empty() || l.ls.iter().any(|x| x.0 == t) {
                None
            } else {
                let s = |c: u128| sx(c, w);
                let (mut a, mut b) = (s(l.k), s(l.k));
                let mut ok = true;
                for (x, c) in &l.ls {
                    let (xl, xh) = umin_max(*x);
                    let c = s(*c);
                    match (c.checked_mul(xl as i128), c.checked_mul(xh as i128)) {
                        (Some(p), Some(q)) => {
                            match (a.checked_add(p.min(q)), b.checked_add(p.max(q))) {
                                (Some(x), Some(y)) => {
                                    a = x;
                                    b = y;
                                }
                                _ => ok = false,
                            }
                        }
                        _ => ok = false,
                    }
                }
                if ok && a >= 0 && b as u128 <= full {
                    Some((a as u128, b as u128))
                } else {
                    None
                }
            }
        }
        Op::And => Some((0, umin_max(n.a).1.min(umin_max(n.b).1))),
        Op::Extract => {
            // low part of something small, or any part by division
            let (a, b) = umin_max(n.a);
            let (sh, m) = (n.b, full);
            if (a >> sh) == 0 && (b >> sh) <= m || (b >> sh) <= m {
                Some((a >> sh, b >> sh))
            } else {
                None
            }
        }
        Op::Sext => {
            let iw = width(n.a);
            let (a, b) = umin_max(n.a);
            if b < 1u128 << (iw - 1) {
                Some((a, b))
            } else {
                None
            }
        }
        _ => None,
    };
    if let Some((a, b)) = r {
        lo = lo.max(a);
        hi = hi.min(b);
    }
    (lo, hi)
}

pub fn eq(a: T, b: T) -> T {
    if a == b {
        return TRUE;
    }
    let (na, nb) = (node(a), node(b));
    debug_assert_eq!(na.w, nb.w, "eq widths");
    let w = na.w as u32;
    if na.op == Op::Const && nb.op != Op::Const {
        return eq(b, a);
    }
    if na.k0 & nb.k1 != 0 || na.k1 & nb.k0 != 0 {
        return FALSE;
    }
    if w == 1 {
        return not(xor(a, b));
    }
    if !tm().ranges.is_empty() {
        let ((al, ah), (bl, bh)) = (umin_max(a), umin_max(b));
        if ah < bl || bh < al {
            return FALSE;
        }
    }
    if nb.op == Op::Const {
        if na.op == Op::Const {
            return FALSE;
        }
        if matches!(na.op, Op::Var | Op::Extract) && !tm().ranges.is_empty() {
            // only as many bits as the value can have
            let (_, ah) = umin_max(a);
            let k = (128 - ah.leading_zeros()).max(1);
            if k < w {
                return eq(extract(k - 1, 0, a), cst(k, nb.k1));
            }
        }
        match na.op {
            Op::Concat => {
                let lw = width(na.b);
                let h = eq(na.a, cst(w - lw, nb.k1 >> lw));
                if h == FALSE {
                    return FALSE;
                }
                let l = eq(na.b, cst(lw, nb.k1));
                return and(h, l);
            }
            Op::Ite => {
                if na.cl > 1 {
                    return lift1(a, &mut |x| eq(x, b));
                }
                let (x, y) = (node(na.b), node(na.c));
                let cf = |n: &Node| n.op == Op::Const || n.k0 & nb.k1 != 0 || n.k1 & nb.k0 != 0;
                if cf(&x) || cf(&y) {
                    return ite(na.a, eq(na.b, b), eq(na.c, b));
                }
            }
            Op::Not => return eq(na.a, cst(w, !nb.k1)),
            Op::Xor => {
                if node(na.b).op == Op::Const {
                    return eq(na.a, cst(w, node(na.b).k1 ^ nb.k1));
                }
                if nb.k1 == 0 {
                    return eq(na.a, na.b);
                }
            }
            Op::Sext => {
                let iw = width(na.a);
                let k = nb.k1;
                if (sx(k, iw) as u128) & ones(w) == k {
                    return eq(na.a, cst(iw, k));
                }
                return FALSE;
            }
            Op::Add | Op::Mul => {
                let mut l = Lin::of(a);
                if l.ls.len() == 1 && l.ls[0].1 & 1 == 1 && (l.k != 0 || l.ls[0].1 != 1) {
                    // c*x + k == v  ->  x == (v-k) * c^-1
                    let c = l.ls[0].1;
                    let mut inv: u128 = 1;
                    for _ in 0..7 {
                        inv = inv.wrapping_mul(2u128.wrapping_sub(c.wrapping_mul(inv)));
                    }
                    let v = nb.k1.wrapping_sub(l.k).wrapping_mul(inv);
                    return eq(l.ls[0].0, cst(w, v));
                }
                if l.k != 0 {
                    let v = nb.k1.wrapping_sub(l.k);
                    l.k = 0;
                    return eq(l.build(), cst(w, v));
                }
            }
            _ => {}
        }
        return mk(Op::Eq, 1, a, b, 0);
    }
    if let Some(r) = try_lift2(a, b, eq) {
        return r;
    }
    if na.op == Op::Concat && nb.op == Op::Concat && width(na.b) == width(nb.b) {
        let h = eq(na.a, nb.a);
        if h == FALSE {
            return FALSE;
        }
        return and(h, eq(na.b, nb.b));
    }
    // zero-extended operand against anything
    if na.op == Op::Concat && node(na.a).op == Op::Const || nb.op == Op::Concat && node(nb.a).op == Op::Const {
        let lw = if na.op == Op::Concat && node(na.a).op == Op::Const { width(na.b) } else { width(nb.b) };
        let h = eq(extract(w - 1, lw, a), extract(w - 1, lw, b));
        if h == FALSE {
            return FALSE;
        }
        return and(h, eq(extract(lw - 1, 0, a), extract(lw - 1, 0, b)));
    }
    for (x, nx, y) in [(a, na, b), (b, nb, a)] {
        let _ = x;
        if nx.op == Op::Ite {
            if nx.b == y {
                return or(nx.a, eq(nx.c, y));
            }
            if nx.c == y {
                return or(not(nx.a), eq(nx.b, y));
            }
        }
    }
    if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
        return ite(na.a, eq(na.b, nb.b), eq(na.c, nb.c));
    }
    // linear difference
    let lin = |n: &Node| matches!(n.op, Op::Add | Op::Mul | Op::Not) || n.op == Op::Extract && n.b == 0 && matches!(node(n.a).op, Op::Add | Op::Mul);
    if lin(&na) || lin(&nb) {
        let mut l = Lin { w, k: 0, ls: vec![] };
        l.add(a, 1);
        l.add(b, ones(w));
        if l.ls.is_empty() {
            return boolc(l.k == 0);
        }
        if l.ls.len() == 1 {
            let v = l.k.wrapping_neg();
            let c = l.ls[0].1;
            if c == 1 {
                return eq(l.ls[0].0, cst(w, v));
            }
            if c == ones(w) {
                return eq(l.ls[0].0, cst(w, l.k));
            }
        } else if l.ls.len() == 2 {
            // x - y + k == 0  ->  order canonical: smaller id on the left, coefficient 1
            l.ls.sort();
            let (x, cx) = l.ls[0];
            let (y, cy) = l.ls[1];
            let m1 = ones(w);
            if (cx == 1 && cy == m1) || (cx == m1 && cy == 1) {
                let k = if cx == 1 { l.k } else { l.k.wrapping_neg() & m1 };
                // x + k == y
                let lhs = if k == 0 { x } else { raw_add_k(x, k, w) };
                if lhs == y {
                    return TRUE;
                }
                return eq_raw(lhs, y);
            }
        }
    }
    eq_raw(a, b)
}
fn raw_add_k(x: T, k: u128, w: u32) -> T {
    raw_add(x, cst(w, k))
}
fn eq_raw(a: T, b: T) -> T {
    let (x, y) = if a < b { (a, b) } else { (b, a) };
    mk(Op::Eq, 1, x, y, 0)
}
pub fn ne(a: T, b: T) -> T {
    not(eq(a, b))
}

pub fn ult(a: T, b: T) -> T {
    if a == b {
        return FALSE;
    }
    let (na, nb) = (node(a), node(b));
    debug_assert_eq!(na.w, nb.w);
    let w = na.w as u32;
    let (amin, amax) = umin_max(a);
    let (bmin, bmax) = umin_max(b);
    if amax < bmin {
        return TRUE;
    }
    if amin >= bmax {
        return FALSE;
    }
    if w == 1 {
        return and(not(a), b);
    }
    if nb.op == Op::Const && nb.k1 == 1 {
        return eq(a, cst(w, 0));
    }
    if na.op == Op::Const && na.k1 == 0 {
        return ne(b, a);
    }
    if nb.op == Op::Const && nb.k1 == ones(w) {
        return ne(a, b);
    }
    if na.op == Op::Const && na.k1 == ones(w) - 1 {
        return eq(b, cst(w, ones(w)));
    }
    if let Some(r) = try_lift2(a, b, ult) {
        return r;
    }
    // common known leading bits
    let full = ones(w);
    let kn = ((na.k0 | na.k1) & (nb.k0 | nb.k1)) | !full;
    let l = kn.leading_ones() - (128 - w);
    if l > 0 && l < w {
        let hi = |n: &Node| n.k1 >> (w - l);
        if hi(&na) == hi(&nb) {
            return ult(extract(w - 1 - l, 0, a), extract(w - 1 - l, 0, b));
        }
        return boolc(hi(&na) < hi(&nb));
    }
    if nb.op == Op::Const && nb.k1 != 0 && nb.k1.is_power_of_two() {
        // a < 2^k  <=> high bits zero
        let k = nb.k1.trailing_zeros();
        return eq(extract(w - 1, k, a), cst(w - k, 0));
    }
    if na.op == Op::Const && (na.k1 + 1).is_power_of_two() && na.k1 + 1 <= full {
        // 2^k - 1 < b <=> high bits non-zero
        let k = (na.k1 + 1).trailing_zeros();
        return ne(extract(w - 1, k, b), cst(w - k, 0));
    }
    if na.op == Op::Ite && nb.op == Op::Const && (node(na.b).op == Op::Const || node(na.c).op == Op::Const) {
        return ite(na.a, ult(na.b, b), ult(na.c, b));
    }
    mk(Op::Ult, 1, a, b, 0)
}
pub fn ule(a: T, b: T) -> T {
    not(ult(b, a))
}
pub fn slt(a: T, b: T) -> T {
    if a == b {
        return FALSE;
    }
    let (na, nb) = (node(a), node(b));
    let w = na.w as u32;
    if w == 1 {
        return and(a, not(b));
    }
    let s = w - 1;
    let sa = (na.k0 >> s & 1, na.k1 >> s & 1);
    let sb = (nb.k0 >> s & 1, nb.k1 >> s & 1);
    if (sa.0 | sa.1) == 1 && (sb.0 | sb.1) == 1 {
        if sa == sb {
            return ult(a, b);
        }
        return boolc(sa.1 == 1);
    }
    if !tm().ranges.is_empty() && umin_max(a).1 >> s == 0 && umin_max(b).1 >> s == 0 {
        return ult(a, b);
    }
    if nb.op == Op::Const && nb.k1 == 0 {
        return extract(s, s, a);
    }
    if na.op == Op::Const && na.k1 == ones(w) {
        // -1 < b
        return not(extract(s, s, b));
    }
    if let Some(r) = try_lift2(a, b, slt) {
        return r;
    }
    // signed range for sext operands
    let rng = |t: T| -> (i128, i128) {
        let n = node(t);
        // unknown bits chosen to minimise / maximise
        let m = ones(w - 1);
        let sgn = 1u128 << s;
        let min = if n.k0 & sgn != 0 { n.k1 & m } else { (n.k1 & m) | sgn };
        let max = if n.k1 & sgn != 0 { ((!n.k0) & m) | sgn } else { (!n.k0) & m };
        let (mut lo, mut hi) = (sx(min, w), sx(max, w));
        if n.op == Op::Sext {
            let iw = width(n.a);
            lo = lo.max(-(1i128 << (iw - 1)));
            hi = hi.min((1i128 << (iw - 1)) - 1);
        }
        (lo, hi)
    };
    if w < 128 {
        let (mut al, mut ah) = rng(a);
        let (mut bl, mut bh) = rng(b);
        if w <= 96 && !tm().ranges.is_empty() {
            let (x, y) = (smin_max(a), smin_max(b));
            (al, ah) = (al.max(x.0), ah.min(x.1));
            (bl, bh) = (bl.max(y.0), bh.min(y.1));
        }
        if ah < bl {
            return TRUE;
        }
        if al >= bh {
            return FALSE;
        }
    }
    mk(Op::Slt, 1, a, b, 0)
}
pub fn sle(a: T, b: T) -> T {
    not(slt(b, a))
}

/// array read; `idx` has the array's index width
pub fn select(arr: u32, idx: T) -> T {
    let a = &tm().arrays[arr as usize];
    debug_assert_eq!(width(idx), a.iw);
    if let Some(k) = is_const(idx) {
        if let Some(v) = a.pins.get(&(k as u64)) {
            return cst(8, *v as u128);
        }
    }
    let n = node(idx);
    if n.cl > 1 {
        return lift1(idx, &mut |x| select(arr, x));
    }
    mk(Op::Select, 8, arr, idx, 0)
}

// ---------------------------------------------------------------- models

#[derive(Default)]
pub struct Model {
    pub vars: HashMap<u32, u128>,
    pub arrays: HashMap<u32, HashMap<u64, u8>>,
    pub dflt: HashMap<u32, u8>,
    pub cache: RefCell<HashMap<T, u128, Fx>>,
}

impl Model {
    pub fn arr(&self, arr: u32, i: u64) -> u8 {
        if let Some(v) = tm().arrays[arr as usize].pins.get(&i) {
            return *v;
        }
        if let Some(v) = self.arrays.get(&arr).and_then(|m| m.get(&i)) {
            return *v;
        }
        self.dflt.get(&arr).copied().unwrap_or(0)
    }
    pub fn eval(&self, t: T) -> u128 {
        let n = node(t);
        if n.op == Op::Const {
            return n.k1;
        }
        let mut c = self.cache.borrow_mut();
        if let Some(v) = c.get(&t) {
            return *v;
        }
        // iterative post-order
        let mut st: Vec<T> = vec![t];
        while let Some(&x) = st.last() {
            if c.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = node(x);
            let missc = std::cell::Cell::new(false);
            let mut need = |y: T, c: &HashMap<T, u128, Fx>| -> u128 {
                let ny = node(y);
                if ny.op == Op::Const {
                    return ny.k1;
                }
                match c.get(&y) {
                    Some(v) => *v,
                    None => {
                        st.push(y);
                        missc.set(true);
                        0
                    }
                }
            };
            let w = n.w as u32;
            let m = ones(w);
            let v: u128 = match n.op {
                Op::Const => n.k1,
                Op::Var => self.vars.get(&n.a).copied().unwrap_or(0) & m,
                Op::Not => !need(n.a, &c) & m,
                Op::Ite => {
                    let g = need(n.a, &c);
                    if missc.get() {
                        0
                    } else if g == 1 {
                        need(n.b, &c)
                    } else {
                        need(n.c, &c)
                    }
                }
                Op::Extract => (need(n.a, &c) >> n.b) & m,
                Op::Sext => {
                    let iw = width(n.a);
                    sx(need(n.a, &c), iw) as u128 & m
                }
                Op::Select => {
                    let i = need(n.b, &c);
                    if missc.get() {
                        0
                    } else {
                        self.arr(n.a, i as u64) as u128
                    }
                }
                _ => {
                    let a = need(n.a, &c);
                    let b = need(n.b, &c);
                    let aw = width(n.a);
                    match n.op {
                        Op::And => a & b,
                        Op::Or => a | b,
                        Op::Xor => a ^ b,
                        Op::Add => a.wrapping_add(b) & m,
                        Op::Mul => a.wrapping_mul(b) & m,
                        Op::Udiv | Op::Urem | Op::Sdiv | Op::Srem => cdiv(n.op, a, b, w),
                        Op::Shl => {
                            if b >= w as u128 {
                                0
                            } else {
                                (a << b) & m
                            }
                        }
                        Op::Lshr => {
                            if b >= w as u128 {
                                0
                            } else {
                                a >> b
                            }
                        }
                        Op::Ashr => {
                            let k = b.min(w as u128 - 1);
                            (sx(a, w) >> k) as u128 & m
                        }
                        Op::Concat => (a << width(n.b)) | b,
                        Op::Eq => (a == b) as u128,
                        Op::Ult => (a < b) as u128,
                        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
                        _ => unreachable!(),
                    }
                }
            };
            if !missc.get() {
                c.insert(x, v);
                st.pop();
            }
        }
        c[&t]
    }
    pub fn holds(&self, t: T) -> bool {
        self.eval(t) == 1
    }
}

pub type RcModel = Rc<Model>;

pub fn show(t: T, depth: u32) -> String {
    let n = node(t);
    match n.op {
        Op::Const => format!("{:#x}:{}", n.k1, n.w),
        Op::Var => tm().vars[n.a as usize].0.clone(),
        _ if depth == 0 => format!("#{}", t),
        Op::Select => format!("{}[{}]", tm().arrays[n.a as usize].name, show(n.b, depth - 1)),
        Op::Extract => format!("{}[{}:{}]", show(n.a, depth - 1), n.b + n.w as u32 - 1, n.b),
        Op::Not => format!("~{}", show(n.a, depth - 1)),
        Op::Sext => format!("sext{}({})", n.w, show(n.a, depth - 1)),
        Op::Ite => format!("ite({}, {}, {})", show(n.a, depth - 1), show(n.b, depth - 1), show(n.c, depth - 1)),
        _ => format!("{:?}({}, {})", n.op, show(n.a, depth - 1), show(n.b, depth - 1)),
    }
}

/// all terms reachable from `roots`, children first
pub fn topo(roots: &[T], seen: &mut std::collections::HashSet<T, Fx>) -> Vec<T> {
    let mut out = vec![];
    let mut st: Vec<(T, bool)> = roots.iter().rev().map(|r| (*r, false)).collect();
    while let Some((t, done)) = st.pop() {
        if done {
            out.push(t);
            continue;
        }
        if !seen.insert(t) {
            continue;
        }
        st.push((t, true));
        let n = node(t);
        let mut p = |x: T| {
            if !seen.contains(&x) {
                st.push((x, false))
            }
        };
        match n.op {
            Op::Const | Op::Var => {}
            Op::Not | Op::Extract | Op::Sext => p(n.a),
            Op::Select => p(n.b),
            Op::Ite => {
                p(n.a);
                p(n.b);
                p(n.c)
            }
            _ => {
                p(n.a);
                p(n.b)
            }
        }
    }
    out
}

/// variable with declared bounds (the caller adds them to the path condition)
pub fn var_range(name: &str, w: u32, lo: u128, hi: u128) -> T {
    let m = tm();
    let vi = m.vars.len() as u32;
    m.ranges.insert(vi, (lo, hi));
    let t = var(name, w);
    let lead = if hi == 0 { w } else { w - (128 - hi.leading_zeros()) };
    let n = &mut tm().nodes[t as usize];
    if lead > 0 {
        n.k0 = ones(w) & !(ones(w) >> lead);
    }
    tm().ivs.clear();
    tm().sivs.clear();
    t
}

/// a <= b without simplification
pub fn raw_ule(a: T, b: T) -> T {
    let l = mk(Op::Ult, 1, b, a, 0);
    mk(Op::Not, 1, l, 0, 0)
}
