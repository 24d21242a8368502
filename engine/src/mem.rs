//! Copy-on-write memory model: every allocation is an object made of 64-byte pages; each byte is
//! concrete or a byte of a term. An object range may also be a symbolic array with a write log.
use crate::term::*;
use std::rc::Rc;

pub const PG: usize = 64;
pub const NONE: u64 = u64::MAX;

#[inline]
pub fn cell(t: T, k: u32) -> u64 {
    (t as u64) << 8 | k as u64
}
#[inline]
pub fn cell_t(c: u64) -> (T, u32) {
    ((c >> 8) as T, (c & 0xff) as u32)
}

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PG],
    pub sym: Option<Box<[u64; PG]>>,
}

#[derive(Clone)]
pub struct Seg {
    pub off: u64,
    pub len: u64,
    pub arr: u32,
    /// index of the first byte, index width
    pub base: u64,
    pub iw: u32,
    /// (guard, index, byte) oldest first
    pub log: Rc<Vec<(T, T, T)>>,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub pages: Vec<Option<Rc<Page>>>,
    pub segs: Vec<Seg>,
    /// large ranges set by one memset: arrays that become segments when indexed symbolically
    pub hints: Vec<(u64, u64)>,
}
/// The array of a segment whose initial bytes are all zero.
pub const ZERO_ARR: u32 = u32::MAX;

#[derive(Clone, Copy, Debug)]
pub enum R {
    C(u128),
    T(T),
}
impl R {
    pub fn term(self, w: u32) -> T {
        match self {
            R::C(v) => cst(w, v),
            R::T(t) => t,
        }
    }
    pub fn of(t: T) -> R {
        match is_const(t) {
            Some(v) => R::C(v),
            None => R::T(t),
        }
    }
}

impl Seg {
    pub fn iw(&self) -> u32 {
        self.iw
    }
    /// index of the byte at an offset of the object
    pub fn ix(&self, off: u64) -> T {
        cst(self.iw, (off - self.off + self.base) as u128)
    }
    pub fn read(&self, idx: T) -> T {
        let mut conds: Vec<(T, T)> = vec![];
        let mut base = None;
        for (g, i, v) in self.log.iter().rev() {
            let e = eq(*i, idx);
            if e == FALSE {
                continue;
            }
            let c = and(*g, e);
            if c == FALSE {
                continue;
            }
            if c == TRUE {
                base = Some(*v);
                break;
            }
            conds.push((c, *v));
        }
        let mut r = base.unwrap_or_else(|| if self.arr == ZERO_ARR { cst(8, 0) } else { select(self.arr, idx) });
        for (c, v) in conds.into_iter().rev() {
            r = ite(c, v, r);
        }
        r
    }
    pub fn write(&mut self, g: T, idx: T, v: T) {
        // identical write repeated: nothing to do
        Rc::make_mut(&mut self.log).push((g, idx, v));
    }
}

impl Obj {
    pub fn new(size: u64) -> Obj {
        Obj { size, pages: vec![None; ((size as usize) + PG - 1) / PG], segs: vec![], hints: vec![] }
    }
    #[inline]
    pub fn seg_at(&self, off: u64) -> Option<usize> {
        if self.segs.is_empty() {
            return None;
        }
        self.segs.iter().position(|s| off >= s.off && off < s.off + s.len)
    }
    fn page_mut(&mut self, p: usize) -> &mut Page {
        let e = &mut self.pages[p];
        if e.is_none() {
            *e = Some(Rc::new(Page { data: [0; PG], sym: None }));
        }
        Rc::make_mut(e.as_mut().unwrap())
    }
    /// concrete read fast path; None if any byte is symbolic or in a segment
    #[inline]
    pub fn read_c(&self, off: u64, n: u64) -> Option<u128> {
        if !self.segs.is_empty() && self.segs.iter().any(|s| off < s.off + s.len && s.off < off + n) {
            return None;
        }
        let (p, o) = ((off as usize) / PG, (off as usize) % PG);
        if o + n as usize <= PG && n <= 16 {
            match &self.pages[p] {
                None => return Some(0),
                Some(pg) => {
                    if let Some(s) = &pg.sym {
                        for k in 0..n as usize {
                            if s[o + k] != NONE {
                                return None;
                            }
                        }
                    }
                    let mut b = [0u8; 16];
                    b[..n as usize].copy_from_slice(&pg.data[o..o + n as usize]);
                    return Some(u128::from_le_bytes(b));
                }
            }
        }
        let mut v = 0u128;
        for k in 0..n {
            let (c, d) = self.byte(off + k);
            if c != NONE {
                return None;
            }
            v |= (d as u128) << (8 * k);
        }
        Some(v)
    }
    /// byte outside segments: (cell or NONE, data)
    #[inline]
    pub fn byte(&self, off: u64) -> (u64, u8) {
        let (p, o) = ((off as usize) / PG, (off as usize) % PG);
        match &self.pages[p] {
            None => (NONE, 0),
            Some(pg) => (pg.sym.as_ref().map_or(NONE, |s| s[o]), pg.data[o]),
        }
    }
    pub fn set_byte(&mut self, off: u64, c: u64, d: u8) {
        let (p, o) = ((off as usize) / PG, (off as usize) % PG);
        let pg = self.page_mut(p);
        pg.data[o] = d;
        match &mut pg.sym {
            Some(s) => s[o] = c,
            None => {
                if c != NONE {
                    let mut s = Box::new([NONE; PG]);
                    s[o] = c;
                    pg.sym = Some(s);
                }
            }
        }
    }
    /// read n bytes at a constant offset
    pub fn read(&self, off: u64, n: u64) -> R {
        if n <= 16 {
            if let Some(v) = self.read_c(off, n) {
                return R::C(v);
            }
        }
        let mut acc: Option<T> = None;
        let mut k = 0;
        while k < n {
            let piece;
            if let Some(s) = self.seg_at(off + k) {
                let s = &self.segs[s];
                piece = s.read(s.ix(off + k));
                k += 1;
            } else {
                let (c, d) = self.byte(off + k);
                if c == NONE {
                    piece = cst(8, d as u128);
                    k += 1;
                } else {
                    let (t, b) = cell_t(c);
                    let mut m = 1;
                    while k + m < n && b as u64 + m < 16 && self.seg_at(off + k + m).is_none() && self.byte(off + k + m).0 == cell(t, b + m as u32) {
                        m += 1;
                    }
                    piece = extract(8 * (b + m as u32) - 1, 8 * b, t);
                    k += m;
                }
            }
            acc = Some(match acc {
                None => piece,
                Some(l) => concat(piece, l),
            });
        }
        R::of(acc.unwrap())
    }
    pub fn write(&mut self, off: u64, n: u64, v: R) {
        if !self.segs.is_empty() && self.segs.iter().any(|s| off < s.off + s.len && s.off < off + n) {
            for k in 0..n {
                let b = match v {
                    R::C(x) => cst(8, x >> (8 * k)),
                    R::T(t) => extract(8 * k as u32 + 7, 8 * k as u32, t),
                };
                if let Some(s) = self.seg_at(off + k) {
                    let s = &mut self.segs[s];
                    let ix = s.ix(off + k);
                    s.write(TRUE, ix, b);
                } else {
                    match is_const(b) {
                        Some(x) => self.set_byte(off + k, NONE, x as u8),
                        None => self.set_byte(off + k, cell(b, 0), 0),
                    }
                }
            }
            return;
        }
        let (p, o) = ((off as usize) / PG, (off as usize) % PG);
        match v {
            R::C(x) => {
                if o + n as usize <= PG {
                    let b = x.to_le_bytes();
                    let pg = self.page_mut(p);
                    pg.data[o..o + n as usize].copy_from_slice(&b[..n as usize]);
                    if let Some(s) = &mut pg.sym {
                        for k in 0..n as usize {
                            s[o + k] = NONE;
                        }
                    }
                } else {
                    for k in 0..n {
                        self.set_byte(off + k, NONE, (x >> (8 * k)) as u8);
                    }
                }
            }
            R::T(t) => {
                // keep concrete parts concrete
                let nd = node(t);
                for k in 0..n {
                    let m = 0xffu128;
                    let (k0, k1) = ((nd.k0 >> (8 * k)) & m, (nd.k1 >> (8 * k)) & m);
                    if k0 | k1 == m && nd.op == Op::Concat {
                        self.set_byte(off + k, NONE, k1 as u8);
                    } else {
                        self.set_byte(off + k, cell(t, k as u32), 0);
                    }
                }
            }
        }
    }
    /// The hinted range that an access near `at` probably means.
    pub fn hint(&self, at: u64) -> Option<(u64, u64)> {
        self.hints.iter().find(|h| at >= h.0 && at < h.0 + h.1).or(if self.hints.len() == 1 { self.hints.first() } else { None }).copied()
    }
    /// Turns a range into a segment.
    pub fn to_seg(&mut self, off: u64, len: u64) -> bool {
        self.hints.retain(|h| !(h.0 < off + len && off < h.0 + h.1));
        if self.segs.iter().any(|s| off < s.off + s.len && s.off < off + len) {
            return false;
        }
        let mut seg = Seg { off, len, arr: ZERO_ARR, base: 0, iw: 64 - (len - 1).leading_zeros(), log: Rc::new(vec![]) };
        let iw = seg.iw();
        let mut k = 0;
        while k < len {
            if (off + k) % PG as u64 == 0 && self.pages[(off + k) as usize / PG].is_none() {
                k += PG as u64;
                continue;
            }
            let (c, d) = self.byte(off + k);
            if c != NONE || d != 0 {
                if seg.log.len() > 4096 {
                    return false;
                }
                let v = if c == NONE {
                    cst(8, d as u128)
                } else {
                    let (t, q) = cell_t(c);
                    extract(8 * q + 7, 8 * q, t)
                };
                seg.write(TRUE, cst(iw, k as u128), v);
            }
            k += 1;
        }
        self.segs.push(seg);
        true
    }
    pub fn fill(&mut self, off: u64, n: u64, b: u8) {
        self.hints.retain(|h| !(h.0 < off + n && off < h.0 + h.1));
        if n >= 32768 {
            self.hints.push((off, n));
        }
        self.segs.retain(|s| !(s.off >= off && s.off + s.len <= off + n));
        let mut k = off;
        let e = off + n;
        while k < e {
            if self.seg_at(k).is_some() {
                self.write(k, 1, R::C(b as u128));
                k += 1;
                continue;
            }
            let o = k as usize % PG;
            if o == 0 && e - k >= PG as u64 && self.segs.is_empty() {
                self.pages[k as usize / PG] = if b == 0 { None } else { Some(Rc::new(Page { data: [b; PG], sym: None })) };
                k += PG as u64;
            } else {
                self.set_byte(k, NONE, b);
                k += 1;
            }
        }
    }
    /// copy n bytes from src (may be the same object, passed as a clone)
    pub fn copy_from(&mut self, off: u64, src: &Obj, soff: u64, n: u64) -> Result<(), String> {
        if n >= 32768 {
            self.hints.retain(|h| !(h.0 < off + n && off < h.0 + h.1));
            for h in &src.hints {
                let (lo, hi) = (h.0.max(soff), (h.0 + h.1).min(soff + n));
                if lo + 32768 <= hi {
                    self.hints.push((lo - soff + off, hi - lo));
                }
            }
        }
        // destination segments fully covered vanish
        self.segs.retain(|s| !(s.off >= off && s.off + s.len <= off + n));
        let mut k = 0;
        while k < n {
            if let Some(si) = src.seg_at(soff + k) {
                let s = &src.segs[si];
                if s.off == soff + k && s.len <= n - k {
                    // whole segment moves
                    let d = off + k;
                    if self.segs.iter().any(|x| d < x.off + x.len && x.off < d + s.len) {
                        return Err("segment copied over part of another segment".into());
                    }
                    self.segs.push(Seg { off: d, len: s.len, arr: s.arr, base: s.base, iw: s.iw, log: s.log.clone() });
                    k += s.len;
                    continue;
                }
                let m = (n - k).min(s.off + s.len - soff - k);
                if m >= 4096 {
                    // part of a segment
                    let d = off + k;
                    if self.segs.iter().any(|x| d < x.off + x.len && x.off < d + m) {
                        return Err("segment copied over part of another segment".into());
                    }
                    self.segs.push(Seg { off: d, len: m, arr: s.arr, base: s.base + soff + k - s.off, iw: s.iw, log: s.log.clone() });
                    k += m;
                    continue;
                }
                if m > 64 {
                    return Err("partial copy of a symbolic segment".into());
                }
                let b = s.read(s.ix(soff + k));
                self.write(off + k, 1, R::of(b));
                k += 1;
                continue;
            }
            let (d, s) = (off + k, soff + k);
            let dst_seg = self.seg_at(d).is_some();
            if !dst_seg && d % PG as u64 == 0 && s % PG as u64 == 0 && n - k >= PG as u64 && !self.segs.iter().any(|x| d < x.off + x.len && x.off < d + PG as u64) && !src.segs.iter().any(|x| s < x.off + x.len && x.off < s + PG as u64) {
                self.pages[d as usize / PG] = src.pages[s as usize / PG].clone();
                k += PG as u64;
                continue;
            }
            let (c, b) = src.byte(s);
            if dst_seg {
                let v = if c == NONE {
                    R::C(b as u128)
                } else {
                    let (t, q) = cell_t(c);
                    R::of(extract(8 * q + 7, 8 * q, t))
                };
                self.write(d, 1, v);
            } else {
                // skip writing zero into an absent page
                if !(c == NONE && b == 0 && self.pages[d as usize / PG].is_none()) {
                    self.set_byte(d, c, b);
                }
            }
            k += 1;
        }
        Ok(())
    }
}

fn cell_term(c: u64, d: u8) -> T {
    if c == NONE {
        cst(8, d as u128)
    } else {
        let (t, k) = cell_t(c);
        extract(8 * k + 7, 8 * k, t)
    }
}

/// merge of two versions: c ? a : b
pub fn merge_obj(c: T, a: &Rc<Obj>, b: &Rc<Obj>) -> Option<Rc<Obj>> {
    if Rc::ptr_eq(a, b) {
        return Some(a.clone());
    }
    // segments
    if a.segs.len() != b.segs.len() || a.hints != b.hints {
        return None;
    }
    let mut r: Obj = if a.size >= b.size { (**a).clone() } else { (**b).clone() };
    let (big_is_a, small) = if a.size >= b.size { (true, b) } else { (false, a) };
    let _ = big_is_a;
    r.segs.clear();
    for s in &a.segs {
        let Some(z) = b.segs.iter().find(|z| z.off == s.off && z.len == s.len && z.arr == s.arr && z.base == s.base) else { return None };
        if Rc::ptr_eq(&s.log, &z.log) {
            r.segs.push(s.clone());
            continue;
        }
        let common = s.log.iter().zip(z.log.iter()).take_while(|(x, y)| x == y).count();
        let mut log: Vec<(T, T, T)> = s.log[..common].to_vec();
        let (sa, sb) = (&s.log[common..], &z.log[common..]);
        // pair up writes to the same index, in order, when both sides have the same shape
        if sa.len() == sb.len() && sa.iter().zip(sb).all(|(x, y)| x.1 == y.1) {
            for (x, y) in sa.iter().zip(sb) {
                log.push((ite(c, x.0, y.0), x.1, ite(c, x.2, y.2)));
            }
        } else {
            let nc = not(c);
            for x in sa {
                log.push((and(c, x.0), x.1, x.2));
            }
            for y in sb {
                log.push((and(nc, y.0), y.1, y.2));
            }
        }
        r.segs.push(Seg { off: s.off, len: s.len, arr: s.arr, base: s.base, iw: s.iw, log: Rc::new(log) });
    }
    let np = small.pages.len();
    for p in 0..np {
        let (pa, pb) = (&a.pages[p], &b.pages[p]);
        match (pa, pb) {
            (None, None) => continue,
            (Some(x), Some(y)) if Rc::ptr_eq(x, y) => continue,
            _ => {}
        }
        let base = (p * PG) as u64;
        let lim = (PG as u64).min(small.size - base);
        // page of r starts as the bigger object's page
        let mut o = 0u64;
        while o < lim {
            let (ca, da) = a.byte(base + o);
            let (cb, db) = b.byte(base + o);
            if ca == cb && (ca != NONE || da == db) {
                // r already holds one of them, both equal
                r.set_byte(base + o, ca, da);
                o += 1;
                continue;
            }
            // try words
            let mut done = false;
            for n in [8u64, 4, 2] {
                if o % n != 0 || o + n > lim {
                    continue;
                }
                let kind = |ob: &Obj| -> Option<R> {
                    let (c0, _) = ob.byte(base + o);
                    if c0 == NONE {
                        for k in 1..n {
                            if ob.byte(base + o + k).0 != NONE {
                                return None;
                            }
                        }
                        return ob.read_c(base + o, n).map(R::C);
                    }
                    let (t, k0) = cell_t(c0);
                    if k0 != 0 || width(t) as u64 != 8 * n {
                        return None;
                    }
                    for k in 1..n {
                        if ob.byte(base + o + k).0 != cell(t, k as u32) {
                            return None;
                        }
                    }
                    Some(R::T(t))
                };
                // also accept zero-extended values stored as cells + constant bytes
                let kind2 = |ob: &Obj| -> Option<R> {
                    if let Some(r) = kind(ob) {
                        return Some(r);
                    }
                    if (0..n).any(|k| ob.seg_at(base + o + k).is_some()) {
                        return None;
                    }
                    Some(ob.read(base + o, n))
                };
                let (ka, kb) = (kind(a), kind(b));
                let (ka, kb) = match (ka, kb) {
                    (Some(x), Some(y)) => (x, y),
                    (Some(x @ R::T(_)), None) => match kind2(b) {
                        Some(y) => (x, y),
                        None => continue,
                    },
                    (None, Some(y @ R::T(_))) => match kind2(a) {
                        Some(x) => (x, y),
                        None => continue,
                    },
                    _ => continue,
                };
                if let (R::C(_), R::C(_)) = (ka, kb) {
                    // two constants: use the smallest word in which all differing bytes lie, at least this one
                    if n > 1 {
                        // a word merge keeps pointers and integers together
                    }
                }
                let w = 8 * n as u32;
                let t = ite(c, ka.term(w), kb.term(w));
                r.write(base + o, n, R::of(t));
                o += n;
                done = true;
                break;
            }
            if !done {
                let t = ite(c, cell_term(ca, da), cell_term(cb, db));
                match is_const(t) {
                    Some(v) => r.set_byte(base + o, NONE, v as u8),
                    None => r.set_byte(base + o, cell(t, 0), 0),
                }
                o += 1;
            }
        }
    }
    Some(Rc::new(r))
}

#[derive(Clone, Default)]
pub struct Space {
    pub chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    pub next: u32,
    pub free: Rc<Vec<u32>>,
}
impl Space {
    #[inline]
    pub fn get(&self, slot: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(slot as usize / 64).and_then(|c| c[slot as usize % 64].as_ref())
    }
    pub fn get_mut(&mut self, slot: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(slot as usize / 64)?;
        if c[slot as usize % 64].is_none() {
            return None;
        }
        Some(Rc::make_mut(Rc::make_mut(c)[slot as usize % 64].as_mut().unwrap()))
    }
    pub fn set(&mut self, slot: u32, o: Option<Rc<Obj>>) {
        while self.chunks.len() <= slot as usize / 64 {
            self.chunks.push(Rc::new(vec![None; 64]));
        }
        Rc::make_mut(&mut self.chunks[slot as usize / 64])[slot as usize % 64] = o;
    }
    pub fn alloc(&mut self, size: u64) -> u32 {
        let slot = if let Some(_) = self.free.last() {
            Rc::make_mut(&mut self.free).pop().unwrap()
        } else {
            self.next += 1;
            self.next - 1
        };
        self.set(slot, Some(Rc::new(Obj::new(size))));
        slot
    }
    pub fn push(&mut self, size: u64) -> u32 {
        let s = self.next;
        self.next += 1;
        self.set(s, Some(Rc::new(Obj::new(size))));
        s
    }
    pub fn release(&mut self, slot: u32) {
        self.set(slot, None);
        Rc::make_mut(&mut self.free).push(slot);
    }
    pub fn merge(c: T, a: &Space, b: &Space, heap: bool) -> Result<Space, String> {
        let mut r = a.clone();
        r.next = a.next.max(b.next);
        let mut topo_change = a.next != b.next;
        if !Rc::ptr_eq(&a.free, &b.free) && *a.free != *b.free {
            topo_change = true;
        }
        let n = a.chunks.len().max(b.chunks.len());
        for k in 0..n {
            match (a.chunks.get(k), b.chunks.get(k)) {
                (Some(x), Some(y)) => {
                    if Rc::ptr_eq(x, y) {
                        continue;
                    }
                    for s in 0..64 {
                        match (&x[s], &y[s]) {
                            (Some(p), Some(q)) => {
                                if Rc::ptr_eq(p, q) {
                                    continue;
                                }
                                match merge_obj(c, p, q) {
                                    Some(m) => r.set((k * 64 + s) as u32, Some(m)),
                                    None => return Err(format!("object slot {} size {}/{} cannot be merged", k * 64 + s, p.size, q.size)),
                                }
                            }
                            (None, Some(q)) => {
                                r.set((k * 64 + s) as u32, Some(q.clone()));
                            }
                            _ => {}
                        }
                    }
                }
                (None, Some(y)) => {
                    for s in 0..64 {
                        if let Some(q) = &y[s] {
                            r.set((k * 64 + s) as u32, Some(q.clone()));
                        }
                    }
                }
                _ => {}
            }
        }
        if heap && topo_change {
            let mut f = vec![];
            for s in (0..r.next).rev() {
                if r.get(s).is_none() {
                    f.push(s);
                }
            }
            r.free = Rc::new(f);
        }
        Ok(r)
    }
}
