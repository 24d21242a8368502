//! Independent statement of the Y86-64 ISA (CS:APP 3e, chapter 4, plus `iopq V, rB` = 0xC).
//! Written for clarity; nothing here comes from /repo.
pub const MEM: u64 = 1 << 16;
pub const NONE: u8 = 0xf;
pub const RSP: u8 = 4;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Out {
    /// executed; execution continues at `pc`
    Aok,
    Hlt,
    /// fetch or data address outside memory
    Adr,
    /// not a valid instruction
    Ins,
}

pub struct Spec {
    /// initial registers (the last one does not exist)
    pub reg: [u64; 16],
    /// register writes since then, oldest first; those to NONE have no effect
    pub writes: Vec<(u8, u64)>,
    pub zf: bool,
    pub sf: bool,
    pub of: bool,
    pub pc: u64,
    pub mem: Box<[u8; 65536]>,
}

/// A fetched instruction.
#[derive(Clone, Copy)]
pub struct Inst {
    pub icode: u8,
    pub ifun: u8,
    pub ra: u8,
    pub rb: u8,
    pub valc: u64,
    pub len: u64,
}

pub fn has_regids(icode: u8) -> bool {
    matches!(icode, 2 | 3 | 4 | 5 | 6 | 10 | 11 | 12)
}
pub fn has_valc(icode: u8) -> bool {
    matches!(icode, 3 | 4 | 5 | 7 | 8 | 12)
}
pub fn inst_len(icode: u8) -> u64 {
    1 + has_regids(icode) as u64 + if has_valc(icode) { 8 } else { 0 }
}
pub fn cond(ifun: u8, zf: bool, sf: bool, of: bool) -> bool {
    match ifun {
        0 => true,
        1 => (sf != of) || zf,
        2 => sf != of,
        3 => zf,
        4 => !zf,
        5 => sf == of,
        6 => sf == of && !zf,
        _ => false,
    }
}
fn neg(x: u64) -> bool {
    x >> 63 == 1
}
pub fn alu(fun: u8, a: u64, b: u64) -> u64 {
    match fun {
        0 => b.wrapping_add(a),
        1 => b.wrapping_sub(a),
        2 => b & a,
        _ => b ^ a,
    }
}
/// Signed overflow of `b + a` / `b - a`.
pub fn overflow(fun: u8, a: u64, b: u64) -> bool {
    let e = alu(fun, a, b);
    match fun {
        0 => neg(a) == neg(b) && neg(e) != neg(b),
        1 => neg(a) != neg(b) && neg(e) != neg(b),
        _ => false,
    }
}

impl Spec {
    pub fn in_range(a: u64, n: u64) -> bool {
        a <= MEM - n
    }
    pub fn ld1(&self, a: u64) -> u8 {
        self.mem[a as usize & 0xffff]
    }
    pub fn ld8(&self, a: u64) -> u64 {
        let mut v = 0;
        for k in 0..8 {
            v |= (self.mem[(a + k) as usize & 0xffff] as u64) << (8 * k);
        }
        v
    }
    pub fn st8(&mut self, a: u64, v: u64) {
        for k in 0..8 {
            self.mem[(a + k) as usize & 0xffff] = (v >> (8 * k)) as u8;
        }
    }
    /// Register `i`: the latest value written to it, else its initial contents.
    pub fn r(&self, i: u8) -> u64 {
        if i == NONE {
            return 0;
        }
        let mut v = self.reg[i as usize & 15];
        for &(d, x) in &self.writes {
            if d == i {
                v = x;
            }
        }
        v
    }
    pub fn set(&mut self, i: u8, v: u64) {
        self.writes.push((i, v));
    }
    /// Fetches at pc; None when a byte of the instruction lies outside memory.
    pub fn fetch(&self) -> Option<Inst> {
        if self.pc >= MEM {
            return None;
        }
        let b = self.ld1(self.pc);
        let (icode, ifun) = (b >> 4, b & 15);
        let len = inst_len(icode);
        if !Self::in_range(self.pc, len) {
            return None;
        }
        let (mut ra, mut rb) = (NONE, NONE);
        let mut p = self.pc + 1;
        if has_regids(icode) {
            let x = self.ld1(p);
            ra = x >> 4;
            rb = x & 15;
            p += 1;
        }
        let valc = if has_valc(icode) { self.ld8(p) } else { 0 };
        Some(Inst { icode, ifun, ra, rb, valc, len })
    }
    /// Is this an instruction of the ISA with all fields as the ISA requires them?
    pub fn well_formed(i: &Inst, iopq: bool) -> bool {
        let r = |x: u8| x != NONE;
        let n = |x: u8| x == NONE;
        match i.icode {
            0 | 1 | 9 => i.ifun == 0,
            2 => i.ifun <= 6 && r(i.ra) && r(i.rb),
            3 => i.ifun == 0 && n(i.ra) && r(i.rb),
            4 | 5 => i.ifun == 0 && r(i.ra), // rB = F: no base register
            6 => i.ifun <= 3 && r(i.ra) && r(i.rb),
            7 => i.ifun <= 6,
            8 => i.ifun == 0,
            10 | 11 => i.ifun == 0 && r(i.ra) && n(i.rb),
            12 => iopq && i.ifun <= 3 && n(i.ra) && r(i.rb),
            _ => false,
        }
    }
    /// Opcode byte that no reading of the ISA accepts.
    pub fn invalid_opcode(icode: u8, ifun: u8, iopq: bool) -> bool {
        match icode {
            0 | 1 | 3 | 4 | 5 | 8 | 9 | 10 | 11 => ifun != 0,
            6 => ifun > 3,
            12 => !iopq || ifun > 3,
            13..=15 => true,
            _ => false,
        }
    }
    /// Address of the data access of `i`, if it makes one.
    pub fn data_addr(&self, i: &Inst) -> Option<u64> {
        match i.icode {
            4 | 5 => Some(self.r(i.rb).wrapping_add(i.valc)),
            8 | 10 => Some(self.r(RSP).wrapping_sub(8)),
            9 | 11 => Some(self.r(RSP)),
            _ => None,
        }
    }
    pub fn flags(&mut self, fun: u8, a: u64, b: u64) {
        let e = alu(fun, a, b);
        self.zf = e == 0;
        self.sf = neg(e);
        self.of = overflow(fun, a, b);
    }
    /// Executes a well-formed instruction whose data access (if any) is in range.
    pub fn exec(&mut self, i: &Inst) -> Out {
        let next = self.pc.wrapping_add(i.len);
        self.pc = match i.icode {
            0 => return Out::Hlt,
            1 => next,
            2 => {
                let v = self.r(i.ra);
                let taken = cond(i.ifun, self.zf, self.sf, self.of);
                self.set(if taken { i.rb } else { NONE }, v);
                next
            }
            3 => {
                self.set(i.rb, i.valc);
                next
            }
            4 => {
                let a = self.r(i.rb).wrapping_add(i.valc);
                let v = self.r(i.ra);
                self.st8(a, v);
                next
            }
            5 => {
                let a = self.r(i.rb).wrapping_add(i.valc);
                let v = self.ld8(a);
                self.set(i.ra, v);
                next
            }
            6 => {
                let (a, b) = (self.r(i.ra), self.r(i.rb));
                self.set(i.rb, alu(i.ifun, a, b));
                self.flags(i.ifun, a, b);
                next
            }
            7 => {
                if cond(i.ifun, self.zf, self.sf, self.of) {
                    i.valc
                } else {
                    next
                }
            }
            8 => {
                let sp = self.r(RSP).wrapping_sub(8);
                self.set(RSP, sp);
                self.st8(sp, next);
                i.valc
            }
            9 => {
                let sp = self.r(RSP);
                let v = self.ld8(sp);
                self.set(RSP, sp.wrapping_add(8));
                v
            }
            10 => {
                let v = self.r(i.ra); // the old value, also for pushq %rsp
                let sp = self.r(RSP).wrapping_sub(8);
                self.set(RSP, sp);
                self.st8(sp, v);
                next
            }
            11 => {
                let sp = self.r(RSP);
                let v = self.ld8(sp);
                self.set(RSP, sp.wrapping_add(8));
                self.set(i.ra, v); // popq %rsp yields the value read
                next
            }
            _ => {
                let (a, b) = (i.valc, self.r(i.rb));
                self.set(i.rb, alu(i.ifun, a, b));
                self.flags(i.ifun, a, b);
                next
            }
        };
        Out::Aok
    }
    /// One instruction; on Adr/Ins nothing but pc-independent state is specified.
    pub fn step(&mut self, iopq: bool) -> Out {
        let Some(i) = self.fetch() else { return Out::Adr };
        if !Self::well_formed(&i, iopq) {
            return Out::Ins;
        }
        if let Some(a) = self.data_addr(&i) {
            if !Self::in_range(a, 8) {
                return Out::Adr;
            }
        }
        self.exec(&i)
    }
}
