//! C04: instruction sequences on the pipelined processor.
use crate::image::{image_fill, image_inst, imm, put8, spec_on, JUMP, N_PRE, PRE};
use crate::p_cpu::{same_mem, same_regs, start, OPS};
use crate::spec::{cond, has_regids, has_valc, Out, Spec, MEM, NONE, RSP};
use crate::vp::{self, split};
use y86_sim::framework::{CpuSim, MemData};

/// Addresses. The sequence begins at CODE; each jump and call leads to a place of its own.
const CODE: u64 = 0x100;
/// The word on top of the initial stack (in 0x4000..0x8000) is this address.
const RETURN: u64 = 0x800;
/// The word above it is this one.
const RETURN2: u64 = 0x900;
const STACK: (u64, u64) = (0x4000, 0x7f00);
/// Data accesses of rmmovq/mrmovq lie at or above this address (or on the stack).
const DATA: u64 = 0x3000;

pub struct Seq {
    s: Spec,
    mem: MemData,
    c: Box<dyn CpuSim>,
    n: usize,
    cycles: u64,
    /// range of addresses for rmmovq and mrmovq
    data: (u64, u64),
    /// registers that got arbitrary values
    free: Vec<u8>,
    /// initial stack pointer
    rsp: u64,
    /// enumerate the destinations of OPq (an address is computed from the result)
    concrete: bool,
}

/// Registers read by an instruction (decode stage sources).
fn sources(icode: u8, ra: u8, rb: u8) -> (u8, u8) {
    match icode {
        2 => (ra, NONE),
        4 | 6 => (ra, rb),
        5 => (NONE, rb),
        8 => (NONE, RSP),
        9 | 11 => (RSP, RSP),
        10 => (ra, RSP),
        _ => (NONE, NONE),
    }
}

pub fn setup(kind: &str) -> Seq {
    setup_with(kind, |_, _| ())
}
/// `f` changes the initial memory, given the initial stack pointer.
pub fn setup_with(kind: &str, f: impl Fn(&mut [u8; 65536], u64)) -> Seq {
    vp::stub_format();
    let rsp = vp::range("R", STACK.0, STACK.1);
    let img = || {
        // wherever fetching strays to, there is addq %rsi, %rax
        let mut m = image_fill(CODE, 0x1000 - CODE, 0x60);
        put8(&mut m, JUMP + 1, CODE);
        put8(&mut m, imm(RSP), rsp);
        put8(&mut m, rsp as usize, RETURN);
        put8(&mut m, rsp as usize + 8, RETURN2);
        f(&mut m, rsp);
        m
    };
    let s = spec_on(img());
    let (mut c, mem) = start(kind, img(), false);
    // nothing at CODE or above is fetched before cycle 20
    for _ in 0..15 {
        c.step();
    }
    Seq { s, mem, c, n: 0, cycles: 15, data: (DATA, MEM - 8), free: Vec::new(), rsp, concrete: false }
}

impl Seq {
    pub fn put(&mut self, at: u64, b: &[u8]) {
        for (k, x) in b.iter().enumerate() {
            self.s.mem[at as usize + k] = *x;
            self.mem.write()[at as usize + k] = *x;
        }
    }
    fn var(&self, p: u8, lo: u64, hi: u64) -> u64 {
        vp::range(&vp::tag(p, self.n), lo, hi)
    }
    /// Settles the initial memory for a sequence of these kinds of instructions.
    fn plan(&mut self, icodes: &[u8]) {
        if icodes.contains(&9) {
            // stores stay clear of the return addresses
            self.data = if split(vp::bool("lowdata")) { (DATA, STACK.0 - 64) } else { (STACK.1 + 64, MEM - 8) };
        } else {
            // popped values
            for k in 0..2 {
                let w = vp::u64(&vp::tag(b'w', k)).to_le_bytes();
                self.put(self.rsp + 8 * k as u64, &w);
            }
        }
    }
    /// Appends one instruction of the given kind, with arbitrary operands, and executes it in the
    /// specification.
    pub fn inst(&mut self, icode: u8, flow: Flow) {
        let ra = self.var(b'a', 0, 14) as u8;
        let mut rb = self.var(b'b', 0, if matches!(icode, 4 | 5) { 15 } else { 14 }) as u8;
        if match icode {
            4 => self.s.writes.iter().any(|w| w.0 == RSP) || self.concrete,
            5 => !self.s.writes.is_empty(),
            6 => self.concrete,
            _ => false,
        } {
            rb = conc(rb);
        }
        self.inst_on(icode, flow, ra, rb)
    }
    /// As `inst`, with given registers.
    pub fn inst_on(&mut self, icode: u8, flow: Flow, ra: u8, rb: u8) {
        let at = self.s.pc;
        let mut target = CODE + 0x100 * (self.n as u64 + 1);
        let (op, regs) = match icode {
            2 => (0x20 | self.var(b'f', 0, 6) as u8, ra << 4 | rb),
            3 => (0x30, 0xf0 | rb),
            4 | 5 => (icode << 4, ra << 4 | rb),
            6 => (0x60 | flow as u8, ra << 4 | rb),
            7 => (0x70 | self.var(b'f', 0, 6) as u8, 0),
            10 | 11 => (icode << 4, ra << 4 | 15),
            _ => (icode << 4, 0),
        };
        if icode == 7 && flow == Flow::Far {
            target = self.var(b't', MEM, u64::MAX);
        }
        if matches!(icode, 8..=11) {
            // entry vp_c04_stack has arbitrary stack pointers
            for d in &self.free {
                vp::assume(*d != RSP);
            }
        }
        // which earlier results the instruction uses decides forwarding and load/use stalls
        let (x, y) = sources(icode, ra, rb);
        for k in self.s.writes.len().saturating_sub(4)..self.s.writes.len() {
            let d = self.s.writes[k].0;
            split(d == x);
            split(d == y);
        }
        let valc = match icode {
            3 => vp::u64(&vp::tag(b'v', self.n)),
            4 | 5 => {
                let a = self.var(b'A', self.data.0, self.data.1);
                a.wrapping_sub(self.s.r(regs & 15))
            }
            _ => target,
        };
        self.emit(op, regs, valc);
        let i = self.s.fetch().unwrap();
        let mut moved = true;
        match icode {
            2 => {
                moved = split(cond(i.ifun, self.s.zf, self.s.sf, self.s.of));
                self.free.push(rb);
            }
            3 | 6 => self.free.push(rb),
            5 | 11 => self.free.push(ra),
            7 => {
                let taken = cond(i.ifun, self.s.zf, self.s.sf, self.s.of);
                vp::assume(taken == (flow == Flow::Taken));
            }
            _ => {}
        }
        self.s.exec(&i);
        if !moved {
            self.s.writes.pop();
        } else if icode == 2 {
            self.s.writes.last_mut().unwrap().0 = rb;
        }
        if icode == 7 && flow != Flow::Taken {
            self.s.pc = at + 9;
        }
        if icode == 9 {
            // one of the two addresses (entry vp_c04_one returns to arbitrary ones)
            let v = self.s.pc;
            if split(v == RETURN) {
                self.s.pc = RETURN;
            } else {
                vp::assume(v == RETURN2);
                self.s.pc = RETURN2;
            }
        }
        self.n += 1;
    }
    /// The bytes of an instruction at the program counter.
    pub fn emit(&mut self, op: u8, regs: u8, valc: u64) {
        let b = bytes(op, regs, valc);
        self.put(self.s.pc, &b);
    }
    /// halt; runs the processor to the end and compares.
    pub fn finish(&mut self) {
        let at = self.s.pc;
        self.put(at, &[0]);
        vp::reach(1);
        self.run();
    }
    fn run(&mut self) {
        // fetch, decode, execute, memory, write back; at most three more cycles per instruction
        let limit = 19 + 5 + 4 * (self.n as u64 + 1);
        while !self.c.is_terminate() && self.cycles < limit {
            self.c.step();
            self.cycles += 1;
        }
        vp::assert(self.c.is_terminate(), 1);
        vp::assert(self.c.cycle_count() == self.cycles, 2);
        same_regs(&*self.c, &self.s, 100);
        same_mem(&self.mem, &self.s, 3);
        vp::reach(2);
    }
}

/// A path split on the register.
fn conc(r: u8) -> u8 {
    vp::merge(false);
    let r = vp::conc(r as u64) as u8;
    vp::merge(true);
    r
}

pub fn bytes(op: u8, regs: u8, valc: u64) -> Vec<u8> {
    let mut b = vec![op];
    if has_regids(op >> 4) {
        b.push(regs);
    }
    if has_valc(op >> 4) {
        b.extend_from_slice(&valc.to_le_bytes());
    }
    b
}

/// What a jump does, or what an OPq computes.
#[derive(PartialEq, Clone, Copy)]
#[repr(u8)]
pub enum Flow {
    Taken = 0,
    Near = 1,
    Far = 2,
    Last = 3,
}

/// Two instructions (any kinds except halt).
#[no_mangle]
pub extern "C" fn vp_c04_pair() {
    let mut q = setup("pipe_std");
    let (x, fx) = pick();
    let (y, fy) = pick();
    q.plan(&[x, y]);
    q.concrete = y == 5;
    q.inst(x, fx);
    q.inst(y, fy);
    q.finish();
}

/// As `vp_c04_pair`, for an instruction with a result and one that uses it, with one to three nops
/// between them.
#[no_mangle]
pub extern "C" fn vp_c04_gap() {
    const T: Flow = Flow::Taken;
    let gap = 1 + vp::case(3);
    let (x, fx) = [(6, T), (5, T), (2, T), (11, T), (8, T)][vp::case(5) as usize];
    let (y, fy) = [(6, T), (4, T), (5, T), (7, T), (10, T), (9, T), (2, T)][vp::case(7) as usize];
    let mut q = setup("pipe_std");
    q.plan(&[x, y]);
    q.concrete = matches!(y, 4 | 5);
    // the destination
    let d = [1, 6, 14][vp::case(3) as usize];
    let o = q.var(b'o', 0, 14) as u8;
    match x {
        5 | 11 => q.inst_on(x, fx, d, o),
        8 => q.inst(x, fx),
        _ => q.inst_on(x, fx, o, d),
    }
    for _ in 0..gap {
        q.inst(1, T);
    }
    q.inst(y, fy);
    q.finish();
}

/// Three instructions.
#[no_mangle]
pub extern "C" fn vp_c04_triple() {
    let mut q = setup("pipe_std");
    let (x, fx) = pick();
    let (y, fy) = pick();
    let (z, fz) = pick();
    q.plan(&[x, y, z]);
    q.inst(x, fx);
    q.inst(y, fy);
    q.inst(z, fz);
    q.finish();
}

/// An instruction kind with its variant.
fn pick() -> (u8, Flow) {
    const F: [Flow; 4] = [Flow::Taken, Flow::Near, Flow::Far, Flow::Last];
    match vp::case(16) as usize {
        k @ 0..=10 => (k as u8 + 1, Flow::Taken),
        k @ 11..=12 => (7, F[k - 10]),
        k => (6, F[k - 12]),
    }
}

/// An instruction that sets the stack pointer to an arbitrary place S, then one that uses it.
#[no_mangle]
pub extern "C" fn vp_c04_stack() {
    const RCX: u8 = 1;
    let p = vp::case(8);
    let gap = vp::case(4);
    let use_ = vp::case(5);
    let sp = vp::range("S", 0x9000, 0xf000);
    let mut q = setup_with("pipe_std", |m, r| {
        put8(m, sp as usize, RETURN2);
        match p {
            1 => put8(m, imm(RCX), sp.wrapping_sub(r)),
            2 => put8(m, imm(RCX), r.wrapping_sub(sp)),
            3 => put8(m, 0x3000, sp),
            4 => put8(m, r as usize, sp),
            5 | 6 => put8(m, imm(RCX), sp),
            7 => put8(m, imm(RCX), RETURN2),
            _ => {}
        }
    });
    let (op, regs, valc) = match p {
        0 => (0x30, 0xf0 | RSP, sp),
        1 => (0x60, RCX << 4 | RSP, 0),
        2 => (0x61, RCX << 4 | RSP, 0),
        3 => (0x50, RSP << 4 | 15, 0x3000),
        4 => (0xb0, RSP << 4 | 15, 0),
        5 => (0x20, RCX << 4 | RSP, 0),
        6 => (0x26, RCX << 4 | RSP, 0), // conditional
        _ => (0xa0, RCX << 4 | 15, 0),  // pushes where the use may return to
    };
    q.emit(op, regs, valc);
    let i = q.s.fetch().unwrap();
    if i.icode == 2 {
        let t = split(cond(i.ifun, q.s.zf, q.s.sf, q.s.of));
        vp::assume(t || use_ < 3);
    }
    q.s.exec(&i);
    q.n += 1;
    for _ in 0..gap {
        q.inst(1, Flow::Taken);
    }
    q.free.clear();
    match use_ {
        0 => q.inst(10, Flow::Taken),
        1 => q.inst(11, Flow::Taken),
        2 => q.inst(8, Flow::Taken),
        3 => q.inst(9, Flow::Taken),
        _ => {
            q.inst(9, Flow::Taken);
            // the return address again, then another use right after ret
            q.inst(10, Flow::Taken);
        }
    }
    q.finish();
}

/// Instructions that are fetched but must have no effect: after halt (0), at the target of a jump
/// that is not taken (1), after ret (2), after a jump that is taken (3).
#[no_mangle]
pub extern "C" fn vp_c04_shadow() {
    let shape = vp::case(4);
    let k1 = vp::case(16) as u8;
    let k2 = vp::case(6) as usize;
    let mut q = setup("pipe_std");
    let at = q.s.pc;
    let shadow = match shape {
        0 => {
            vp::reach(1);
            at + 1
        }
        1 => {
            q.inst(7, Flow::Near);
            at + 0x100
        }
        2 => {
            q.inst(9, Flow::Taken);
            at + 1
        }
        _ => {
            q.inst(7, Flow::Taken);
            at + 9
        }
    };
    let len = q.junk(shadow, k1, 90);
    q.junk(shadow + len, [1, 4, 6, 9, 0, 10][k2], 91);
    q.finish();
}

impl Seq {
    /// An arbitrary instruction with opcode `icode` (possibly invalid) that is not executed.
    pub fn junk(&mut self, at: u64, icode: u8, n: usize) -> u64 {
        let f = match icode {
            2 | 7 => vp::range(&vp::tag(b'f', n), 0, 6) as u8,
            6 => vp::range(&vp::tag(b'f', n), 0, 3) as u8,
            _ => 0,
        };
        let ra = vp::range(&vp::tag(b'a', n), 0, 15) as u8;
        let rb = vp::range(&vp::tag(b'b', n), 0, 15) as u8;
        let v = match icode {
            7 | 8 => 0xc00,
            _ => vp::u64(&vp::tag(b'v', n)),
        };
        let mut b = bytes(icode << 4 | f, ra << 4 | rb, v);
        if icode > 11 {
            // no instruction; execution would not continue behind it
            b.truncate(1);
        }
        self.put(at, &b);
        b.len() as u64
    }
}

/// One instruction at an arbitrary place (or at the very end of memory), then halt. What lies
/// behind halts, and where a jump that is not taken would lead, is addq %rsi, %rax (see `vp_c04_shadow`).
#[no_mangle]
pub extern "C" fn vp_c04_one() {
    vp::stub_format();
    let op = OPS[vp::case(27) as usize];
    let icode = op >> 4;
    let len = crate::spec::inst_len(icode);
    let tail = vp::case(2) == 1;
    // halt and what is behind it
    let room = 1 + if tail { 0 } else { 6 };
    let t = match (icode, tail) {
        (_, true) => MEM - len - room,
        (9, _) => 0x2000,
        _ => vp::range("T", PRE, MEM - len - room),
    };
    let a = match icode {
        9 if tail || vp::case(2) == 1 => vp::range("A", PRE, t - 8),
        9 => vp::range("A", t + 8, MEM - 8),
        _ => vp::range("A", 0, MEM - 8),
    };
    let d = match icode {
        7..=9 => Some(vp::range("E", PRE, MEM - 7)),
        _ => None,
    };
    let regs = match icode {
        4 | 5 => Some((vp::range("rA", 0, 15) as u8) << 4 | vp::case(16) as u8),
        _ => None,
    };
    if let Some(e) = d {
        vp::assume(e > t + len + 6 || e + 7 <= t);
        if icode == 9 {
            vp::assume(e >= a + 8 || e + 7 <= a);
        }
    }
    let img = || {
        let mut m = image_inst(op, regs, t, a, d);
        let end = [0, 0x60, 0x60, 0x60, 0x60, 0x60, 0x60];
        // (the instruction itself may be the halt)
        for k in (icode == 0) as u64..room {
            m[(t + len + k - (icode == 0) as u64) as usize & 0xffff] = end[k as usize];
        }
        if let Some(e) = d {
            for k in 0..7 {
                m[(e + k) as usize & 0xffff] = end[k as usize];
            }
        }
        m
    };
    let mut s = spec_on(img());
    let Some(i) = s.fetch() else {
        vp::assume(false);
        return;
    };
    vp::assume(Spec::well_formed(&i, false));
    if icode == 7 || icode == 2 {
        split(cond(i.ifun, s.zf, s.sf, s.of));
    }
    let out = s.exec(&i);
    if out != Out::Hlt {
        vp::assume(s.pc < MEM);
        if matches!(icode, 4 | 8 | 10) {
            // the store leaves the following instructions alone
            vp::assume(a > s.pc + 6 || s.pc >= a + 8);
            vp::assume(a > t + len + 6 || t + len >= a + 8);
        }
    }
    let (mut c, mem) = start("pipe_std", img(), false);
    for _ in 0..N_PRE {
        c.step();
    }
    vp::reach(1);
    let mut n = 0;
    while !c.is_terminate() && n < 12 {
        c.step();
        n += 1;
    }
    vp::assert(c.is_terminate(), 1);
    same_regs(&*c, &s, 100);
    same_mem(&mem, &s, 3);
    vp::reach(2);
}
