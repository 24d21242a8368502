//! C05: instructions that cannot be executed end the simulation and change no memory.
use crate::image::{image_inst, image_nops, imm, put8, put_inst, spec_on, JUMP, N_PRE, PRE};
use crate::p_cpu::start;
use crate::spec::{cond, has_regids, inst_len, MEM, RSP};
use crate::vp;
use y86_sim::framework::{CpuSim, MemData};

/// The processor is about to fetch the instruction in question (or, pipelined, will soon).
/// It has to stop within `limit` cycles, with memory as it was.
fn stops(c: &mut dyn CpuSim, mem: &MemData, before: &[u8; 65536], limit: u64) {
    vp::assert(!c.is_terminate(), 1);
    let mut n = 0;
    while !c.is_terminate() && n < limit {
        c.step();
        n += 1;
    }
    vp::assert(c.is_terminate(), 2);
    vp::assert(c.cycle_count() == N_PRE + n, 3);
    let p = vp::range("probe", 0, MEM - 1) as usize;
    vp::assert(mem.read()[p] == before[p], 4);
    vp::reach(1);
}

/// Cycles after the one that would fetch the instruction.
fn limit(kind: &str) -> u64 {
    if kind == "pipe_std" {
        8
    } else {
        1
    }
}

/// An address beyond memory (0), an instruction that does not fit in it (1).
fn fetch(kind: &str) {
    vp::stub_format();
    let mut code = 0;
    let mut regs = None;
    let t = match vp::case(6) {
        0 => vp::range("T", MEM, u64::MAX - 99),
        // the next address may wrap around
        w @ 1..=4 => u64::MAX - [0, 1, 8, 9][w as usize - 1],
        _ => {
            let icode = vp::case(9) as u8 + 3;
            if inst_len(icode) == 1 {
                vp::assume(false); // ret
            }
            code = icode << 4;
            if has_regids(icode) {
                regs = Some(vp::u8("regs"));
            }
            let short = vp::case(9) + 1;
            vp::assume(short < inst_len(icode));
            MEM - short
        }
    };
    let img = || {
        let mut m = image_nops(0, 0);
        put8(&mut m, JUMP + 1, t);
        put8(&mut m, imm(RSP), vp::range("R", 0x4000, 0x7f00));
        if t < MEM {
            m[t as usize] = code;
            if let (Some(r), true) = (regs, t + 1 < MEM) {
                m[t as usize + 1] = r;
            }
        }
        m
    };
    let before = img();
    let (mut c, mem) = start(kind, img(), false);
    for _ in 0..N_PRE {
        c.step();
    }
    stops(&mut *c, &mem, &before, limit(kind));
}

/// An opcode that does not exist (icode 12..15), an instruction whose data lies (partly) beyond
/// memory. What follows are instructions that would change memory.
fn fault(kind: &str) {
    const T: u64 = 0x200;
    const TARGET: u64 = 0x400;
    vp::stub_format();
    let k = vp::case(10);
    let a = vp::range("A", MEM - 7, u64::MAX);
    let (icode, rb) = match k {
        0..=3 => (12 + k as u8, 0),
        4..=7 => ([8, 9, 10, 11][k as usize - 4], 0),
        _ => (k as u8 - 4, vp::case(16) as u8),
    };
    let op = icode << 4
        | match k {
            0..=3 => vp::range("f", 0, 15) as u8,
            _ => 0,
        };
    let regs = if has_regids(icode) {
        Some((vp::range("rA", 0, 15) as u8) << 4 | rb)
    } else {
        None
    };
    let next = vp::case(4);
    let b = vp::range("B", 0x3000, MEM - 8);
    let img = || {
        let mut m = image_nops(PRE, 0x1000 - PRE);
        put8(&mut m, JUMP + 1, T);
        if matches!(icode, 8..=11) {
            put_inst(&mut m, op, regs, T, a, if icode == 8 { Some(TARGET) } else { None });
        } else {
            put8(&mut m, imm(RSP), vp::range("R", 0x4000, 0x7f00));
            put_inst(&mut m, op, regs, T, a, None);
        }
        let len = if icode >= 12 { 1 } else { inst_len(icode) };
        let mut at = if icode == 8 { TARGET } else { T + len };
        for _ in 0..3 {
            let r = match next {
                0 => 0x10 | 15,
                _ => 0x2f,
            };
            // rmmovq %rcx, B; pushq; call; OPq
            let op = [0x40, 0xa0, 0x80, 0x60][next as usize];
            m[at as usize] = op;
            at += 1;
            if has_regids(op >> 4) {
                m[at as usize] = r;
                at += 1;
            }
            if next == 0 || next == 2 {
                put8(&mut m, at as usize, if next == 0 { b } else { at + 8 });
                at += 8;
            }
        }
        m
    };
    let before = img();
    let (mut c, mem) = start(kind, img(), false);
    for _ in 0..N_PRE {
        c.step();
    }
    stops(&mut *c, &mem, &before, limit(kind));
}

/// Any opcode byte and any register byte: no panic, and the simulation goes on or ends.
fn any(kind: &str) {
    const T: u64 = 0x200;
    vp::stub_format();
    let icode = vp::case(16) as u8;
    let f = match icode {
        7 => vp::case(16) as u8,
        _ => vp::range("f", 0, 15) as u8,
    };
    let op = icode << 4 | f;
    let regs = if icode < 12 && has_regids(icode) {
        Some((vp::range("rA", 0, 15) as u8) << 4 | vp::case(16) as u8)
    } else {
        None
    };
    let out = vp::case(2) == 1;
    let a = if out {
        vp::range("A", MEM - 7, u64::MAX)
    } else {
        vp::range("A", 0x3000, MEM - 8)
    };
    let d = if icode == 9 && out { None } else { Some(0x400) };
    let img = || {
        let mut m = image_inst(op, regs, T, a, d);
        let mut put = |at: u64| {
            for k in 0..16 {
                m[(at + k) as usize] = 0x10;
            }
        };
        put(T + if icode < 12 { inst_len(icode) } else { 1 });
        if matches!(icode, 7..=9) {
            put(0x400);
        }
        m
    };
    let s = spec_on(img());
    if icode == 7 {
        vp::split(cond(f, s.zf, s.sf, s.of));
    }
    let (mut c, _) = start(kind, img(), false);
    for _ in 0..N_PRE {
        c.step();
    }
    vp::assert(!c.is_terminate(), 1);
    let mut n = 0;
    while !c.is_terminate() && n < limit(kind) {
        c.step();
        n += 1;
    }
    vp::reach(1);
}

#[no_mangle]
pub extern "C" fn vp_c05_fetch() {
    fetch(["seq_std", "seq_plus_std", "pipe_std"][vp::case(3) as usize]);
}
#[no_mangle]
pub extern "C" fn vp_c05_fault() {
    fault(["seq_std", "seq_plus_std", "pipe_std"][vp::case(3) as usize]);
}
#[no_mangle]
pub extern "C" fn vp_c05_any() {
    any(["seq_std", "seq_plus_std", "pipe_std"][vp::case(3) as usize]);
}
