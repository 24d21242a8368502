//! C02, C03: one instruction on the sequential processors; C05: exceptional instructions.
use crate::image::{places, image_inst, spec_on, N_PRE, PRE};
use crate::spec::{cond, Inst, inst_len, Out, Spec, MEM};
use crate::vp;
use y86_sim::architectures::create_sim;
use y86_sim::framework::{CpuSim, MemData};

pub fn start(kind: &str, img: Box<[u8; 65536]>, tty: bool) -> (Box<dyn CpuSim>, MemData) {
    let mem = MemData::init(*img);
    (create_sim(kind.to_string(), mem.clone(), tty), mem)
}

/// Opcode bytes of the base ISA.
pub const OPS: [u8; 27] = [
    0x00, 0x10, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x30, 0x40, 0x50, 0x60, 0x61, 0x62, 0x63, 0x70, 0x71, 0x72,
    0x73, 0x74, 0x75, 0x76, 0x80, 0x90, 0xa0, 0xb0,
];

pub fn same_regs(c: &dyn CpuSim, s: &Spec, id: u64) {
    let r = c.registers();
    for k in 0..15 {
        vp::assert(r[k] == s.r(k as u8), id + k as u64);
    }
}
pub fn same_mem(mem: &MemData, s: &Spec, id: u64) {
    let p = vp::range("probe", 0, MEM - 1) as usize;
    vp::assert(mem.read()[p] == s.mem[p], id);
}

/// Assumes that the bytes at the program counter are `b` in both memories. The stores change
/// nothing; they make the bytes explicit.
fn pin(s: &mut Spec, mem: &MemData, b: &[u8]) {
    vp::assume(s.pc <= MEM - b.len() as u64);
    let at = s.pc as usize;
    for k in 0..b.len() {
        vp::assume(s.mem[at + k] == b[k] && mem.read()[at + k] == b[k]);
        s.mem[at + k] = b[k];
        mem.write()[at + k] = b[k];
    }
}

/// Follows the two outcomes of a conditional jump separately.
fn split_jump(s: &Spec, i: &Inst) {
    if i.icode == 7 {
        vp::split(cond(i.ifun, s.zf, s.sf, s.of));
    }
}

/// A well-formed instruction X at an arbitrary place, then a conditional jump (which shows the
/// condition codes X left), then halt.
fn one(kind: &str) {
    vp::stub_format();
    let op = OPS[vp::case(27) as usize];
    let icode = op >> 4;
    let (t, a) = places(op, MEM - inst_len(icode));
    let d = if matches!(icode, 7 | 8 | 9) { Some(vp::range("E", PRE, MEM - 1)) } else { None };
    let regs = match icode {
        // any source register, split by base register
        4 | 5 | 6 => Some((vp::range("rA", 0, 15) as u8) << 4 | vp::case(16) as u8),
        _ => None,
    };
    let img = || image_inst(op, regs, t, a, d);
    let mut s = spec_on(img());
    let Some(i) = s.fetch() else {
        vp::assume(false);
        return;
    };
    vp::assume(Spec::well_formed(&i, false));
    let (mut c, mem) = start(kind, img(), false);
    for _ in 0..N_PRE {
        c.step();
    }
    vp::assert(!c.is_terminate(), 1);
    vp::reach(1);
    split_jump(&s, &i);
    let pc = s.pc;
    let out = s.exec(&i);
    c.step();
    vp::assert(c.program_counter() == pc, 2);
    vp::assert(c.cycle_count() == N_PRE + 1, 3);
    same_regs(&*c, &s, 100);
    same_mem(&mem, &s, 4);
    vp::assert(c.is_terminate() == (out == Out::Hlt), 5);
    if out == Out::Hlt {
        vp::reach(2);
        return;
    }
    // the next instruction: jXX D with any condition, or halt
    if vp::case(2) == 1 {
        let d = vp::range("D", PRE, MEM - 1).to_le_bytes();
        let f = vp::range("cond", 0, 6) as u8;
        pin(&mut s, &mem, &[0x70 | f, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]]);
    } else {
        pin(&mut s, &mem, &[0]);
    }
    let Some(j) = s.fetch() else {
        vp::assume(false);
        return;
    };
    split_jump(&s, &j);
    let pc = s.pc;
    let out = s.exec(&j);
    c.step();
    vp::assert(c.program_counter() == pc, 6);
    same_regs(&*c, &s, 120);
    vp::assert(c.is_terminate() == (out == Out::Hlt), 7);
    if out == Out::Hlt {
        vp::reach(3);
        return;
    }
    pin(&mut s, &mem, &[0]);
    c.step();
    vp::assert(c.program_counter() == s.pc, 8);
    vp::assert(c.cycle_count() == N_PRE + 3, 9);
    vp::reach(4);
}

#[no_mangle]
pub extern "C" fn vp_c02() {
    one("seq_std");
}
#[no_mangle]
pub extern "C" fn vp_c03() {
    one("seq_plus_std");
}
