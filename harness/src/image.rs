//! Memory images whose first instructions put arbitrary values into all registers, arbitrary
//! (attainable) condition codes, and jump to an arbitrary address. Everything except the opcode
//! bytes of those instructions is arbitrary.
use crate::spec::{Spec, MEM};
use crate::vp;

pub const N_PRE: u64 = 19;
pub const PRE: u64 = 181;
const REGS: usize = 22;
pub const JUMP: usize = 172;

const PINS: [[u32; 2]; 19] = {
    let mut p = [[0u32; 2]; 19];
    p[0] = [0, 2];
    p[1] = [10, 2];
    p[2] = [20, 2];
    let mut i = 0;
    while i < 15 {
        p[3 + i] = [(REGS + 10 * i) as u32, 2];
        i += 1;
    }
    p[18] = [JUMP as u32, 1];
    p
};

fn fill(m: &mut [u8; 65536], nops: [u32; 2], fillb: u8) {
    m[0] = 0x30;
    m[1] = 0xf0; // irmovq A, %rax
    m[10] = 0x30;
    m[11] = 0xf1; // irmovq B, %rcx
    m[20] = 0x60;
    m[21] = 0x01; // addq %rax, %rcx: any attainable condition codes
    for i in 0..15 {
        m[REGS + 10 * i] = 0x30;
        m[REGS + 10 * i + 1] = 0xf0 | i as u8;
    }
    m[JUMP] = 0x70; // jmp T
    let mut pins = [[0u32; 2]; 20];
    pins[..19].copy_from_slice(&PINS);
    pins[19] = nops;
    for k in 0..nops[1] {
        m[(nops[0] + k) as usize] = fillb;
    }
    vp::array("mem", m, &pins[..if nops[1] > 0 { 20 } else { 19 }]);
    put8(m, 2, vp::u64("cc0"));
    put8(m, 12, vp::u64("cc1"));
    for r in 0..15 {
        put8(m, imm(r), vp::u64(&vp::tag(b'r', r as usize)));
    }
}

/// The image for the implementation.
pub fn image() -> Box<[u8; 65536]> {
    let mut m = unsafe { Box::<[u8; 65536]>::new_zeroed().assume_init() };
    fill(&mut m, [0, 0], 0);
    m
}

/// As `image`, with nops in `n` bytes from `at` on (behind the prelude).
pub fn image_nops(at: u64, n: u64) -> Box<[u8; 65536]> {
    image_fill(at, n, 0x10)
}
/// As `image`, with `n` bytes of `b` from `at` on (behind the prelude).
pub fn image_fill(at: u64, n: u64, b: u8) -> Box<[u8; 65536]> {
    let mut m = unsafe { Box::<[u8; 65536]>::new_zeroed().assume_init() };
    fill(&mut m, [at as u32, n as u32], b);
    m
}

/// Offset of the immediate that goes into register `r`.
pub fn imm(r: u8) -> usize {
    REGS + 10 * r as usize + 2
}
pub fn put8(m: &mut [u8; 65536], at: usize, v: u64) {
    m[at..at + 8].copy_from_slice(&v.to_le_bytes());
}
pub fn get8(m: &[u8; 65536], at: usize) -> u64 {
    u64::from_le_bytes(m[at..at + 8].try_into().unwrap())
}

/// The same image with the prelude's jump going to `t` and the given bytes from there on.
pub fn image_at(t: u64, code: &[u8]) -> Box<[u8; 65536]> {
    let mut m = image();
    put8(&mut m, JUMP + 1, t);
    for (k, b) in code.iter().enumerate() {
        m[(t + k as u64) as usize & 0xffff] = *b;
    }
    m
}

/// An image with a single instruction at `t`, written so that its fields are explicit.
/// The instruction's data access (if it makes one) is at `a`; as the register contents or the
/// displacement are solved for, every combination of those with that address is covered.
pub fn image_inst(op: u8, regs: Option<u8>, t: u64, a: u64, d: Option<u64>) -> Box<[u8; 65536]> {
    let mut m = image();
    put8(&mut m, JUMP + 1, t);
    put_inst(&mut m, op, regs, t, a, d);
    m
}

/// Address of an instruction with the given opcode byte that may run to the end `end` of memory,
/// and of its data. `ret` has a place of its own, with the return address anywhere in front of it
/// or after it (but behind the prelude).
pub fn places(op: u8, end: u64) -> (u64, u64) {
    if op >> 4 == 9 {
        let t = 0x2000;
        let a = if vp::case(2) == 1 { vp::range("A", PRE, t - 8) } else { vp::range("A", t + 1, MEM - 8) };
        (t, a)
    } else {
        (vp::range("T", PRE, end), vp::range("A", 0, MEM - 8))
    }
}

/// Writes the instruction (see `image_inst`) into `m`; `d`: its constant (icodes 3, 7, 8, 12) or
/// the address `ret` finds at `a`.
pub fn put_inst(m: &mut [u8; 65536], op: u8, regs: Option<u8>, t: u64, a: u64, d: Option<u64>) {
    let at = t as usize;
    m[at & 0xffff] = op;
    if let Some(r) = regs {
        m[(at + 1) & 0xffff] = r;
    }
    let mut put = |at: usize, v: u64| {
        for (k, b) in v.to_le_bytes().iter().enumerate() {
            m[(at + k) & 0xffff] = *b;
        }
    };
    match op >> 4 {
        3 | 12 => {
            if let Some(d) = d {
                put(at + 2, d);
            }
        }
        7 => {
            if let Some(d) = d {
                put(at + 1, d);
            }
        }
        4 | 5 => {
            let rb = regs.unwrap() & 15;
            let base = if rb == 15 { 0 } else { u64::from_le_bytes(m[imm(rb)..imm(rb) + 8].try_into().unwrap()) };
            let v = a.wrapping_sub(base);
            for (k, b) in v.to_le_bytes().iter().enumerate() {
                m[(at + 2 + k) & 0xffff] = *b;
            }
        }
        8 => {
            if let Some(d) = d {
                put(at + 1, d);
            }
            put8(m, imm(4), a.wrapping_add(8));
        }
        10 => put8(m, imm(4), a.wrapping_add(8)),
        9 => {
            if let Some(d) = d {
                put(a as usize, d);
            }
            put8(m, imm(4), a);
        }
        11 => put8(m, imm(4), a),
        _ => {}
    }
}

/// The ISA state reached after the prelude (program counter at the target of the jump).
pub fn spec_on(mem: Box<[u8; 65536]>) -> Spec {
    let mut s = Spec { reg: [0; 16], writes: Vec::new(), zf: false, sf: false, of: false, pc: 0, mem };
    let (a, b) = (s.ld8(2), s.ld8(12));
    s.flags(0, a, b);
    for i in 0..15 {
        s.reg[i] = s.ld8((REGS + 10 * i + 2) as u64);
    }
    s.pc = s.ld8(JUMP as u64 + 1);
    s
}
pub fn spec() -> Spec {
    spec_on(image())
}
