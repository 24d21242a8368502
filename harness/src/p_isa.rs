//! C01 and C06: one instruction of the ISA simulator from an arbitrary state.
use crate::image::{image, places, put8, put_inst, spec_on, JUMP, N_PRE, PRE};
use crate::spec::{cond, has_regids, inst_len, Out, Spec, MEM};
use crate::vp;
use y86_sim::isa::simulate;

/// Opcode bytes of the ISA the reference simulator implements.
pub const OPS: [u8; 31] = [
    0x00, 0x10, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x30, 0x40, 0x50, 0x60, 0x61, 0x62, 0x63, 0x70, 0x71, 0x72,
    0x73, 0x74, 0x75, 0x76, 0x80, 0x90, 0xa0, 0xb0, 0xc0, 0xc1, 0xc2, 0xc3,
];

/// Halts where the instruction may continue, then the instruction itself.
fn single(op: u8, regs: Option<u8>, t: u64, a: u64, d: u64) -> Box<[u8; 65536]> {
    let mut m = image();
    put8(&mut m, JUMP + 1, t);
    let icode = op >> 4;
    if matches!(icode, 7 | 8 | 9) && d < MEM {
        m[d as usize & 0xffff] = 0;
    }
    let next = t + inst_len(icode);
    if next < MEM && icode != 0 {
        m[next as usize & 0xffff] = 0;
    }
    let d = if matches!(icode, 7 | 8 | 9) { Some(d) } else { None };
    put_inst(&mut m, op, regs, t, a, d);
    m
}

/// The register byte: arbitrary, but split by base register for memory accesses.
fn regs(icode: u8) -> Option<u8> {
    match icode {
        4 | 5 | 6 | 12 => Some((vp::range("rA", 0, 15) as u8) << 4 | vp::case(16) as u8),
        _ if has_regids(icode) => Some((vp::range("rA", 0, 15) as u8) << 4 | vp::range("rB", 0, 15) as u8),
        _ => None,
    }
}

/// C01: a well-formed instruction, then halt.
#[no_mangle]
pub extern "C" fn vp_c01() {
    vp::stub_format();
    let op = OPS[vp::case(31) as usize];
    let icode = op >> 4;
    let end = MEM - inst_len(icode) - !matches!(op, 0x00 | 0x70 | 0x80 | 0x90) as u64;
    let (t, a) = places(op, end);
    let d = vp::range("D", PRE, MEM - 1);
    let r = regs(icode);
    let img = || single(op, r, t, a, d);
    let mut s = spec_on(img());
    let Some(i) = s.fetch() else {
        vp::assume(false);
        return;
    };
    vp::assume(Spec::well_formed(&i, true));
    if icode == 7 {
        vp::split(cond(i.ifun, s.zf, s.sf, s.of));
    }
    let mut n = N_PRE + 1;
    if s.exec(&i) == Out::Aok {
        // the next instruction is halt
        vp::assume(s.pc < MEM);
        vp::assume(s.ld1(s.pc) == 0);
        n += 1;
    }
    vp::reach(1);
    let r = match simulate(*img(), false) {
        Ok(r) => r,
        Err(_) => {
            vp::assert(false, 1);
            return;
        }
    };
    for k in 0..15 {
        vp::assert(r.regs[k] == s.r(k as u8), 10 + k as u64);
    }
    vp::assert(r.cc.zf == s.zf, 2);
    vp::assert(r.cc.sf == s.sf, 3);
    vp::assert(r.cc.of == s.of, 4);
    vp::assert(r.pc as u64 == s.pc, 5);
    vp::assert(r.n_insts == n, 6);
    let p = vp::range("probe", 0, MEM - 1);
    vp::assert(r.bin[p as usize] == s.mem[p as usize], 7);
    vp::reach(2);
}

/// C06: any bytes at any program counter: success or error as the ISA says, never an abort.
#[no_mangle]
pub extern "C" fn vp_c06() {
    vp::stub_format();
    let icode = vp::case(16) as u8;
    let len = inst_len(icode);
    let op = match icode {
        6 | 12 => {
            let f = vp::case(5) as u8;
            icode << 4 | if f < 4 { f } else { vp::range("f", 4, 15) as u8 }
        }
        _ => icode << 4 | vp::range("f", 0, 15) as u8,
    };
    // a data address in range (0) or not (1), or an instruction cut off by the end of memory (2)
    let kind = vp::case(3);
    if kind == 2 && len == 1 || kind == 1 && !matches!(icode, 4 | 5 | 8 | 9 | 10 | 11) {
        return;
    }
    if kind == 2 {
        let t = vp::range("T", MEM - len + 1, MEM - 1);
        let img = || {
            let mut m = image();
            put8(&mut m, JUMP + 1, t);
            m[t as usize & 0xffff] = op;
            m
        };
        run_c06(&mut spec_on(img()), img());
        return;
    }
    let (t, a) = match kind {
        1 => (vp::range("T", PRE, MEM - len), vp::range("A", MEM - 7, u64::MAX)),
        _ => places(op, MEM - len),
    };
    // where a jump, call or ret leads
    let d = if matches!(icode, 7 | 8 | 9) {
        if vp::case(2) == 1 {
            vp::range("D", MEM, u64::MAX)
        } else {
            vp::range("D", PRE, MEM - 1)
        }
    } else {
        0
    };
    let r = regs(icode);
    let img = || {
        if kind == 1 {
            let mut m = image();
            put8(&mut m, JUMP + 1, t);
            put_inst(&mut m, op, r, t, a, if icode == 9 { None } else { Some(d) });
            m
        } else {
            single(op, r, t, a, d)
        }
    };
    run_c06(&mut spec_on(img()), img());
}

/// C06: the program counter outside memory.
#[no_mangle]
pub extern "C" fn vp_c06_pc() {
    vp::stub_format();
    let t = vp::range("T", MEM, u64::MAX);
    let img = || {
        let mut m = image();
        put8(&mut m, JUMP + 1, t);
        m
    };
    run_c06(&mut spec_on(img()), img());
}

#[derive(PartialEq)]
enum Want {
    Ok,
    Err,
    Either,
}
fn run_c06(s: &mut Spec, img: Box<[u8; 65536]>) {
    let want = match s.fetch() {
        None => Want::Err,
        Some(i) => {
            let fixed_ra = (i.icode == 3 || i.icode == 12) && i.ra != 15;
            let fits = match s.data_addr(&i) {
                Some(a) => Spec::in_range(a, 8),
                None => true,
            };
            if Spec::invalid_opcode(i.icode, i.ifun, true) || fixed_ra || !fits {
                Want::Err
            } else if Spec::well_formed(&i, true) {
                if i.icode == 7 {
                    vp::split(cond(i.ifun, s.zf, s.sf, s.of));
                }
                if s.exec(&i) == Out::Hlt {
                    Want::Ok
                } else if s.pc >= MEM {
                    Want::Err
                } else {
                    // execution ends at the next instruction
                    vp::assume(s.ld1(s.pc) == 0);
                    Want::Ok
                }
            } else {
                // reserved register or condition fields: unspecified, but no abort; make every
                // continuation end
                let next = s.pc + i.len;
                vp::assume(next >= MEM || s.ld1(next) == 0);
                if i.icode == 7 {
                    vp::assume(i.valc >= MEM || s.ld1(i.valc) == 0);
                }
                if i.icode == 4 || i.icode == 10 {
                    let a = s.data_addr(&i).unwrap_or(0);
                    vp::assume(next < a || next >= a + 8);
                }
                Want::Either
            }
        }
    };
    vp::reach(1);
    let ok = simulate(*img, false).is_ok();
    vp::assert(ok || want != Want::Ok, 1);
    vp::assert(!ok || want != Want::Err, 2);
    vp::reach(2);
}
