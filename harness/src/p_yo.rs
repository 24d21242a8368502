//! C11: the listing.
use crate::p_asm::{asm, item, Image, Text};
use crate::vp;
use y86_sim::ObjectExt;

/// C11: the listing, read back by the ISA runner, gives the image.
#[no_mangle]
pub extern "C" fn vp_c11() {
    vp::stub_format();
    vp::merge(true);
    let mut t = Text::new();
    // `B` for the items that refer to it
    let mut img = Image { i: 0, want: 0 };
    t.s("# y86: a|b\nB:.pos 0x");
    let k = vp::case(4) as usize;
    t.s(["", "9a", "fdf", "d00"][k]);
    let mut at = [0, 0x9a0, 0xfdf0, 0xd000][k] + t.hex(b'p', 1, k as u64 / 2);
    t.byte(b'\n');
    for i in 0..2 {
        match vp::case(10) {
            0 => {
                t.s("a: halt");
                at += 1;
            }
            1 => item(&mut t, 1, 0, &mut at, &mut img, 0),
            2 => item(&mut t, 2, 0, &mut at, &mut img, 0),
            3 => item(&mut t, 3, 0, &mut at, &mut img, 0),
            4 => item(&mut t, 4, b'f' + i, &mut at, &mut img, 0),
            5 => item(&mut t, 5, b'f' + i, &mut at, &mut img, 0),
            6 => {
                t.s(".long 0x");
                t.hex(b'f' + i, 4, 1);
                at += 4;
            }
            7 => {
                t.s(".quad -");
                t.dec(b'f' + i, 2);
                at += 8;
            }
            8 => {
                // arbitrary text in a comment
                t.s("B2 :# ");
                t.n -= 4;
                t.s(":# ");
                for k in 0..2 {
                    let c = vp::u8(&vp::tag(b'k' + i, k));
                    vp::assume(c < 128 && c != b'\n' && c != b'\r');
                    t.byte(c);
                }
            }
            _ => item(&mut t, 11, 0, &mut at, &mut img, 0),
        }
        t.byte(b'\n');
        vp::assume(at < 0xff00);
    }
    vp::merge(false);
    let Some(o) = asm(&t) else {
        vp::assert(false, 1);
        return;
    };
    listing(&o, 0, 0xffff);
}

/// Prints the listing, loads it, compares one byte.
fn listing(o: &ObjectExt, lo: u64, hi: u64) {
    use std::fmt::Write;
    let mut yo = String::new();
    vp::assert(write!(yo, "{}", o).is_ok(), 2);
    match crate::yis::load(yo) {
        Some(b) => {
            let i = vp::range("i", lo, hi) as usize;
            vp::assert(b[i] == o.obj.init_mem()[i], 3);
            vp::reach(1);
        }
        None => vp::assert(false, 4),
    }
}

/// C11: one byte at an arbitrary address.
#[no_mangle]
pub extern "C" fn vp_c11_addr() {
    vp::stub_format();
    vp::merge(true);
    let mut t = Text::new();
    t.s(".pos 0x");
    let at = match vp::case(3) {
        0 => t.hex(b'p', 4, 0),
        1 => t.hex(b'p', 4, 1),
        _ => t.hex(b'p', 4, 3),
    };
    t.s("\n.byte 0x");
    t.hex(b'f', 2, vp::case(4));
    vp::merge(false);
    let Some(o) = asm(&t) else {
        vp::assert(false, 1);
        return;
    };
    let _ = at;
    listing(&o, 0, 0xffff);
}
