//! C07, C09, C10: the assembler.
use crate::vp;
use y86_sim::{assemble, ObjectExt};

/// Source text under construction.
pub struct Text {
    b: [u8; 400],
    pub n: usize,
    /// only a few registers and numerals
    brief: bool,
}
impl Text {
    pub fn new() -> Self {
        Text { b: [0; 400], n: 0, brief: false }
    }
    pub fn byte(&mut self, c: u8) {
        self.b[self.n] = c;
        self.n += 1;
    }
    pub fn s(&mut self, s: &str) {
        for c in s.bytes() {
            self.byte(c);
        }
    }
    pub fn str(&self) -> &str {
        unsafe { std::str::from_utf8_unchecked(&self.b[..self.n]) }
    }
    /// Any register; returns its number.
    pub fn reg(&mut self, tag: &str) -> u8 {
        const N3: &[u8; 26] = b"axcxdxbxspbpsidi1011121314";
        self.s("%r");
        if self.brief {
            let r = vp::range(tag, 1, 2) as usize;
            self.byte(N3[2 * r]);
            self.byte(b'x');
            return r as u8;
        }
        if vp::case(2) == 0 {
            let r = vp::range(tag, 0, 12) as usize;
            self.byte(N3[2 * r]);
            self.byte(N3[2 * r + 1]);
            if r < 8 { r as u8 } else { r as u8 + 2 }
        } else {
            let r = vp::range(tag, 8, 9) as u8;
            self.byte(b'0' + r);
            r
        }
    }
    /// One blank: space or tab.
    pub fn blank(&mut self, tag: &str) {
        let c = vp::u8(tag);
        vp::assume(c == b' ' || c == b'\t');
        self.byte(c);
    }
    /// `k` hexadecimal digits; class 0: 0-9, 1: a-f, 2: A-F, 3: 0-9 and a-f alternating.
    pub fn hex(&mut self, p: u8, k: usize, class: u64) -> u64 {
        let mut v = 0u64;
        for i in 0..k {
            let class = if class == 3 { i as u64 % 2 } else { class };
            let t = vp::tag(p, i);
            let d = if class == 0 { vp::range(&t, 0, 9) } else { vp::range(&t, 10, 15) };
            self.byte(match class {
                0 => b'0' + d as u8,
                1 => b'a' - 10 + d as u8,
                _ => b'A' - 10 + d as u8,
            });
            v = v << 4 | d;
        }
        v
    }
    pub fn dec(&mut self, p: u8, k: usize) -> u64 {
        let mut v = 0u64;
        for i in 0..k {
            let d = vp::range(&vp::tag(p, i), 0, 9);
            self.byte(b'0' + d as u8);
            v = v * 10 + d;
        }
        v
    }
    /// A numeral: decimal or hexadecimal, with or without a sign.
    pub fn num(&mut self) -> u64 {
        let k = if self.brief { vp::case(2) * 7 } else { vp::case(12) };
        self.brief |= k > 1;
        let neg = k % 2 == 1;
        if neg {
            self.byte(b'-');
        }
        let v = match k / 2 {
            0 => self.dec(b'd', 1),
            1 => self.dec(b'd', 6),
            k => {
                self.s("0x");
                match k {
                    2 => self.hex(b'h', 1, 0),
                    3 => self.hex(b'h', 16, 0),
                    4 => self.hex(b'h', 16, 3),
                    _ => self.hex(b'h', 15, 2),
                }
            }
        };
        if neg { v.wrapping_neg() } else { v }
    }
}

pub fn asm(t: &Text) -> Option<std::mem::ManuallyDrop<ObjectExt>> {
    match assemble(t.str(), Default::default()) {
        Ok(o) => Some(std::mem::ManuallyDrop::new(o)),
        Err(e) => {
            std::mem::forget(e);
            None
        }
    }
}

enum Shape {
    Single,
    RegReg,
    ImmReg,
    RegMem,
    MemReg,
    Dest,
    Reg,
}
use Shape::*;
/// Mnemonic, first byte, operands.
const FORMS: [(&str, u8, Shape); 31] = [
    ("halt", 0x00, Single),
    ("nop", 0x10, Single),
    ("ret", 0x90, Single),
    ("rrmovq", 0x20, RegReg),
    ("cmovle", 0x21, RegReg),
    ("cmovl", 0x22, RegReg),
    ("cmove", 0x23, RegReg),
    ("cmovne", 0x24, RegReg),
    ("cmovge", 0x25, RegReg),
    ("cmovg", 0x26, RegReg),
    ("addq", 0x60, RegReg),
    ("subq", 0x61, RegReg),
    ("andq", 0x62, RegReg),
    ("xorq", 0x63, RegReg),
    ("irmovq", 0x30, ImmReg),
    ("iaddq", 0xc0, ImmReg),
    ("isubq", 0xc1, ImmReg),
    ("iandq", 0xc2, ImmReg),
    ("ixorq", 0xc3, ImmReg),
    ("rmmovq", 0x40, RegMem),
    ("mrmovq", 0x50, MemReg),
    ("jmp", 0x70, Dest),
    ("jle", 0x71, Dest),
    ("jl", 0x72, Dest),
    ("je", 0x73, Dest),
    ("jne", 0x74, Dest),
    ("jge", 0x75, Dest),
    ("jg", 0x76, Dest),
    ("call", 0x80, Dest),
    ("pushq", 0xa0, Reg),
    ("popq", 0xb0, Reg),
];
/// Label names, some of them containing mnemonics, condition suffixes or register names.
const NAMES: [&str; 8] = ["x", "andq", "_xorq1", "le", "halt", "rsp", "subq_addq", "Ox10"];

/// The length of an instruction by its first byte.
fn len(b: u8) -> usize {
    match b >> 4 {
        0 | 1 | 9 => 1,
        2 | 6 | 0xa | 0xb => 2,
        7 | 8 => 9,
        _ => 10,
    }
}

/// Writes a line with the given form; the encoding goes to `e`. `style`: 0 canonical, 1 arbitrary
/// blanks wherever they are allowed, 2 no optional blanks and a comment. `imm`: the constant is
/// a label with this name and value, or a numeral.
fn inst(t: &mut Text, e: &mut [u8; 10], form: usize, style: u64, imm: Option<(&str, u64)>) -> usize {
    let (name, op, shape) = &FORMS[form];
    t.brief = style > 0;
    e[0] = *op;
    if style == 1 {
        t.blank("w0");
    }
    t.s(name);
    if !matches!(shape, Single) {
        match style {
            1 => {
                t.blank("w1");
                t.byte(b' ');
            }
            2 if !matches!(shape, Dest | ImmReg) => {}
            _ => t.byte(b' '),
        }
    }
    let comma = |t: &mut Text| match style {
        0 => t.s(", "),
        1 => {
            t.blank("w2");
            t.byte(b',');
            t.blank("w3");
            t.byte(b'\t');
        }
        _ => t.byte(b','),
    };
    let put = |e: &mut [u8; 10], at: usize, v: u64| {
        for i in 0..8 {
            e[at + i] = (v >> (8 * i)) as u8;
        }
    };
    let constant = |t: &mut Text, dollar: bool| match imm {
        Some((s, v)) => {
            t.s(s);
            v
        }
        None => {
            if dollar {
                t.byte(b'$');
            }
            t.num()
        }
    };
    let mem = |t: &mut Text| {
        // without displacement, or with one
        let d = if imm.is_some() { 0 } else { t.num() };
        t.byte(b'(');
        let r = t.reg("rB");
        t.byte(b')');
        (d, r)
    };
    match shape {
        Single => {}
        RegReg => {
            let a = t.reg("rA");
            comma(t);
            let b = t.reg("rB");
            e[1] = a << 4 | b;
        }
        ImmReg => {
            let v = constant(t, true);
            comma(t);
            e[1] = 0xf0 | t.reg("rB");
            put(e, 2, v);
        }
        RegMem => {
            let a = t.reg("rA");
            comma(t);
            let (d, b) = mem(t);
            e[1] = a << 4 | b;
            put(e, 2, d);
        }
        MemReg => {
            let (d, b) = mem(t);
            comma(t);
            e[1] = t.reg("rA") << 4 | b;
            put(e, 2, d);
        }
        Dest => {
            let v = constant(t, false);
            put(e, 1, v);
        }
        Reg => e[1] = t.reg("rA") << 4 | 0xf,
    }
    match style {
        1 => t.blank("w4"),
        2 => {
            t.byte(b'#');
            for i in 0..3 {
                let c = vp::u8(&vp::tag(b'k', i));
                vp::assume(c < 128 && c != b'\n' && c != b'\r');
                t.byte(c);
            }
        }
        _ => {}
    }
    t.byte(b'\n');
    len(*op)
}

/// Compares one arbitrary byte of the image with the emitted pieces (later pieces win).
pub struct Image {
    pub i: usize,
    pub want: u8,
}
impl Image {
    fn new() -> Self {
        Image { i: vp::range("i", 0, 0xffff) as usize, want: 0 }
    }
    fn put(&mut self, at: u64, b: &[u8]) {
        for (k, c) in b.iter().enumerate() {
            if self.i as u64 == at + k as u64 {
                self.want = *c;
            }
        }
    }
    fn check(&self, o: &ObjectExt, id: u64) {
        vp::assert(o.obj.init_mem()[self.i] == self.want, id);
    }
}

/// C07: one instruction, any form, operands and spacing, at any address below 0xfff.
#[no_mangle]
pub extern "C" fn vp_c07() {
    vp::stub_format();
    vp::merge(true);
    let form = vp::case(FORMS.len() as u64) as usize;
    let style = vp::case(3);
    let mut t = Text::new();
    let mut e = [0u8; 10];
    let at;
    let n;
    if matches!(FORMS[form].2, Dest) || (!matches!(FORMS[form].2, Single | RegReg | Reg) && vp::case(2) == 0) {
        // constant given by a label anywhere in the address space
        let name = NAMES[vp::case(if style == 0 { 8 } else { 2 }) as usize];
        t.s(".pos 0x");
        let v = t.hex(b'l', 8, 0);
        t.byte(b'\n');
        t.s(name);
        t.s(":\n.pos 0x");
        at = t.hex(b'p', 3, 1);
        t.byte(b'\n');
        n = inst(&mut t, &mut e, form, style, Some((name, v)));
    } else {
        t.s(".pos 0x");
        at = t.hex(b'p', 3, 0);
        t.byte(b'\n');
        n = inst(&mut t, &mut e, form, style, None);
    }
    let mut img = Image::new();
    img.put(at, &e[..n]);
    vp::merge(false);
    let Some(o) = asm(&t) else {
        vp::assert(false, 1);
        return;
    };
    img.check(&o, 2);
    vp::reach(1);
}

/// One item of a layout program; updates the location counter and the expected image.
pub fn item(t: &mut Text, k: u64, id: u8, at: &mut u64, img: &mut Image, b: u64) {
    let mut le = [0u8; 10];
    let mut put = |at: &mut u64, e: &[u8]| {
        img.put(*at, e);
        *at += e.len() as u64;
    };
    for i in 0..8 {
        le[i] = (b >> (8 * i)) as u8;
    }
    match k {
        0 => {
            t.s("ret");
            put(at, &[0x90]);
        }
        1 => {
            t.s("subq %rcx,%rdx");
            put(at, &[0x61, 0x12]);
        }
        2 => {
            t.s("call B");
            put(at, &[0x80]);
            put(at, &le[..8]);
        }
        3 => {
            t.s("irmovq B, %rbx");
            put(at, &[0x30, 0xf3]);
            put(at, &le[..8]);
        }
        4..=7 => {
            let n = 1usize << (k - 4);
            t.s([".byte 0x", ".word 0x", ".long 0x", ".quad 0x"][k as usize - 4]);
            let v = t.hex(id, 2 * n, (k & 1) * 3);
            for i in 0..n {
                put(at, &[(v >> (8 * i)) as u8]);
            }
        }
        8 => {
            t.s(".word -");
            let v = t.dec(id, 3).wrapping_neg();
            put(at, &[v as u8, (v >> 8) as u8]);
        }
        9 => {
            t.s(".quad B");
            put(at, &le[..8]);
        }
        10 => {
            t.s(".pos 0x");
            *at = t.hex(id, 4, 0);
        }
        11 => {
            t.s(".align ");
            let n = [1, 2, 8, 64, 4096][vp::case(5) as usize];
            t.s(["1", "2", "8", "0x40", "4096"][n_index(n)]);
            *at = (*at + n - 1) & !(n - 1);
        }
        _ => t.s("   # nothing"),
    }
}
fn n_index(n: u64) -> usize {
    match n {
        1 => 0,
        2 => 1,
        8 => 2,
        64 => 3,
        _ => 4,
    }
}

fn symbol(o: &ObjectExt, name: &str, want: u64, id: u64) {
    match o.obj.symbols.get(name) {
        Some(a) => vp::assert(*a == want, id),
        None => vp::assert(false, id),
    }
}

/// C09: programs of `n` items with labels before, between and behind them.
fn c09(n: u64) {
    vp::stub_format();
    vp::merge(true);
    let mut img = Image::new();
    let mut t = Text::new();
    t.s(".pos 0x");
    let start = t.hex(b's', 4, 0);
    t.s("\nA: ");
    // the value of B is known only after the items; references use a placeholder that is
    // constrained to it below
    let b = vp::range("B", 0, 0xffff_ffff);
    let mut at = start;
    let mut want_a = start;
    let mut want_b = 0;
    for i in 0..n {
        if i == n - 1 {
            t.s("B:\n");
            want_b = at;
        }
        let k = vp::case(13);
        item(&mut t, k, b'f' + i as u8, &mut at, &mut img, b);
        if i == 0 && (k == 10 || k == 11) {
            // a label in front of .pos or .align stands for the address behind it
            want_a = at;
        }
        t.byte(b'\n');
    }
    t.s("_c9 :");
    t.n -= 2;
    t.s(":#");
    vp::assume(b == want_b);
    // everything lies in memory
    vp::assume(start <= 0xe000 && at <= 0xff00);
    vp::merge(false);
    let Some(o) = asm(&t) else {
        vp::assert(false, 1);
        return;
    };
    img.check(&o, 2);
    symbol(&o, "A", want_a, 3);
    symbol(&o, "B", want_b, 4);
    symbol(&o, "_c9", at, 5);
    vp::assert(o.obj.symbols.len() == 3, 6);
    vp::reach(1);
}
#[no_mangle]
pub extern "C" fn vp_c09_two() {
    c09(2);
}
#[no_mangle]
pub extern "C" fn vp_c09_three() {
    c09(3);
}

/// A two-character label name of one of several character classes.
fn name(t: &mut Text, a: &str, b: &str) -> [u8; 2] {
    let k = vp::case(3);
    let c = match k {
        0 => vp::range(a, b'a' as u64, b'z' as u64),
        1 => vp::range(a, b'A' as u64, b'Z' as u64),
        _ => b'_' as u64,
    } as u8;
    let d = match k {
        0 => vp::range(b, b'0' as u64, b'9' as u64),
        1 => vp::range(b, b'a' as u64, b'z' as u64),
        _ => vp::range(b, b'A' as u64, b'Z' as u64),
    } as u8;
    t.byte(c);
    t.byte(d);
    [c, d]
}

/// C09/C10: which label a reference means; undefined labels are errors.
#[no_mangle]
pub extern "C" fn vp_c09_names() {
    vp::stub_format();
    vp::merge(true);
    let mut t = Text::new();
    let head = ["", "call ", "jmp ", "jge ", "irmovq ", "ixorq ", ".quad "];
    let k = vp::case(7) as usize;
    if k == 0 {
        t.s("iaddq ");
    } else {
        t.s(head[k]);
    }
    let r = name(&mut t, "r0", "r1");
    if matches!(k, 0 | 4 | 5) {
        t.s(", %rax");
    }
    t.s("\n.pos 0x100\n");
    let a = name(&mut t, "a0", "a1");
    t.s(": nop\n.pos 0x200\n");
    let b = name(&mut t, "b0", "b1");
    t.s(":");
    // a label defined twice is outside the property
    vp::assume(a != b);
    vp::merge(false);
    let o = asm(&t);
    let at = match k {
        1..=3 => 1,
        6 => 0,
        _ => 2,
    };
    match o {
        Some(o) => {
            vp::assert(r == a || r == b, 1);
            let m = o.obj.init_mem();
            vp::assert(m[at] == 0 && m[at + 1] == if r == a { 1 } else { 2 } && m[at + 2] == 0, 2);
            vp::reach(1);
        }
        None => {
            vp::assert(r != a && r != b, 3);
            vp::reach(2);
        }
    }
}

/// C10: a numeral that does not fit is an error wherever it stands.
#[no_mangle]
pub extern "C" fn vp_c10_num() {
    vp::stub_format();
    vp::merge(true);
    let mut t = Text::new();
    let (pre, post) = [
        ("irmovq $", ", %rax"),
        ("isubq $", ", %rax"),
        ("mrmovq ", "(%rdi), %rax"),
        ("rmmovq %rax, ", "(%rdi)"),
        (".pos ", ""),
        (".align ", ""),
        (".byte ", ""),
        (".word ", ""),
        (".long ", ""),
        (".quad ", " # x"),
    ][vp::case(10) as usize];
    t.s(pre);
    let neg = vp::case(2) == 1;
    if neg {
        t.byte(b'-');
    }
    match vp::case(4) {
        0 => {
            // 17 hexadecimal digits
            t.s("0x");
            let d = vp::range("h", 1, 9);
            t.byte(b'0' + d as u8);
            t.hex(b'h', 16, 3);
        }
        1 => {
            // decimal, above 2^63
            t.s("92233720368547758");
            let v = t.dec(b'd', 2);
            vp::assume(v >= 9);
        }
        2 => {
            t.byte(b'0' + vp::range("h", 1, 9) as u8);
            t.dec(b'd', 3);
            t.s("0000000000000000");
        }
        _ => {
            t.s("0x");
            let d = vp::range("h", 1, 9);
            t.byte(b'0' + d as u8);
            t.s("000000000000000000000000");
        }
    }
    t.s(post);
    vp::merge(false);
    vp::assert(asm(&t).is_none(), 1);
    vp::reach(1);
}

/// C10: an item that does not fit into memory is an error, one that fits is not.
#[no_mangle]
pub extern "C" fn vp_c10_addr() {
    vp::stub_format();
    vp::merge(true);
    let mut t = Text::new();
    t.s(".pos ");
    let p = match vp::case(5) {
        0 => {
            t.s("0x");
            t.hex(b'p', 4, vp::case(3))
        }
        1 => {
            t.s("0x");
            t.hex(b'p', 16, vp::case(4))
        }
        2 => {
            t.s("-");
            let v = t.dec(b'p', 2);
            v.wrapping_neg()
        }
        3 => {
            // around the end of memory
            t.s("655");
            65500 + t.dec(b'p', 2)
        }
        _ => {
            t.s("9223372036854775");
            9223372036854775000 + t.dec(b'p', 3)
        }
    };
    let mut at = p as u128;
    t.byte(b'\n');
    match vp::case(3) {
        0 => {}
        1 => {
            t.s(".align 4\n");
            at = (at + 3) & !3;
        }
        _ => t.s("lab:\n"),
    }
    let k = vp::case(10) as usize;
    let n = [0u64, 1, 2, 9, 10, 1, 2, 4, 8, 8][k];
    t.s(["# nothing", "halt", "pushq %rax", "jne X", "rmmovq %rax,(%rbx)", ".byte 1", ".word 1", ".long 1", ".quad 1", ".quad X"][k]);
    t.s("\n.pos 0\nX:");
    vp::merge(false);
    let ok = asm(&t).is_some();
    if k > 0 {
        vp::assert(ok == (at <= 65536 - n as u128), 1);
    } else if at <= 65536 {
        vp::assert(ok, 2);
    }
    vp::reach(1);
}

/// C10: alignment by any number, from any address: rounds up, or is an error.
#[no_mangle]
pub extern "C" fn vp_c10_align() {
    vp::stub_format();
    vp::merge(true);
    let mut t = Text::new();
    t.s(".pos 0x");
    let p = if vp::case(2) == 0 { t.hex(b'p', 3, 0) } else { t.hex(b'p', 16, vp::case(3)) };
    t.s("\n.align ");
    let n = match vp::case(6) {
        0 => {
            t.s("0x");
            t.hex(b'n', 3, 0)
        }
        1 => t.dec(b'n', 2),
        2 => {
            t.byte(b'-');
            t.dec(b'n', 2).wrapping_neg()
        }
        3 => {
            t.s("0x");
            t.hex(b'n', 4, 1)
        }
        4 => {
            let k = vp::case(4);
            t.s(["0x8000000000000000", "0x4000000000000000", "-0x8000000000000000", "0x100000"][k as usize]);
            [1 << 63, 1 << 62, 1 << 63, 1 << 20][k as usize]
        }
        _ => {
            t.s("0x");
            t.hex(b'n', 16, 3)
        }
    };
    t.s("\nX: halt\n");
    vp::merge(false);
    let o = asm(&t);
    if n.count_ones() != 1 {
        vp::assert(o.is_none(), 1);
        return;
    }
    let up = (p as u128 + (n - 1) as u128) & !((n - 1) as u128);
    vp::assert(o.is_some() == (up < 65536), 2);
    if let Some(o) = o {
        symbol(&o, "X", up as u64, 3);
    }
    vp::reach(1);
}

/// C10: arbitrary characters behind the beginning of a line: never an abort.
fn c10_any(n: usize) {
    vp::stub_format();
    vp::merge(false);
    let mut t = Text::new();
    t.s(["", "irmovq $", "mrmovq ", ".pos ", ".align 0x", "x:", "jmp", "addq %r", ".byte -", "call a\n", "cmov", "rmmovq %rax,", ".l", "iaddq x,"][vp::case(14) as usize]);
    // all ASCII, or one character of two bytes at either end
    let wide = vp::case(3);
    for i in 0..n {
        if wide == 1 && i == 0 || wide == 2 && i == n - 1 {
            t.byte(vp::range("u0", 0xc2, 0xdf) as u8);
            t.byte(vp::range("u1", 0x80, 0xbf) as u8);
            continue;
        }
        let c = vp::u8(&vp::tag(b'c', i));
        vp::assume(c < 128);
        t.byte(c);
    }
    let _ = asm(&t);
    vp::reach(1);
}
#[no_mangle]
pub extern "C" fn vp_c10_any4() {
    c10_any(4);
}
#[no_mangle]
pub extern "C" fn vp_c10_any5() {
    c10_any(5);
}
