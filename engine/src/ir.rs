//! Parser for the subset of textual LLVM IR that rustc emits after fat LTO.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (*w + 7) / 8 {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(..) => self.size().next_power_of_two().min(64),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// store size rounded to ABI alignment (alloc size)
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => ((*n as u64) + 7) / 8,
                _ => *n as u64 * t.size(),
            },
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn nelem(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
}

/// Constant, before conversion to an engine value.
#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    Agg(Vec<K>),
    Bytes(Vec<u8>),
    Zero,
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    C(u64),
    K(Rc<(Ty, K)>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B {
    Add,
    Sub,
    Mul,
    Udiv,
    Urem,
    Sdiv,
    Srem,
    And,
    Or,
    Xor,
    Shl,
    Lshr,
    Ashr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum P {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    Zext,
    Sext,
    Bitcast,
    PtrInt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(u32),
    Ind(O),
    Asm,
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub ret: Ty,
    pub callee: Callee,
    pub args: Vec<(Ty, O)>,
    pub noreturn: bool,
    /// for invoke
    pub normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(B, Ty, u32, O, O),
    Icmp(P, Ty, u32, O, O),
    Load(u32, Ty, O),
    Store(Ty, O, O),
    /// dst, base, const offset, (index, index width, scale)
    Gep(u32, O, u64, Vec<(O, u32, u64)>),
    Cast(CastK, Ty, Ty, u32, O),
    /// cond type (i1 or vector), value type
    Select(Ty, Ty, u32, O, O, O),
    Call(Rc<CallI>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(u32, O, u32, Rc<Vec<(u64, u32)>>),
    Ret(Option<(Ty, O)>),
    Unreachable,
    Alloca(u32, u64),
    ExtractValue(u32, Ty, O, Vec<u32>),
    InsertValue(u32, Ty, O, Ty, O, Vec<u32>),
    ExtractElem(u32, Ty, O, O),
    InsertElem(u32, Ty, O, O, O),
    Shuffle(u32, Ty, O, O, Vec<u32>),
    Freeze(u32, Ty, O),
    Rmw(u32, String, Ty, O, O),
    CmpXchg(u32, Ty, O, O, O),
    Nop,
    Unsupported(Rc<str>),
}

#[derive(Debug)]
pub struct Block {
    /// (dst, type, incoming by predecessor block)
    pub phis: Vec<(u32, Ty, Vec<(u32, O)>)>,
    pub insts: Vec<I>,
    pub succs: Vec<u32>,
    pub name: String,
}

pub struct Func {
    pub name: String,
    pub id: u32,
    pub params: Vec<(u32, Ty)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    /// immediate postdominator per block: None = function exit, u32::MAX-1 = never reaches exit
    pub ipdom: Vec<u32>,
    /// live-in registers per block (bitset) incl. phi uses? (excluding phi dsts of the block)
    pub live: RefCell<Option<Rc<Vec<Vec<u64>>>>>,
    pub rty: RefCell<Option<Rc<Vec<Ty>>>>,
}
pub const EXIT: u32 = u32::MAX;
pub const NOEXIT: u32 = u32::MAX - 1;

pub enum Sym {
    Func { start: usize, end: usize },
    Decl { noreturn: bool, weak: bool },
    Global { start: usize, end: usize, constant: bool },
    Alias(String),
}

pub struct Module {
    pub text: String,
    pub names: HashMap<String, u32>,
    pub syms: Vec<(String, Sym)>,
    pub attrs_noreturn: HashMap<u32, bool>,
    pub types: HashMap<String, String>,
    pub noreturn_fn: Vec<bool>,
    pub funcs: RefCell<HashMap<u32, Rc<Func>>>,
}

pub const SLOT_BITS: u32 = 26;
/// objects start this far into their slot, so that small negative offsets stay in it
pub const BIAS: u64 = 1 << 16;
pub const GLOBAL_SLOT0: u64 = 1;
pub const STACK_SLOT0: u64 = 1 << 18;
pub const HEAP_SLOT0: u64 = 1 << 19;
pub const FN_BASE: u64 = 0x7f00_0000_0000_0000;

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Word(&'a str),
    Local(&'a str),
    Global(String),
    Num(&'a str),
    Str(&'a str),
    CStr(Vec<u8>),
    Meta(&'a str),
    Attr(u32),
    P(u8),
    Eof,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self {
        Lex { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b'\t') {
            self.i += 1;
        }
    }
    fn sl(&self, a: usize, b: usize) -> &'a str {
        unsafe { std::str::from_utf8_unchecked(&self.s[a..b]) }
    }
    fn quoted(&mut self) -> &'a str {
        // at opening quote
        let a = self.i + 1;
        let mut j = a;
        while self.s[j] != b'"' {
            j += 1;
        }
        self.i = j + 1;
        self.sl(a, j)
    }
    fn next(&mut self) -> Tok<'a> {
        self.ws();
        if self.i >= self.s.len() {
            return Tok::Eof;
        }
        let c = self.s[self.i];
        match c {
            b'%' => {
                self.i += 1;
                if self.s[self.i] == b'"' {
                    return Tok::Local(self.quoted());
                }
                let a = self.i;
                while self.i < self.s.len() && is_id(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Local(self.sl(a, self.i))
            }
            b'@' => {
                self.i += 1;
                if self.s[self.i] == b'"' {
                    return Tok::Global(self.quoted().to_string());
                }
                let a = self.i;
                while self.i < self.s.len() && is_id(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Global(self.sl(a, self.i).to_string())
            }
            b'"' => Tok::Str(self.quoted()),
            b'!' => {
                self.i += 1;
                let a = self.i;
                while self.i < self.s.len() && is_id(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Meta(self.sl(a, self.i))
            }
            b'#' => {
                self.i += 1;
                let a = self.i;
                while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                    self.i += 1;
                }
                Tok::Attr(self.sl(a, self.i).parse().unwrap_or(0))
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 1;
                let q = self.quoted().as_bytes();
                let mut v = Vec::with_capacity(q.len());
                let mut k = 0;
                while k < q.len() {
                    if q[k] == b'\\' {
                        if q[k + 1] == b'\\' {
                            v.push(b'\\');
                            k += 2;
                        } else {
                            v.push(u8::from_str_radix(std::str::from_utf8(&q[k + 1..k + 3]).unwrap(), 16).unwrap());
                            k += 3;
                        }
                    } else {
                        v.push(q[k]);
                        k += 1;
                    }
                }
                Tok::CStr(v)
            }
            b'-' | b'0'..=b'9' => {
                let a = self.i;
                self.i += 1;
                while self.i < self.s.len() && (is_id(self.s[self.i]) || self.s[self.i] == b'+') {
                    self.i += 1;
                }
                Tok::Num(self.sl(a, self.i))
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let a = self.i;
                while self.i < self.s.len() && is_id(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Word(self.sl(a, self.i))
            }
            _ => {
                self.i += 1;
                Tok::P(c)
            }
        }
    }
    fn peek(&mut self) -> Tok<'a> {
        let i = self.i;
        let t = self.next();
        self.i = i;
        t
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.i < self.s.len() && self.s[self.i] == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("IR parse: expected {:?} at {:?}", c as char, self.sl(self.i.saturating_sub(80), (self.i + 80).min(self.s.len())));
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        let i = self.i;
        if self.next() == Tok::Word(w) {
            true
        } else {
            self.i = i;
            false
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                Tok::Eof => panic!("eof"),
                _ => {}
            }
        }
    }
}

fn parse_int(s: &str, w: u32) -> u128 {
    let v = if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().unwrap() as i128).wrapping_neg() as u128
    } else if let Some(h) = s.strip_prefix("0x") {
        u128::from_str_radix(h.trim_start_matches(|c: char| !c.is_ascii_hexdigit()), 16).unwrap_or(0)
    } else if s.contains('.') || s.contains('e') {
        s.parse::<f64>().map(|f| f.to_bits() as u128).unwrap_or(0)
    } else {
        s.parse::<u128>().unwrap_or_else(|_| panic!("int {}", s))
    };
    mask(v, w)
}
pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("read ll");
        let mut syms: Vec<(String, Sym)> = Vec::new();
        let mut attrs = HashMap::new();
        let mut types = HashMap::new();
        let b = text.as_bytes();
        let n = b.len();
        let mut i = 0;
        let mut noret: Vec<bool> = vec![];
        let mut attr_refs: Vec<Option<u32>> = vec![];
        while i < n {
            let e = memchr(b, b'\n', i);
            let line = &text[i..e];
            match b[i] {
                b'd' if line.starts_with("define") => {
                    let name = sym_name(line);
                    // find the end: line "}"
                    let mut j = e + 1;
                    loop {
                        let k = memchr(b, b'\n', j);
                        if k == j + 1 && b[j] == b'}' {
                            break;
                        }
                        j = k + 1;
                    }
                    syms.push((name, Sym::Func { start: i, end: j }));
                    attr_refs.push(last_attr(line));
                    noret.push(false);
                    i = j + 2;
                    continue;
                }
                b'd' if line.starts_with("declare") => {
                    let name = sym_name(line);
                    let a = last_attr(line);
                    syms.push((name, Sym::Decl { noreturn: false, weak: line.contains("extern_weak") }));
                    attr_refs.push(a);
                    noret.push(false);
                }
                b'@' => {
                    let name = sym_name(line);
                    let rest = &line[name_end(line)..];
                    if rest.contains("= alias ") || rest.contains(" alias ") && !rest.contains(" c\"") && (rest.contains(" unnamed_addr alias ") || rest.trim_start().starts_with("= ") && rest.contains(" alias ")) {
                        let t = rest.rfind('@').map(|p| sym_name(&rest[p..])).unwrap_or_default();
                        syms.push((name, Sym::Alias(t)));
                    } else {
                        let head = &rest[..rest.len().min(160)];
                        let constant = head.find(" constant ").is_some() && head.find(" global ").map_or(true, |g| g > head.find(" constant ").unwrap());
                        syms.push((name, Sym::Global { start: i, end: e, constant }));
                    }
                    attr_refs.push(None);
                    noret.push(false);
                }
                b'%' => {
                    if let Some(p) = line.find(" = type ") {
                        types.insert(line[1..p].trim_matches('"').to_string(), line[p + 8..].to_string());
                    }
                }
                b'a' if line.starts_with("attributes #") => {
                    let rest = &line[12..];
                    let p = rest.find(' ').unwrap();
                    let id: u32 = rest[..p].parse().unwrap();
                    attrs.insert(id, rest.split_whitespace().any(|w| w == "noreturn"));
                }
                _ => {}
            }
            i = e + 1;
        }
        let mut names = HashMap::new();
        for (k, (nm, _)) in syms.iter().enumerate() {
            names.insert(nm.clone(), k as u32);
        }
        for k in 0..syms.len() {
            if let Some(a) = attr_refs[k] {
                noret[k] = attrs.get(&a).copied().unwrap_or(false);
                if let Sym::Decl { noreturn, .. } = &mut syms[k].1 {
                    *noreturn = noret[k];
                }
            }
        }
        Module { text, names, syms, attrs_noreturn: attrs, types, noreturn_fn: noret, funcs: RefCell::new(HashMap::new()) }
    }

    pub fn addr_of(&self, id: u32) -> u64 {
        match &self.syms[id as usize].1 {
            Sym::Func { .. } => FN_BASE + id as u64 * 16,
            Sym::Decl { weak, .. } => {
                if *weak {
                    0
                } else {
                    FN_BASE + id as u64 * 16
                }
            }
            Sym::Global { .. } => ((GLOBAL_SLOT0 + id as u64) << SLOT_BITS) + BIAS,
            Sym::Alias(t) => self.addr_of(self.names[t]),
        }
    }
    pub fn sym(&self, name: &str) -> u32 {
        match self.names.get(name) {
            Some(x) => *x,
            None => panic!("unknown symbol {}", name),
        }
    }

    fn ty(&self, l: &mut Lex) -> Ty {
        let t = match l.next() {
            Tok::Word(w) => match w {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "half" => Ty::Int(16),
                "x86_fp80" => Ty::Int(80),
                "fp128" => Ty::Int(128),
                "metadata" => Ty::Meta,
                "label" | "token" => Ty::Meta,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w))),
                _ => panic!("type {}", w),
            },
            Tok::P(b'{') => {
                let mut v = vec![];
                if !l.eat(b'}') {
                    loop {
                        v.push(self.ty(l));
                        if l.eat(b'}') {
                            break;
                        }
                        l.expect(b',');
                    }
                }
                Ty::Struct(Rc::new(v), false)
            }
            Tok::P(b'<') => {
                if l.eat(b'{') {
                    let mut v = vec![];
                    if !l.eat(b'}') {
                        loop {
                            v.push(self.ty(l));
                            if l.eat(b'}') {
                                break;
                            }
                            l.expect(b',');
                        }
                    }
                    l.expect(b'>');
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let Tok::Num(n) = l.next() else { panic!("vec") };
                    assert!(l.eatw("x"));
                    let t = self.ty(l);
                    l.expect(b'>');
                    Ty::Vec(n.parse().unwrap(), Rc::new(t))
                }
            }
            Tok::P(b'[') => {
                let Tok::Num(n) = l.next() else { panic!("arr") };
                assert!(l.eatw("x"));
                let t = self.ty(l);
                l.expect(b']');
                Ty::Arr(n.parse().unwrap(), Rc::new(t))
            }
            Tok::Local(n) => {
                let d = self.types.get(n).expect("named type").clone();
                let mut l2 = Lex::new(&d);
                self.ty(&mut l2)
            }
            x => panic!("type tok {:?} near {:?}", x, l.sl(l.i.saturating_sub(100), (l.i + 40).min(l.s.len()))),
        };
        // function type suffix: "i64 (i64, ...)" or pointer star are handled by callers
        t
    }

    fn is_ty_start(l: &mut Lex) -> bool {
        match l.peek() {
            Tok::Word(w) => {
                matches!(w, "void" | "ptr" | "float" | "double" | "half" | "metadata" | "x86_fp80" | "fp128" | "label" | "token")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P(b'{') | Tok::P(b'<') | Tok::P(b'[') => true,
            Tok::Local(_) => true,
            _ => false,
        }
    }

    /// constant of the given type
    fn constant(&self, l: &mut Lex, ty: &Ty) -> K {
        match l.next() {
            Tok::Num(n) => K::Int(parse_int(n, if ty.is_scalar() { ty.bits() } else { 128 })),
            Tok::CStr(v) => K::Bytes(v),
            Tok::Global(g) => K::Int(self.addr_of(self.sym(&g)) as u128),
            Tok::P(b'{') => {
                let mut v = vec![];
                if !l.eat(b'}') {
                    loop {
                        let t = self.ty(l);
                        v.push(self.constant(l, &t));
                        if l.eat(b'}') {
                            break;
                        }
                        l.expect(b',');
                    }
                }
                K::Agg(v)
            }
            Tok::P(b'[') => {
                let mut v = vec![];
                if !l.eat(b']') {
                    loop {
                        let t = self.ty(l);
                        v.push(self.constant(l, &t));
                        if l.eat(b']') {
                            break;
                        }
                        l.expect(b',');
                    }
                }
                K::Agg(v)
            }
            Tok::P(b'<') => {
                let mut v = vec![];
                let braces = l.eat(b'{');
                let close = if braces { b'}' } else { b'>' };
                if !l.eat(close) {
                    loop {
                        let t = self.ty(l);
                        v.push(self.constant(l, &t));
                        if l.eat(close) {
                            break;
                        }
                        l.expect(b',');
                    }
                }
                if braces {
                    l.expect(b'>');
                }
                K::Agg(v)
            }
            Tok::Word(w) => match w {
                "true" => K::Int(1),
                "false" | "null" => K::Int(0),
                "zeroinitializer" | "undef" | "poison" | "none" => K::Zero,
                "splat" => {
                    l.expect(b'(');
                    let t = self.ty(l);
                    let k = self.constant(l, &t);
                    l.expect(b')');
                    K::Agg(vec![k; ty.nelem()])
                }
                "getelementptr" => {
                    while !matches!(l.peek(), Tok::P(b'(')) {
                        if let Tok::Word("inrange") = l.next() {
                            l.skip_parens();
                        }
                    }
                    l.expect(b'(');
                    let st = self.ty(l);
                    l.expect(b',');
                    let pt = self.ty(l);
                    let base = self.kint(l, &pt);
                    let mut off = 0i128;
                    let mut cur = st;
                    let mut first = true;
                    while l.eat(b',') {
                        let it = self.ty(l);
                        let v = self.kint(l, &it);
                        let w = it.bits();
                        let sv = sext128(v, w);
                        if first {
                            off += sv * cur.size() as i128;
                            first = false;
                        } else {
                            off += cur.field_off(sv as usize) as i128;
                            cur = cur.elem(sv as usize);
                        }
                    }
                    l.expect(b')');
                    K::Int(mask(base.wrapping_add(off as u128), 64))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                    l.expect(b'(');
                    let t = self.ty(l);
                    let v = self.kint(l, &t);
                    assert!(l.eatw("to"));
                    let t2 = self.ty(l);
                    l.expect(b')');
                    K::Int(mask(v, t2.bits()))
                }
                "add" | "sub" | "xor" | "mul" => {
                    while !matches!(l.peek(), Tok::P(b'(')) {
                        l.next();
                    }
                    l.expect(b'(');
                    let t = self.ty(l);
                    let a = self.kint(l, &t);
                    l.expect(b',');
                    let t = self.ty(l);
                    let b = self.kint(l, &t);
                    l.expect(b')');
                    let r = match w {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        _ => a ^ b,
                    };
                    K::Int(mask(r, t.bits()))
                }
                _ => panic!("const word {} near {:?}", w, l.sl(l.i.saturating_sub(100), (l.i + 40).min(l.s.len()))),
            },
            x => panic!("const tok {:?} near {:?}", x, l.sl(l.i.saturating_sub(100), (l.i + 40).min(l.s.len()))),
        }
    }
    fn kint(&self, l: &mut Lex, t: &Ty) -> u128 {
        match self.constant(l, t) {
            K::Int(v) => v,
            K::Zero => 0,
            _ => panic!("kint"),
        }
    }

    /// Global initializer: (size, type, const)
    pub fn global_init(&self, id: u32) -> (Ty, Option<K>) {
        let Sym::Global { start, end, .. } = &self.syms[id as usize].1 else { panic!() };
        let line = &self.text[*start..*end];
        let mut l = Lex::new(line);
        l.next(); // name
        l.expect(b'=');
        let mut external = false;
        loop {
            match l.next() {
                Tok::Word("global") | Tok::Word("constant") => break,
                Tok::Word("external") | Tok::Word("extern_weak") => external = true,
                Tok::Eof => panic!("global {}", line),
                _ => {}
            }
        }
        let t = self.ty(&mut l);
        if external {
            return (t, None);
        }
        let k = self.constant(&mut l, &t);
        (t, Some(k))
    }

    pub fn func(&self, id: u32) -> Rc<Func> {
        if let Some(f) = self.funcs.borrow().get(&id) {
            return f.clone();
        }
        let f = Rc::new(self.parse_func(id));
        self.funcs.borrow_mut().insert(id, f.clone());
        f
    }

    fn parse_func(&self, id: u32) -> Func {
        let Sym::Func { start, end } = &self.syms[id as usize].1 else { panic!("no body: {}", self.syms[id as usize].0) };
        let body = &self.text[*start..*end];
        let hdr_end = memchr(body.as_bytes(), b'\n', 0);
        let hdr = &body[..hdr_end];
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut blocks_ix: HashMap<String, u32> = HashMap::new();
        // params
        let at = hdr.find('@').unwrap();
        let mut l = Lex { s: hdr.as_bytes(), i: at };
        l.next();
        l.expect(b'(');
        let mut params = vec![];
        let mut nreg = 0u32;
        let mut unnamed = 0u32;
        if !l.eat(b')') {
            loop {
                if let Tok::P(b'.') | Tok::Word("...") = l.peek() {
                    l.next();
                    l.eat(b'.');
                    l.eat(b'.');
                    l.expect(b')');
                    break;
                }
                let t = self.ty(&mut l);
                // attributes until local or , or )
                let mut name = None;
                loop {
                    match l.peek() {
                        Tok::Local(n) => {
                            l.next();
                            name = Some(n.to_string());
                        }
                        Tok::P(b',') | Tok::P(b')') => break,
                        Tok::P(b'(') => l.skip_parens(),
                        _ => {
                            l.next();
                        }
                    }
                }
                let name = name.unwrap_or_else(|| {
                    let s = unnamed.to_string();
                    unnamed += 1;
                    s
                });
                regs.insert(name, nreg);
                params.push((nreg, t));
                nreg += 1;
                if l.eat(b')') {
                    break;
                }
                l.expect(b',');
            }
        }
        // first pass: collect labels and lines
        let mut lines: Vec<(u32, &str)> = vec![];
        let mut names: Vec<String> = vec![];
        let mut cur: Option<u32> = None;
        let mut it = body[hdr_end + 1..].split('\n').peekable();
        while let Some(ln) = it.next() {
            if ln.is_empty() || ln.starts_with(';') {
                continue;
            }
            if !ln.starts_with(' ') {
                // label
                let lab = if ln.starts_with('"') {
                    let q = ln[1..].find('"').unwrap();
                    ln[1..1 + q].to_string()
                } else {
                    ln[..ln.find(':').unwrap()].to_string()
                };
                let bi = names.len() as u32;
                blocks_ix.insert(lab.clone(), bi);
                names.push(lab);
                cur = Some(bi);
                continue;
            }
            let t = ln.trim_start();
            if t.starts_with(';') || t.starts_with('#') {
                continue;
            }
            if cur.is_none() {
                // implicit entry block
                let bi = names.len() as u32;
                names.push("<entry>".into());
                cur = Some(bi);
            }
            lines.push((cur.unwrap(), t));
        }
        // join multi-line (switch tables, invoke continuation)
        let mut joined: Vec<(u32, String)> = vec![];
        let mut in_switch = false;
        for (b, t) in lines {
            if in_switch {
                let last = joined.last_mut().unwrap();
                last.1.push(' ');
                last.1.push_str(t);
                if t.starts_with(']') {
                    in_switch = false;
                }
                continue;
            }
            if t.starts_with("to label") || t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") {
                let last = joined.last_mut().unwrap();
                last.1.push(' ');
                last.1.push_str(t);
                continue;
            }
            joined.push((b, t.to_string()));
            if t.starts_with("switch ") && !t.contains(']') {
                in_switch = true;
            }
        }
        // register numbering
        for (_, t) in &joined {
            if t.starts_with('%') {
                let mut l = Lex::new(t);
                if let Tok::Local(n) = l.next() {
                    regs.insert(n.to_string(), nreg);
                    nreg += 1;
                }
            }
        }
        let mut blocks: Vec<Block> = names.iter().map(|n| Block { phis: vec![], insts: vec![], succs: vec![], name: n.clone() }).collect();
        let mut cx = FCtx { m: self, regs: &regs, blocks: &blocks_ix };
        for (b, t) in &joined {
            cx.inst(t, &mut blocks[*b as usize]);
        }
        // succs
        for b in blocks.iter_mut() {
            let mut s = vec![];
            match b.insts.last() {
                Some(I::Br(x)) => s.push(*x),
                Some(I::CondBr(_, x, y)) => {
                    s.push(*x);
                    s.push(*y)
                }
                Some(I::Switch(_, _, d, c)) => {
                    s.push(*d);
                    for (_, x) in c.iter() {
                        s.push(*x)
                    }
                }
                Some(I::Call(c)) if c.normal.is_some() => s.push(c.normal.unwrap()),
                _ => {}
            }
            s.sort();
            s.dedup();
            b.succs = s;
        }
        let ipdom = ipdoms(&blocks);
        Func { name: self.syms[id as usize].0.clone(), id, params, nregs: nreg, blocks, ipdom, live: RefCell::new(None), rty: RefCell::new(None) }
    }
}

fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

fn memchr(b: &[u8], c: u8, from: usize) -> usize {
    match b[from..].iter().position(|x| *x == c) {
        Some(p) => from + p,
        None => b.len(),
    }
}
fn name_end(line: &str) -> usize {
    let at = line.find('@').unwrap();
    let b = line.as_bytes();
    if b[at + 1] == b'"' {
        at + 2 + line[at + 2..].find('"').unwrap() + 1
    } else {
        let mut j = at + 1;
        while j < b.len() && is_id(b[j]) {
            j += 1;
        }
        j
    }
}
fn sym_name(line: &str) -> String {
    let at = line.find('@').unwrap();
    let e = name_end(line);
    line[at + 1..e].trim_matches('"').to_string()
}
fn last_attr(line: &str) -> Option<u32> {
    let p = line.rfind(" #")?;
    let r = &line[p + 2..];
    let d: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().ok()
}

struct FCtx<'m> {
    m: &'m Module,
    regs: &'m HashMap<String, u32>,
    blocks: &'m HashMap<String, u32>,
}

impl<'m> FCtx<'m> {
    fn reg(&self, n: &str) -> u32 {
        *self.regs.get(n).unwrap_or_else(|| panic!("reg %{}", n))
    }
    fn blk(&self, n: &str) -> u32 {
        match self.blocks.get(n) {
            Some(b) => *b,
            None => {
                // the implicit entry block has a number as its name
                0
            }
        }
    }
    fn opnd(&self, l: &mut Lex, ty: &Ty) -> O {
        if let Tok::Local(n) = l.peek() {
            l.next();
            return O::R(self.reg(n));
        }
        let k = self.m.constant(l, ty);
        match (&k, ty.is_scalar()) {
            (K::Int(v), true) if ty.bits() <= 64 => O::C(*v as u64),
            (K::Zero, true) if ty.bits() <= 64 => O::C(0),
            _ => O::K(Rc::new((ty.clone(), k))),
        }
    }
    fn ty_opnd(&self, l: &mut Lex) -> (Ty, O) {
        let t = self.m.ty(l);
        let o = self.opnd(l, &t);
        (t, o)
    }
    fn label(&self, l: &mut Lex) -> u32 {
        assert!(l.eatw("label"));
        let Tok::Local(n) = l.next() else { panic!("label") };
        self.blk(n)
    }
    fn call(&self, l: &mut Lex, dst: Option<u32>, invoke: bool) -> I {
        // attributes before the type
        loop {
            if Module::is_ty_start(l) {
                break;
            }
            match l.peek() {
                Tok::P(b'(') => l.skip_parens(),
                _ => {
                    l.next();
                }
            }
        }
        let ret = self.m.ty(l);
        // optional function type params "(i64, ...)"
        if let Tok::P(b'(') = l.peek() {
            l.skip_parens();
        }
        let callee = match l.next() {
            Tok::Global(g) => {
                let mut id = self.m.sym(&g);
                while let Sym::Alias(t) = &self.m.syms[id as usize].1 {
                    id = self.m.sym(t);
                }
                Callee::Name(id)
            }
            Tok::Local(n) => Callee::Ind(O::R(self.reg(n))),
            Tok::Word("asm") => {
                loop {
                    match l.peek() {
                        Tok::P(b'(') => break,
                        _ => {
                            l.next();
                        }
                    }
                }
                Callee::Asm
            }
            Tok::Word("inttoptr") | Tok::Word("null") | Tok::Word("undef") | Tok::Word("poison") => {
                if let Tok::P(b'(') = l.peek() {
                    l.skip_parens();
                }
                Callee::Ind(O::C(0))
            }
            x => panic!("callee {:?}", x),
        };
        l.expect(b'(');
        let mut args = vec![];
        if !l.eat(b')') {
            loop {
                let t = self.m.ty(l);
                if t == Ty::Meta {
                    // skip metadata operand
                    let mut d = 0;
                    loop {
                        match l.peek() {
                            Tok::P(b'(') => d += 1,
                            Tok::P(b')') => {
                                if d == 0 {
                                    break;
                                }
                                d -= 1
                            }
                            Tok::P(b',') if d == 0 => break,
                            _ => {}
                        }
                        l.next();
                    }
                } else {
                    loop {
                        match l.peek() {
                            Tok::Word(w)
                                if !matches!(
                                    w,
                                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "none" | "add" | "sub" | "xor" | "mul" | "trunc" | "zext" | "bitcast"
                                ) =>
                            {
                                l.next();
                                if let Tok::P(b'(') = l.peek() {
                                    l.skip_parens();
                                }
                                if w == "align" {
                                    l.next();
                                }
                            }
                            _ => break,
                        }
                    }
                    let o = self.opnd(l, &t);
                    args.push((t, o));
                }
                if l.eat(b')') {
                    break;
                }
                l.expect(b',');
            }
        }
        let mut noreturn = false;
        let mut normal = None;
        loop {
            match l.next() {
                Tok::Attr(a) => noreturn |= self.m.attrs_noreturn.get(&a).copied().unwrap_or(false),
                Tok::Word("to") => {
                    normal = Some(self.label(l));
                }
                Tok::Word("noreturn") => noreturn = true,
                Tok::Eof => break,
                Tok::P(b',') => {
                    if !invoke {
                        break;
                    }
                }
                _ => {}
            }
        }
        if let Callee::Name(id) = callee {
            noreturn |= self.m.noreturn_fn[id as usize];
        }
        I::Call(Rc::new(CallI { dst, ret, callee, args, noreturn, normal }))
    }

    fn inst(&mut self, t: &str, b: &mut Block) {
        let mut l = Lex::new(t);
        let mut dst = None;
        if let Tok::Local(n) = l.peek() {
            l.next();
            l.expect(b'=');
            dst = Some(self.reg(n));
        }
        let Tok::Word(mut op) = l.next() else { panic!("inst {}", t) };
        while matches!(op, "tail" | "musttail" | "notail") {
            let Tok::Word(o2) = l.next() else { panic!() };
            op = o2;
        }
        let d = dst.unwrap_or(0);
        let i = match op {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while matches!(l.peek(), Tok::Word("nuw" | "nsw" | "exact" | "disjoint")) {
                    l.next();
                }
                let ty = self.m.ty(&mut l);
                let a = self.opnd(&mut l, &ty);
                l.expect(b',');
                let c = self.opnd(&mut l, &ty);
                let k = match op {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "mul" => B::Mul,
                    "udiv" => B::Udiv,
                    "urem" => B::Urem,
                    "sdiv" => B::Sdiv,
                    "srem" => B::Srem,
                    "and" => B::And,
                    "or" => B::Or,
                    "xor" => B::Xor,
                    "shl" => B::Shl,
                    "lshr" => B::Lshr,
                    _ => B::Ashr,
                };
                I::Bin(k, ty, d, a, c)
            }
            "icmp" => {
                let mut p = l.next();
                if p == Tok::Word("samesign") {
                    p = l.next();
                }
                let p = match p {
                    Tok::Word("eq") => P::Eq,
                    Tok::Word("ne") => P::Ne,
                    Tok::Word("ugt") => P::Ugt,
                    Tok::Word("uge") => P::Uge,
                    Tok::Word("ult") => P::Ult,
                    Tok::Word("ule") => P::Ule,
                    Tok::Word("sgt") => P::Sgt,
                    Tok::Word("sge") => P::Sge,
                    Tok::Word("slt") => P::Slt,
                    Tok::Word("sle") => P::Sle,
                    x => panic!("icmp {:?}", x),
                };
                let ty = self.m.ty(&mut l);
                let a = self.opnd(&mut l, &ty);
                l.expect(b',');
                let c = self.opnd(&mut l, &ty);
                I::Icmp(p, ty, d, a, c)
            }
            "load" => {
                while matches!(l.peek(), Tok::Word("volatile" | "atomic")) {
                    l.next();
                }
                let ty = self.m.ty(&mut l);
                l.expect(b',');
                let (_, p) = self.ty_opnd(&mut l);
                I::Load(d, ty, p)
            }
            "store" => {
                while matches!(l.peek(), Tok::Word("volatile" | "atomic")) {
                    l.next();
                }
                let (ty, v) = self.ty_opnd(&mut l);
                l.expect(b',');
                let (_, p) = self.ty_opnd(&mut l);
                I::Store(ty, v, p)
            }
            "getelementptr" => {
                loop {
                    match l.peek() {
                        Tok::Word("inbounds" | "nuw" | "nusw") => {
                            l.next();
                        }
                        Tok::Word("inrange") => {
                            l.next();
                            l.skip_parens();
                        }
                        _ => break,
                    }
                }
                let st = self.m.ty(&mut l);
                l.expect(b',');
                let (_, base) = self.ty_opnd(&mut l);
                let mut off = 0u64;
                let mut dynv = vec![];
                let mut cur = st;
                let mut first = true;
                while matches!(l.peek(), Tok::P(b',')) {
                    let save = l.i;
                    l.next();
                    if !Module::is_ty_start(&mut l) {
                        l.i = save;
                        break;
                    }
                    let (it, o) = self.ty_opnd(&mut l);
                    let w = it.bits();
                    let scale = if first { cur.size() } else { 0 };
                    if first {
                        first = false;
                        match o {
                            O::C(v) => off = off.wrapping_add((sext128(v as u128, w) as i64 as u64).wrapping_mul(scale)),
                            o => dynv.push((o, w, scale)),
                        }
                    } else {
                        match (&cur, o) {
                            (Ty::Struct(..), O::C(v)) => {
                                off = off.wrapping_add(cur.field_off(v as usize));
                                cur = cur.elem(v as usize);
                            }
                            (Ty::Arr(_, e), o) | (Ty::Vec(_, e), o) => {
                                match o {
                                    O::C(v) => off = off.wrapping_add((sext128(v as u128, w) as i64 as u64).wrapping_mul(e.size())),
                                    o => dynv.push((o, w, e.size())),
                                }
                                cur = cur.elem(0);
                            }
                            _ => panic!("gep"),
                        }
                    }
                }
                I::Gep(d, base, off, dynv)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                while matches!(l.peek(), Tok::Word("nuw" | "nsw" | "nneg")) {
                    l.next();
                }
                let (ft, o) = self.ty_opnd(&mut l);
                assert!(l.eatw("to"));
                let tt = self.m.ty(&mut l);
                let k = match op {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::Zext,
                    "sext" => CastK::Sext,
                    "bitcast" => CastK::Bitcast,
                    _ => CastK::PtrInt,
                };
                I::Cast(k, ft, tt, d, o)
            }
            "select" => {
                let (ct, c) = self.ty_opnd(&mut l);
                l.expect(b',');
                let (vt, a) = self.ty_opnd(&mut l);
                l.expect(b',');
                let (_, e) = self.ty_opnd(&mut l);
                I::Select(ct, vt, d, c, a, e)
            }
            "phi" => {
                let ty = self.m.ty(&mut l);
                let mut inc = vec![];
                loop {
                    l.expect(b'[');
                    let o = self.opnd(&mut l, &ty);
                    l.expect(b',');
                    let Tok::Local(n) = l.next() else { panic!("phi") };
                    inc.push((self.blk(n), o));
                    l.expect(b']');
                    let save = l.i;
                    if !(l.eat(b',') && matches!(l.peek(), Tok::P(b'['))) {
                        l.i = save;
                        break;
                    }
                }
                b.phis.push((d, ty, inc));
                return;
            }
            "call" => self.call(&mut l, dst, false),
            "invoke" => self.call(&mut l, dst, true),
            "br" => {
                if let Tok::Word("label") = l.peek() {
                    I::Br(self.label(&mut l))
                } else {
                    let (_, c) = self.ty_opnd(&mut l);
                    l.expect(b',');
                    let x = self.label(&mut l);
                    l.expect(b',');
                    let y = self.label(&mut l);
                    I::CondBr(c, x, y)
                }
            }
            "switch" => {
                let (ty, o) = self.ty_opnd(&mut l);
                l.expect(b',');
                let def = self.label(&mut l);
                l.expect(b'[');
                let mut cs = vec![];
                while !l.eat(b']') {
                    let t2 = self.m.ty(&mut l);
                    let k = self.m.kint(&mut l, &t2);
                    l.expect(b',');
                    let x = self.label(&mut l);
                    cs.push((k as u64, x));
                }
                I::Switch(ty.bits(), o, def, Rc::new(cs))
            }
            "ret" => {
                if let Tok::Word("void") = l.peek() {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.ty_opnd(&mut l)))
                }
            }
            "unreachable" => I::Unreachable,
            "alloca" => {
                let ty = self.m.ty(&mut l);
                let mut n = 1;
                let save = l.i;
                if l.eat(b',') && Module::is_ty_start(&mut l) {
                    let (_, o) = self.ty_opnd(&mut l);
                    if let O::C(v) = o {
                        n = v
                    } else {
                        n = u64::MAX
                    }
                } else {
                    l.i = save;
                }
                if n == u64::MAX {
                    I::Unsupported("dynamic alloca".into())
                } else {
                    I::Alloca(d, ty.size() * n)
                }
            }
            "extractvalue" => {
                let (ty, o) = self.ty_opnd(&mut l);
                let mut ix = vec![];
                while l.eat(b',') {
                    match l.next() {
                        Tok::Num(n) => ix.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                I::ExtractValue(d, ty, o, ix)
            }
            "insertvalue" => {
                let (ty, o) = self.ty_opnd(&mut l);
                l.expect(b',');
                let (vt, v) = self.ty_opnd(&mut l);
                let mut ix = vec![];
                while l.eat(b',') {
                    match l.next() {
                        Tok::Num(n) => ix.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                I::InsertValue(d, ty, o, vt, v, ix)
            }
            "extractelement" => {
                let (ty, o) = self.ty_opnd(&mut l);
                l.expect(b',');
                let (_, ix) = self.ty_opnd(&mut l);
                I::ExtractElem(d, ty, o, ix)
            }
            "insertelement" => {
                let (ty, o) = self.ty_opnd(&mut l);
                l.expect(b',');
                let (_, v) = self.ty_opnd(&mut l);
                l.expect(b',');
                let (_, ix) = self.ty_opnd(&mut l);
                I::InsertElem(d, ty, o, v, ix)
            }
            "shufflevector" => {
                let (ty, a) = self.ty_opnd(&mut l);
                l.expect(b',');
                let (_, c) = self.ty_opnd(&mut l);
                l.expect(b',');
                let (mt, mo) = self.ty_opnd(&mut l);
                let n = mt.nelem();
                let mut mk = vec![0u32; n];
                if let O::K(k) = &mo {
                    if let K::Agg(v) = &k.1 {
                        for (i, x) in v.iter().enumerate() {
                            if let K::Int(z) = x {
                                mk[i] = *z as u32
                            }
                        }
                    }
                }
                I::Shuffle(d, ty, a, c, mk)
            }
            "freeze" => {
                let (ty, o) = self.ty_opnd(&mut l);
                I::Freeze(d, ty, o)
            }
            "fence" => I::Nop,
            "atomicrmw" => {
                let mut w = l.next();
                if w == Tok::Word("volatile") {
                    w = l.next();
                }
                let Tok::Word(k) = w else { panic!() };
                let (_, p) = self.ty_opnd(&mut l);
                l.expect(b',');
                let (ty, v) = self.ty_opnd(&mut l);
                I::Rmw(d, k.to_string(), ty, p, v)
            }
            "cmpxchg" => {
                while matches!(l.peek(), Tok::Word("weak" | "volatile")) {
                    l.next();
                }
                let (_, p) = self.ty_opnd(&mut l);
                l.expect(b',');
                let (ty, c) = self.ty_opnd(&mut l);
                l.expect(b',');
                let (_, n) = self.ty_opnd(&mut l);
                I::CmpXchg(d, ty, p, c, n)
            }
            _ => I::Unsupported(t.into()),
        };
        b.insts.push(i);
    }
}

/// Immediate postdominators (ignoring paths that never return).
fn ipdoms(blocks: &[Block]) -> Vec<u32> {
    let n = blocks.len();
    // node n = virtual exit
    let mut preds_rev: Vec<Vec<usize>> = vec![vec![]; n + 1]; // successors in reverse graph = preds
    let mut succ: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, b) in blocks.iter().enumerate() {
        if let Some(I::Ret(_)) = b.insts.last() {
            succ[i].push(n);
            preds_rev[n].push(i);
        }
        for s in &b.succs {
            succ[i].push(*s as usize);
            preds_rev[*s as usize].push(i);
        }
    }
    // reverse postorder from exit on the reversed graph
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut st = vec![(n, 0usize)];
    seen[n] = true;
    while let Some((u, k)) = st.pop() {
        if k < preds_rev[u].len() {
            st.push((u, k + 1));
            let v = preds_rev[u][k];
            if !seen[v] {
                seen[v] = true;
                st.push((v, 0));
            }
        } else {
            order.push(u);
        }
    }
    order.reverse();
    let mut num = vec![usize::MAX; n + 1];
    for (i, u) in order.iter().enumerate() {
        num[*u] = i;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[n] = n;
    let mut changed = true;
    while changed {
        changed = false;
        for &u in order.iter().skip(1) {
            let mut new = usize::MAX;
            for &s in &succ[u] {
                if num[s] == usize::MAX || idom[s] == usize::MAX {
                    continue;
                }
                if new == usize::MAX {
                    new = s;
                } else {
                    let (mut a, mut b) = (new, s);
                    while a != b {
                        while num[a] > num[b] {
                            a = idom[a];
                        }
                        while num[b] > num[a] {
                            b = idom[b];
                        }
                    }
                    new = a;
                }
            }
            if new != usize::MAX && idom[u] != new {
                idom[u] = new;
                changed = true;
            }
        }
    }
    (0..n)
        .map(|i| {
            if idom[i] == usize::MAX {
                NOEXIT
            } else if idom[i] == n {
                EXIT
            } else {
                idom[i] as u32
            }
        })
        .collect()
}

pub fn opnd_regs(o: &O, f: &mut impl FnMut(u32)) {
    if let O::R(r) = o {
        f(*r)
    }
}

pub fn inst_uses(i: &I, f: &mut impl FnMut(u32)) {
    match i {
        I::Bin(_, _, _, a, b) | I::Icmp(_, _, _, a, b) => {
            opnd_regs(a, f);
            opnd_regs(b, f)
        }
        I::Load(_, _, p) => opnd_regs(p, f),
        I::Store(_, v, p) => {
            opnd_regs(v, f);
            opnd_regs(p, f)
        }
        I::Gep(_, b, _, d) => {
            opnd_regs(b, f);
            for (o, _, _) in d {
                opnd_regs(o, f)
            }
        }
        I::Cast(_, _, _, _, a) | I::Freeze(_, _, a) | I::ExtractValue(_, _, a, _) => opnd_regs(a, f),
        I::Select(_, _, _, a, b, c) => {
            opnd_regs(a, f);
            opnd_regs(b, f);
            opnd_regs(c, f)
        }
        I::Call(c) => {
            if let Callee::Ind(o) = &c.callee {
                opnd_regs(o, f)
            }
            for (_, a) in &c.args {
                opnd_regs(a, f)
            }
        }
        I::CondBr(c, _, _) => opnd_regs(c, f),
        I::Switch(_, o, _, _) => opnd_regs(o, f),
        I::Ret(Some((_, o))) => opnd_regs(o, f),
        I::InsertValue(_, _, a, _, v, _) => {
            opnd_regs(a, f);
            opnd_regs(v, f)
        }
        I::ExtractElem(_, _, a, b) => {
            opnd_regs(a, f);
            opnd_regs(b, f)
        }
        I::InsertElem(_, _, a, b, c) | I::CmpXchg(_, _, a, b, c) => {
            opnd_regs(a, f);
            opnd_regs(b, f);
            opnd_regs(c, f)
        }
        I::Shuffle(_, _, a, b, _) | I::Rmw(_, _, _, a, b) => {
            opnd_regs(a, f);
            opnd_regs(b, f)
        }
        _ => {}
    }
}
pub fn inst_def(i: &I) -> Option<u32> {
    match i {
        I::Bin(_, _, d, ..) | I::Icmp(_, _, d, ..) => Some(*d),
        I::Load(d, ..) | I::Gep(d, ..) => Some(*d),
        I::Cast(_, _, _, d, _) => Some(*d),
        I::Select(_, _, d, ..) => Some(*d),
        I::Call(c) => c.dst,
        I::Alloca(d, _) | I::ExtractValue(d, ..) | I::InsertValue(d, ..) | I::ExtractElem(d, ..) | I::InsertElem(d, ..) | I::Shuffle(d, ..) | I::Freeze(d, ..) | I::Rmw(d, ..) | I::CmpXchg(d, ..) => Some(*d),
        _ => None,
    }
}

impl Func {
    /// type of every register
    pub fn reg_types(&self) -> Rc<Vec<Ty>> {
        if let Some(l) = &*self.rty.borrow() {
            return l.clone();
        }
        let mut v = vec![Ty::Void; self.nregs as usize];
        for (r, t) in &self.params {
            v[*r as usize] = t.clone();
        }
        for b in &self.blocks {
            for (d, t, _) in &b.phis {
                v[*d as usize] = t.clone();
            }
            for i in &b.insts {
                let t = match i {
                    I::Bin(_, t, ..) | I::Load(_, t, _) | I::Freeze(_, t, _) | I::Select(_, t, ..) | I::InsertValue(_, t, ..) | I::InsertElem(_, t, ..) | I::Rmw(_, _, t, ..) => t.clone(),
                    I::Icmp(_, t, ..) => match t {
                        Ty::Vec(n, _) => Ty::Vec(*n, Rc::new(Ty::Int(1))),
                        _ => Ty::Int(1),
                    },
                    I::Gep(..) | I::Alloca(..) => Ty::Ptr,
                    I::Cast(_, _, t, ..) => t.clone(),
                    I::Call(c) => c.ret.clone(),
                    I::ExtractValue(_, t, _, ix) => {
                        let mut t = t.clone();
                        for k in ix {
                            t = t.elem(*k as usize);
                        }
                        t
                    }
                    I::ExtractElem(_, t, ..) => t.elem(0),
                    I::Shuffle(_, t, _, _, m) => Ty::Vec(m.len() as u32, Rc::new(t.elem(0))),
                    I::CmpXchg(_, t, ..) => Ty::Struct(Rc::new(vec![t.clone(), Ty::Int(1)]), false),
                    _ => continue,
                };
                if let Some(d) = inst_def(i) {
                    v[d as usize] = t;
                }
            }
        }
        let r = Rc::new(v);
        *self.rty.borrow_mut() = Some(r.clone());
        r
    }
    /// live-in bitsets at the start of each block, *after* its phis have been evaluated
    pub fn liveness(&self) -> Rc<Vec<Vec<u64>>> {
        if let Some(l) = &*self.live.borrow() {
            return l.clone();
        }
        let n = self.blocks.len();
        let w = (self.nregs as usize + 63) / 64;
        let mut gen = vec![vec![0u64; w]; n];
        let mut kill = vec![vec![0u64; w]; n];
        // phi uses by predecessor
        let mut phi_use = vec![vec![0u64; w]; n];
        for (bi, b) in self.blocks.iter().enumerate() {
            for i in &b.insts {
                inst_uses(i, &mut |r| {
                    let (q, m) = (r as usize / 64, 1u64 << (r % 64));
                    if kill[bi][q] & m == 0 {
                        gen[bi][q] |= m
                    }
                });
                if let Some(d) = inst_def(i) {
                    kill[bi][d as usize / 64] |= 1u64 << (d % 64);
                }
            }
            for (_, _, inc) in &b.phis {
                for (p, o) in inc {
                    opnd_regs(o, &mut |r| phi_use[*p as usize][r as usize / 64] |= 1u64 << (r % 64));
                }
            }
        }
        // in_after_phi[b] = gen | (out - kill); out[b] = U_s (in_after_phi[s] - phidefs[s]) | phi_use[b]
        let mut live = vec![vec![0u64; w]; n];
        let mut changed = true;
        while changed {
            changed = false;
            for bi in (0..n).rev() {
                let mut out = phi_use[bi].clone();
                for s in &self.blocks[bi].succs {
                    let mut t = live[*s as usize].clone();
                    for (d, _, _) in &self.blocks[*s as usize].phis {
                        t[*d as usize / 64] &= !(1u64 << (d % 64));
                    }
                    for q in 0..w {
                        out[q] |= t[q];
                    }
                }
                for q in 0..w {
                    let v = gen[bi][q] | (out[q] & !kill[bi][q]);
                    if v != live[bi][q] {
                        live[bi][q] = v;
                        changed = true;
                    }
                }
            }
        }
        let r = Rc::new(live);
        *self.live.borrow_mut() = Some(r.clone());
        r
    }
}
