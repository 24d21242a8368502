//! Symbolic interpreter for the IR.
use crate::ir::*;
use crate::mem::*;
use crate::smt::*;
use crate::term::{self, *};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum V {
    U,
    C(u64),
    T(T),
    Agg(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub regs: Vec<V>,
    pub blk: u32,
    pub ip: u32,
    pub nalloca: u32,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub stack: Space,
    pub heap: Space,
    pub globals: Rc<HashMap<u32, Rc<Obj>>>,
    pub pc: Vec<T>,
    /// conditions known to hold under pc
    pub facts: Rc<HashSet<T, Fx>>,
    pub conc: Rc<HashMap<T, u64, Fx>>,
    pub model: Option<Rc<Model>>,
    pub merge: bool,
    pub panic_ok: bool,
    pub nvar: u32,
    pub note: Rc<Vec<(u64, u64)>>,
}

pub enum Ex {
    Split(T, u64),
    Unsup(String),
    Panic(String),
    Dead,
    /// the state was handed over (forked cases); nothing left to do here
    Gone,
}
type X<A> = Result<A, Ex>;

fn unsup<A>(s: impl Into<String>) -> X<A> {
    Err(Ex::Unsup(s.into()))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Stop {
    pub depth: usize,
    pub blk: u32,
}
pub const NOSTOP: Stop = Stop { depth: 0, blk: NOEXIT };

pub enum Step {
    Go,
    Moved,
    Alts(Vec<(T, Act)>),
}
#[derive(Clone, Copy, Debug)]
pub enum Act {
    Jump(u32),
    Conc(T, u64),
    Stay,
}

#[derive(Clone, Copy)]
enum H {
    Body(&'static Func),
    Intr(u32),
    NoRet,
}

#[derive(Default)]
pub struct Report {
    pub violations: Vec<(String, String)>,
    pub reach: BTreeMap<u64, u64>,
    /// values that reach a point
    pub witness: Vec<(u64, String)>,
    pub asserts: BTreeMap<u64, u64>,
    pub inconclusive: Vec<String>,
    pub funcs: BTreeSet<String>,
    pub paths: u64,
    pub panics_dropped: u64,
    pub queries: u64,
    pub unknown: u64,
    pub solver_ms: u64,
    pub obligations: u64,
    pub ob_ms: u64,
    pub by_solver: BTreeMap<String, u64>,
    pub steps: u64,
    pub merges: u64,
    pub unmerged: u64,
    pub cases: u64,
    pub trace: Vec<String>,
}

pub struct Exec {
    pub m: &'static Module,
    pub smt: Smt,
    gcache: HashMap<u32, Rc<Obj>>,
    handlers: Vec<Option<H>>,
    pub rep: Report,
    pub deadline: Instant,
    pub ob_timeout: Duration,
    pub scratch: String,
    pub max_steps: u64,
    pub symfn: Vec<bool>,
    pub replay: Option<HashMap<String, u64>>,
    pub debug: bool,
    pub jobs: i32,
    pub only: Vec<u64>,
    pub is_child: bool,
    pub token: Option<(i32, i32)>,
    pub fmt_template: Vec<u8>,
    pub max_viol: usize,
    pub prof: HashMap<(u32, u32), (u64, f64)>,
    undecided: HashSet<(T, usize, Option<T>)>,
    branch_seen: u64,
    depth_now: usize,
}

fn decode_ptr(a: u64) -> (u64, u64) {
    (a >> SLOT_BITS, (a & ((1 << SLOT_BITS) - 1)).wrapping_sub(BIAS))
}

impl Exec {
    pub fn new(m: &'static Module) -> Exec {
        let n = m.syms.len();
        Exec {
            m,
            smt: Smt::new(),
            gcache: HashMap::new(),
            handlers: vec![None; n],
            rep: Report::default(),
            deadline: Instant::now() + Duration::from_secs(3600),
            ob_timeout: Duration::from_secs(120),
            scratch: "/tmp".into(),
            max_steps: u64::MAX,
            symfn: vec![false; n],
            replay: None,
            debug: false,
            jobs: 8,
            only: vec![],
            is_child: false,
            token: None,
            fmt_template: vec![],
            max_viol: 3,
            prof: HashMap::new(),
            undecided: HashSet::new(),
            branch_seen: 0,
            depth_now: 0,
        }
    }
    fn func(&self, id: u32) -> &'static Func {
        let f = self.m.func(id);
        // functions stay in the module's cache for the whole run
        unsafe { &*(Rc::as_ptr(&f)) }
    }

    pub fn initial(&mut self, entry: &str) -> State {
        let id = self.m.sym(entry);
        let f = self.func(id);
        let fr = Frame { f, regs: vec![V::U; f.nregs as usize], blk: 0, ip: 0, nalloca: 0, dst: None, normal: None };
        State {
            frames: vec![Rc::new(fr)],
            stack: Space::default(),
            heap: Space::default(),
            globals: Rc::new(HashMap::new()),
            pc: vec![],
            facts: Rc::new(HashSet::default()),
            conc: Rc::new(HashMap::default()),
            model: Some(Rc::new(Model::default())),
            merge: true,
            panic_ok: false,
            nvar: 0,
            note: Rc::new(vec![]),
        }
    }

    // ------------------------------------------------------------ values
    fn kval(&self, ty: &Ty, k: &K) -> V {
        match (ty, k) {
            (t, K::Zero) => self.zero(t),
            (t, K::Int(v)) if t.is_scalar() => {
                if t.bits() <= 64 {
                    V::C(*v as u64)
                } else {
                    V::T(cst(t.bits(), *v))
                }
            }
            (t, K::Agg(v)) => V::Agg(Rc::new(v.iter().enumerate().map(|(i, x)| self.kval(&t.elem(i), x)).collect())),
            (_, K::Bytes(b)) => V::Agg(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())),
            _ => V::U,
        }
    }
    fn zero(&self, t: &Ty) -> V {
        if t.is_scalar() {
            if t.bits() <= 64 {
                V::C(0)
            } else {
                V::T(cst(t.bits(), 0))
            }
        } else {
            match t {
                Ty::Void | Ty::Meta => V::U,
                _ => V::Agg(Rc::new((0..t.nelem()).map(|i| self.zero(&t.elem(i))).collect())),
            }
        }
    }
    #[inline]
    fn val(&self, fr: &Frame, o: &O) -> V {
        match o {
            O::C(v) => V::C(*v),
            O::R(r) => fr.regs[*r as usize].clone(),
            O::K(k) => self.kval(&k.0, &k.1),
        }
    }
    fn term(v: &V, w: u32) -> T {
        match v {
            V::C(x) => cst(w, *x as u128),
            V::T(t) => {
                debug_assert_eq!(width(*t), w);
                *t
            }
            V::U => cst(w, 0),
            V::Agg(_) => panic!("aggregate used as scalar"),
        }
    }
    #[inline]
    fn mkv(t: T) -> V {
        let n = node(t);
        if n.op == Op::Const && n.w <= 64 {
            V::C(n.k1 as u64)
        } else {
            V::T(t)
        }
    }

    // ------------------------------------------------------------ memory
    fn global(&mut self, id: u32) -> X<Rc<Obj>> {
        if let Some(o) = self.gcache.get(&id) {
            return Ok(o.clone());
        }
        let (ty, k) = self.m.global_init(id);
        let mut o = Obj::new(ty.size().max(1));
        if let Some(k) = k {
            Self::init(&mut o, 0, &ty, &k);
        }
        let o = Rc::new(o);
        self.gcache.insert(id, o.clone());
        Ok(o)
    }
    fn init(o: &mut Obj, off: u64, ty: &Ty, k: &K) {
        match k {
            K::Zero => {}
            K::Int(v) => {
                let n = match ty {
                    Ty::Int(w) => ((*w + 7) / 8) as u64,
                    _ => ty.size(),
                };
                if *v != 0 {
                    o.write(off, n, R::C(*v))
                }
            }
            K::Bytes(b) => {
                for (i, x) in b.iter().enumerate() {
                    if *x != 0 {
                        o.write(off + i as u64, 1, R::C(*x as u128))
                    }
                }
            }
            K::Agg(v) => {
                for (i, x) in v.iter().enumerate() {
                    Self::init(o, off + ty.field_off(i), &ty.elem(i), x)
                }
            }
        }
    }
    fn obj(&mut self, st: &State, slot: u64) -> X<Rc<Obj>> {
        if slot >= HEAP_SLOT0 {
            match st.heap.get((slot - HEAP_SLOT0) as u32) {
                Some(o) => Ok(o.clone()),
                None => unsup(format!("access to freed or invalid heap slot {:#x}", slot)),
            }
        } else if slot >= STACK_SLOT0 {
            match st.stack.get((slot - STACK_SLOT0) as u32) {
                Some(o) => Ok(o.clone()),
                None => unsup("access to dead stack slot"),
            }
        } else if slot >= GLOBAL_SLOT0 && slot - GLOBAL_SLOT0 < self.m.syms.len() as u64 {
            let id = (slot - GLOBAL_SLOT0) as u32;
            if let Some(o) = st.globals.get(&id) {
                return Ok(o.clone());
            }
            if !matches!(self.m.syms[id as usize].1, Sym::Global { .. }) {
                return unsup(format!("data access to {}", self.m.syms[id as usize].0));
            }
            self.global(id)
        } else {
            unsup(format!("access through invalid pointer, slot {:#x}", slot))
        }
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, slot: u64) -> X<&'a mut Obj> {
        if slot >= HEAP_SLOT0 {
            match st.heap.get_mut((slot - HEAP_SLOT0) as u32) {
                Some(o) => Ok(o),
                None => unsup("write to freed or invalid heap slot"),
            }
        } else if slot >= STACK_SLOT0 {
            match st.stack.get_mut((slot - STACK_SLOT0) as u32) {
                Some(o) => Ok(o),
                None => unsup("write to dead stack slot"),
            }
        } else if slot >= GLOBAL_SLOT0 && slot - GLOBAL_SLOT0 < self.m.syms.len() as u64 {
            let id = (slot - GLOBAL_SLOT0) as u32;
            match self.m.syms[id as usize].1 {
                Sym::Global { constant: false, .. } => {}
                _ => return unsup(format!("write to constant {}", self.m.syms[id as usize].0)),
            }
            if !st.globals.contains_key(&id) {
                let o = self.global(id)?;
                Rc::make_mut(&mut st.globals).insert(id, o);
            }
            let o = Rc::make_mut(&mut st.globals).get_mut(&id).unwrap();
            Ok(Rc::make_mut(o))
        } else {
            unsup(format!("write through invalid pointer, slot {:#x}", slot))
        }
    }

    /// possible targets of a pointer: (guard, slot, offset term (64 bit))
    fn resolve(&mut self, st: &State, t: T) -> X<Vec<(T, u64, T)>> {
        let mut out = vec![];
        self.resolve0(st, t, TRUE, &mut out, 0)?;
        Ok(out)
    }
    fn resolve0(&mut self, st: &State, t: T, g: T, out: &mut Vec<(T, u64, T)>, depth: u32) -> X<()> {
        if g == FALSE {
            return Ok(());
        }
        if let Some(k) = is_const(t) {
            let (s, o) = decode_ptr(k as u64);
            // a branch of the ite that is not a pointer at all (garbage of the other variant)
            out.push((g, s, cst(64, o as u128)));
            return Ok(());
        }
        if node(t).cl > 8 {
            // many constants: fine as long as they all point into one object
            let mut leaves = vec![];
            collect_leaves(t, &mut leaves);
            let slot = decode_ptr(leaves[0]).0;
            if leaves.iter().all(|k| decode_ptr(*k).0 == slot) {
                let base = leaves[0].wrapping_sub(decode_ptr(leaves[0]).1);
                out.push((g, slot, term::sub(t, cst(64, base as u128))));
                return Ok(());
            }
        }
        if depth > 40 || out.len() > 64 {
            return unsup(format!("pointer with too many targets: {}", show(t, 6)));
        }
        let n = node(t);
        if n.op == Op::Ite {
            self.resolve0(st, n.b, and(g, n.a), out, depth + 1)?;
            return self.resolve0(st, n.c, and(g, not(n.a)), out, depth + 1);
        }
        if n.op == Op::Concat {
            let (hi, lo) = (n.a, n.b);
            let nh = node(hi);
            if nh.op == Op::Ite {
                let top = (u64::MAX as u128) & !((1u128 << SLOT_BITS) - 1);
                if (n.k0 | n.k1) & top == top {
                    let slot = (n.k1 as u64) >> SLOT_BITS;
                    if slot >= GLOBAL_SLOT0 && slot < (1 << 30) && self.obj(st, slot).is_ok() {
                        let base = (slot << SLOT_BITS).wrapping_add(BIAS);
                        out.push((g, slot, term::sub(t, cst(64, base as u128))));
                        return Ok(());
                    }
                }
                self.resolve0(st, term::concat(nh.b, lo), and(g, nh.a), out, depth + 1)?;
                return self.resolve0(st, term::concat(nh.c, lo), and(g, not(nh.a)), out, depth + 1);
            }
            if let Some(k) = is_const(hi) {
                let (s, o) = decode_ptr((k << width(lo)) as u64);
                out.push((g, s, term::add(cst(64, o as u128), term::zext(lo, 64))));
                return Ok(());
            }
        }
        let l = Lin::of(t);
        let (slot, _) = decode_ptr(l.k as u64);
        if slot >= GLOBAL_SLOT0 && slot < (1 << 30) && l.k < (1u128 << 60) && self.obj(st, slot).is_ok() {
            let mut l2 = l.clone();
            l2.k = (decode_ptr(l.k as u64).1) as u128;
            out.push((g, slot, l2.build()));
            return Ok(());
        }
        for (i, (x, c)) in l.ls.iter().enumerate() {
            let nx = node(*x);
            if nx.op == Op::Ite && *c == 1 {
                let mut a = l.clone();
                a.ls.remove(i);
                let rest = a.build();
                self.resolve0(st, term::add(nx.b, rest), and(g, nx.a), out, depth + 1)?;
                return self.resolve0(st, term::add(nx.c, rest), and(g, not(nx.a)), out, depth + 1);
            }
            if nx.op == Op::Concat && *c == 1 {
                let (hi, lo) = (nx.a, nx.b);
                let nh = node(hi);
                if nh.op == Op::Ite || is_const(hi).is_some() {
                    let mut a = l.clone();
                    a.ls.remove(i);
                    let rest = a.build();
                    let wl = width(lo);
                    let part = |h: T| term::add(term::shl_const(term::zext(h, 64), wl), term::zext(lo, 64));
                    if nh.op == Op::Ite {
                        self.resolve0(st, term::add(part(nh.b), rest), and(g, nh.a), out, depth + 1)?;
                        return self.resolve0(st, term::add(part(nh.c), rest), and(g, not(nh.a)), out, depth + 1);
                    }
                    let k = is_const(hi).unwrap() << wl;
                    if decode_ptr(k as u64).0 == 0 {
                        // not a pointer at all (garbage of another variant): must turn out infeasible
                        out.push((g, 0, term::add(part(hi), rest)));
                        return Ok(());
                    }
                    let mut a2 = Lin::of(term::add(term::zext(lo, 64), rest));
                    a2.k = (a2.k.wrapping_add(k)) & (u64::MAX as u128);
                    let (slot, o) = decode_ptr(a2.k as u64);
                    if slot >= GLOBAL_SLOT0 && slot < (1 << 30) && self.obj(st, slot).is_ok() {
                        a2.k = o as u128;
                        out.push((g, slot, a2.build()));
                        return Ok(());
                    }
                }
            }
        }
        unsup(format!("cannot resolve pointer {}", show(t, 4)))
    }

    /// truth of a condition as far as it follows from single facts
    fn by_facts(st: &State, c: T, depth: u32) -> Option<bool> {
        if let Some(k) = is_const(c) {
            return Some(k == 1);
        }
        if st.facts.contains(&c) || st.pc.contains(&c) {
            return Some(true);
        }
        let n = not(c);
        if st.facts.contains(&n) || st.pc.contains(&n) {
            return Some(false);
        }
        if depth == 0 {
            return None;
        }
        let x = node(c);
        match x.op {
            Op::Not => Self::by_facts(st, x.a, depth - 1).map(|b| !b),
            Op::And => match Self::by_facts(st, x.a, depth - 1) {
                Some(false) => Some(false),
                a => match Self::by_facts(st, x.b, depth - 1) {
                    Some(false) => Some(false),
                    Some(true) if a == Some(true) => Some(true),
                    _ => None,
                },
            },
            Op::Or => match Self::by_facts(st, x.a, depth - 1) {
                Some(true) => Some(true),
                a => match Self::by_facts(st, x.b, depth - 1) {
                    Some(true) => Some(true),
                    Some(false) if a == Some(false) => Some(false),
                    _ => None,
                },
            },
            _ => None,
        }
    }

    /// prove or refute a condition in this state
    fn decide(&mut self, st: &mut State, c: T) -> Option<bool> {
        if c == FALSE {
            // "is this state impossible?"
            return match self.smt.check(&st.pc, TRUE).0 {
                Ans::Unsat => Some(true),
                Ans::Sat => Some(false),
                Ans::Unknown => None,
            };
        }
        if let Some(k) = is_const(c) {
            return Some(k == 1);
        }
        let nc = not(c);
        if let Some(b) = Self::by_facts(st, c, 8) {
            return Some(b);
        }
        let mv = st.model.as_ref().map(|m| m.holds(c));
        // try to refute the side the model does not show
        let try_true_only = mv != Some(false); // is !c impossible?
        if try_true_only {
            let (a, m) = self.smt.check(&st.pc, nc);
            if a == Ans::Unsat {
                Rc::make_mut(&mut st.facts).insert(c);
                return Some(true);
            }
            if mv.is_some() || a == Ans::Unknown {
                return None;
            }
            if st.model.is_none() {
                st.model = m;
            }
        }
        let (a, m) = self.smt.check(&st.pc, c);
        if a == Ans::Unsat {
            Rc::make_mut(&mut st.facts).insert(nc);
            return Some(false);
        }
        if st.model.is_none() {
            st.model = m;
        }
        None
    }

    /// The constant this path equates `x` with. (Equalities of concatenations are kept in parts.)
    fn eqs(&self, st: &State, x: T) -> Option<u128> {
        let w = width(x);
        if w > 64 {
            return None;
        }
        for p in st.pc.iter() {
            let n = node(*p);
            if n.op == Op::Eq && n.a == x {
                if let Some(k) = is_const(n.b) {
                    return Some(k);
                }
            }
        }
        let n = node(x);
        if n.op == Op::Concat {
            let f = |s: &Self, y: T| is_const(y).or_else(|| s.eqs(st, y));
            let (h, l) = (f(self, n.a)?, f(self, n.b)?);
            return Some(h << width(n.b) | l);
        }
        None
    }

    /// Drops the alternatives of an address that this path excludes.
    fn tidy(&mut self, st: &mut State, t: T) -> T {
        let mut t = t;
        'again: for _ in 0..40 {
            let n = node(t);
            if n.op == Op::Ite {
                if let Some(b) = self.decide_cached(st, n.a) {
                    t = if b { n.b } else { n.c };
                    continue;
                }
                return t;
            }
            let l = Lin::of(t);
            for (i, (x, c)) in l.ls.iter().enumerate() {
                if let Some(k) = self.eqs(st, *x) {
                    let mut a = l.clone();
                    a.ls.remove(i);
                    let w = width(t);
                    t = term::add(cst(w, (*c).wrapping_mul(k) & ones(w)), a.build());
                    continue 'again;
                }
                let nx = node(*x);
                if nx.op != Op::Ite {
                    continue;
                }
                if let Some(b) = self.decide_cached(st, nx.a) {
                    let mut a = l.clone();
                    a.ls.remove(i);
                    let w = width(t);
                    let y = term::mul(if b { nx.b } else { nx.c }, cst(w, *c));
                    t = term::add(y, a.build());
                    continue 'again;
                }
            }
            return t;
        }
        t
    }
    fn decide_cached(&mut self, st: &mut State, c: T) -> Option<bool> {
        if is_const(c).is_none() {
            if st.facts.contains(&c) {
                return Some(true);
            }
            if st.facts.contains(&not(c)) {
                return Some(false);
            }
            let k = (c, st.pc.len(), st.pc.last().copied());
            if self.undecided.contains(&k) {
                return None;
            }
            let r = self.decide(st, c);
            if r.is_none() {
                self.undecided.insert(k);
            }
            return r;
        }
        self.decide(st, c)
    }

    fn bounds(&mut self, st: &mut State, g: T, off: T, n: u64, lo: u64, hi: u64) -> X<()> {
        // lo <= off and off + n <= hi
        if hi < lo + n {
            // this target cannot be meant; must be infeasible
            return match self.decide(st, not(g)) {
                Some(true) => Ok(()),
                _ => unsup("access larger than the object"),
            };
        }
        let rel = term::sub(off, cst(64, lo as u128));
        let c = ule(rel, cst(64, (hi - lo - n) as u128));
        let c = or(not(g), c);
        if c == TRUE {
            return Ok(());
        }
        match self.decide(st, c) {
            Some(true) => Ok(()),
            _ => unsup(format!("cannot show that an access is in bounds: {} in [{}, {}) size {}", show(off, 5), lo, hi, n)),
        }
    }

    /// Where the large zeroed array lies that an access means.
    fn array_at(&mut self, st: &mut State, g: T, o: &Obj, off: T, n: u64) -> Option<(u64, u64)> {
        let (lo, len) = o.hint(Lin::of(off).k as u64)?;
        let hi = lo + len;
        if len < 65536 && hi >= 65536 {
            // the beginning of the array was written since
            return Some((hi - 65536, 65536));
        }
        let lead = len % 4096;
        if lead != 0 && len > 65536 {
            // another field was zeroed together with the array, before or behind it
            if self.bounds(st, g, off, n, lo, hi - lead).is_ok() {
                return Some((lo, len - lead));
            }
            return Some((lo + lead, len - lead));
        }
        Some((lo, len))
    }

    fn load_ptr(&mut self, st: &mut State, p: &V, n: u64) -> X<R> {
        match p {
            V::C(a) => {
                let (slot, off) = decode_ptr(*a);
                // fast path without cloning the Rc
                let o = if slot >= HEAP_SLOT0 {
                    st.heap.get((slot - HEAP_SLOT0) as u32)
                } else if slot >= STACK_SLOT0 {
                    st.stack.get((slot - STACK_SLOT0) as u32)
                } else {
                    None
                };
                if let Some(o) = o {
                    if off.wrapping_add(n) > o.size || off > o.size {
                        return unsup(format!("out of bounds read off {} n {} size {}", off as i64, n, o.size));
                    }
                    return Ok(o.read(off, n));
                }
                let o = self.obj(st, slot)?;
                if off.wrapping_add(n) > o.size || off > o.size {
                    return unsup(format!("out of bounds read off {} n {} size {}", off as i64, n, o.size));
                }
                Ok(o.read(off, n))
            }
            V::T(t) => {
                let t = self.tidy(st, *t);
                let tg = self.resolve(st, t)?;
                let mut acc: Option<T> = None;
                let multi = tg.len() > 1;
                let mut parts = vec![];
                for (g, slot, off) in tg {
                    if multi && self.decide(st, g) == Some(false) {
                        continue;
                    }
                    let o = match self.obj(st, slot) {
                        Ok(o) => o,
                        Err(e) => {
                            if self.decide(st, not(g)) == Some(true) {
                                continue;
                            }
                            return Err(e);
                        }
                    };
                    let r = self.load_obj(st, g, &o, off, n)?;
                    parts.push((g, r));
                }
                for (g, r) in parts.into_iter().rev() {
                    acc = Some(match acc {
                        None => r,
                        Some(a) => ite(g, r, a),
                    });
                }
                match acc {
                    Some(a) => Ok(R::of(a)),
                    None => Err(Ex::Dead),
                }
            }
            _ => unsup("load through undefined pointer"),
        }
    }
    fn seg_for(o: &Obj, off: T) -> Option<usize> {
        if o.segs.is_empty() {
            return None;
        }
        let l = Lin::of(off);
        // constant part places it; a negative displacement is attributed to the segment as well
        let k = l.k as u64;
        let base = if (k as i64) < 0 { o.segs[0].off } else { k };
        match o.seg_at(base) {
            Some(s) => Some(s),
            None => {
                if o.segs.len() == 1 && (base >= o.segs[0].off + o.segs[0].len || base + 64 >= o.segs[0].off) {
                    Some(0)
                } else {
                    None
                }
            }
        }
    }
    fn seg_idx(s: &Seg, off: T, k: u64) -> T {
        let iw = s.iw();
        let mut l = Lin::of(off);
        l.k = l.k.wrapping_add(k as u128).wrapping_add(s.base as u128).wrapping_sub(s.off as u128);
        // truncate the linear form
        let mut r = Lin { w: iw, k: l.k & ones(iw), ls: vec![] };
        let mut acc: Option<T> = None;
        for (t, c) in &l.ls {
            let x = extract(iw - 1, 0, *t);
            let y = term::mul(x, cst(iw, *c));
            acc = Some(match acc {
                None => y,
                Some(a) => term::add(a, y),
            });
        }
        let base = match acc {
            None => {
                r.ls.clear();
                return cst(iw, r.k);
            }
            Some(a) => a,
        };
        term::add(base, cst(iw, r.k))
    }
    fn candidates(off: T, size: u64, n: u64) -> Vec<u64> {
        // possible constant offsets by known bits
        let nd = node(off);
        let mut v = vec![];
        let (k0, k1) = (nd.k0 as u64, nd.k1 as u64);
        // step by the lowest unknown bit
        let unk = !(k0 | k1);
        if unk == 0 {
            return vec![k1];
        }
        let step = 1u64 << unk.trailing_zeros();
        let lin = Lin::of(off);
        let _ = lin;
        let mut x = k1 & (step - 1);
        while x + n <= size {
            if x & k0 == 0 && !x & k1 == 0 {
                v.push(x);
            }
            x += step;
        }
        v
    }
    fn load_obj(&mut self, st: &mut State, g: T, o: &Rc<Obj>, off: T, n: u64) -> X<T> {
        if let Some(k) = is_const(off) {
            let k = k as u64;
            if k.wrapping_add(n) > o.size || k > o.size {
                return match self.decide(st, not(g)) {
                    Some(true) => Ok(cst(8 * n as u32, 0)),
                    _ => unsup("out of bounds read (conditional)"),
                };
            }
            return Ok(o.read(k, n).term(8 * n as u32));
        }
        if let Some(v) = st.conc.get(&off) {
            let v = *v;
            return Ok(o.read(v, n).term(8 * n as u32));
        }
        if self.debug && std::env::var("SYMIR_ADDR").is_ok() {
            eprintln!("[load] {} in {}", show(off, 22), demangle(&st.frames.last().unwrap().f.name));
        }
        if let Some(s) = Self::seg_for(o, off) {
            let s = &o.segs[s];
            let mut lead = 0;
            if let Err(e) = self.bounds(st, g, off, n, s.off, s.off + s.len) {
                // the first bytes of the array may have been split off
                if s.off == 0 || s.off > 64 || o.segs.len() > 1 || self.bounds(st, g, off, n, 0, s.off + s.len).is_err() {
                    return Err(e);
                }
                lead = s.off;
            }
            let mut acc: Option<T> = None;
            for k in 0..n {
                let mut b = s.read(Self::seg_idx(s, off, k));
                for j in 0..lead {
                    let v = o.read(j, 1).term(8);
                    b = ite(eq(term::add(off, cst(64, k as u128)), cst(64, j as u128)), v, b);
                }
                acc = Some(match acc {
                    None => b,
                    Some(l) => concat(b, l),
                });
            }
            return Ok(acc.unwrap());
        }
        self.bounds(st, g, off, n, 0, o.size)?;
        let nd = node(off);
        if nd.cl > 1 {
            // few constant offsets
            let mut leaves = vec![];
            collect_leaves(off, &mut leaves);
            let mut acc: Option<T> = None;
            for k in leaves {
                if k + n > o.size {
                    continue;
                }
                let r = o.read(k, n).term(8 * n as u32);
                acc = Some(match acc {
                    None => r,
                    Some(a) => ite(eq(off, cst(64, k as u128)), r, a),
                });
            }
            return acc.ok_or(Ex::Dead);
        }
        let c = Self::candidates(off, o.size, n);
        if c.len() > 1024 {
            let mut ob = (**o).clone();
            let h = self.array_at(st, g, o, off, n);
            if h.is_some_and(|h| ob.to_seg(h.0, h.1)) {
                return self.load_obj(st, g, &Rc::new(ob), off, n);
            }
            return unsup(format!("symbolic read with {} candidates at {}", c.len(), show(off, 4)));
        }
        let mut acc: Option<T> = None;
        for k in c.into_iter().rev() {
            let e = eq(off, cst(64, k as u128));
            if e == FALSE || and(g, e) == FALSE {
                continue;
            }
            let r = o.read(k, n).term(8 * n as u32);
            acc = Some(match acc {
                None => r,
                Some(a) => ite(e, r, a),
            });
        }
        acc.ok_or(Ex::Dead)
    }
    fn store_ptr(&mut self, st: &mut State, p: &V, n: u64, v: R) -> X<()> {
        match p {
            V::C(a) => {
                let (slot, off) = decode_ptr(*a);
                let o = self.obj_mut(st, slot)?;
                if off.wrapping_add(n) > o.size || off > o.size {
                    return unsup(format!("out of bounds write off {} n {} size {}", off as i64, n, o.size));
                }
                o.write(off, n, v);
                Ok(())
            }
            V::T(t) => {
                let t = self.tidy(st, *t);
                let tg = self.resolve(st, t)?;
                let multi = tg.len() > 1;
                for (g, slot, off) in tg {
                    if multi {
                        match self.decide(st, g) {
                            Some(false) => continue,
                            _ => {}
                        }
                    }
                    let o = self.obj(st, slot)?;
                    self.store_obj(st, g, slot, &o, off, n, v)?;
                }
                Ok(())
            }
            _ => unsup("store through undefined pointer"),
        }
    }
    fn store_obj(&mut self, st: &mut State, g: T, slot: u64, o: &Rc<Obj>, off: T, n: u64, v: R) -> X<()> {
        if self.debug && is_const(off).is_none() && std::env::var("SYMIR_ADDR").is_ok() {
            eprintln!("[store] {} in {}", show(off, 22), demangle(&st.frames.last().unwrap().f.name));
        }
        let w = 8 * n as u32;
        if let Some(k) = is_const(off) {
            let k = k as u64;
            self.bounds(st, g, off, n, 0, o.size)?;
            if k + n > o.size {
                return Ok(());
            }
            if g == TRUE {
                self.obj_mut(st, slot)?.write(k, n, v);
            } else {
                if let Some(si) = o.seg_at(k) {
                    let ob = self.obj_mut(st, slot)?;
                    let s = &mut ob.segs[si];
                    for b in 0..n {
                        let ix = s.ix(k + b);
                        s.write(g, ix, extract(8 * b as u32 + 7, 8 * b as u32, v.term(w)));
                    }
                } else {
                    let old = o.read(k, n).term(w);
                    self.obj_mut(st, slot)?.write(k, n, R::of(ite(g, v.term(w), old)));
                }
            }
            return Ok(());
        }
        if let Some(si) = Self::seg_for(o, off) {
            let (so, sl) = (o.segs[si].off, o.segs[si].len);
            self.bounds(st, g, off, n, so, so + sl)?;
            let vt = v.term(w);
            let ob = self.obj_mut(st, slot)?;
            let s = &mut ob.segs[si];
            for b in 0..n {
                let ix = Self::seg_idx(s, off, b);
                s.write(g, ix, extract(8 * b as u32 + 7, 8 * b as u32, vt));
            }
            return Ok(());
        }
        self.bounds(st, g, off, n, 0, o.size)?;
        let c = Self::candidates(off, o.size, n);
        if c.len() > 1024 {
            let h = self.array_at(st, g, o, off, n);
            let ob = self.obj_mut(st, slot)?;
            if h.is_some_and(|h| ob.to_seg(h.0, h.1)) {
                let o = self.obj(st, slot)?;
                return self.store_obj(st, g, slot, &o, off, n, v);
            }
            return unsup(format!("symbolic write with {} candidates", c.len()));
        }
        let vt = v.term(w);
        // overlapping candidates: compute from the old object
        let old = o.clone();
        let mut newbytes: BTreeMap<u64, T> = BTreeMap::new();
        let aligned = c.windows(2).all(|x| x[1] - x[0] >= n);
        if aligned {
            let ob = self.obj_mut(st, slot)?;
            for k in c {
                let e = and(g, eq(off, cst(64, k as u128)));
                if e == FALSE {
                    continue;
                }
                let o2 = old.read(k, n).term(w);
                ob.write(k, n, R::of(ite(e, vt, o2)));
            }
            return Ok(());
        }
        for k in c {
            let e = and(g, eq(off, cst(64, k as u128)));
            if e == FALSE {
                continue;
            }
            for b in 0..n {
                let cur = newbytes.get(&(k + b)).copied().unwrap_or_else(|| old.read(k + b, 1).term(8));
                newbytes.insert(k + b, ite(e, extract(8 * b as u32 + 7, 8 * b as u32, vt), cur));
            }
        }
        let ob = self.obj_mut(st, slot)?;
        for (k, t) in newbytes {
            ob.write(k, 1, R::of(t));
        }
        Ok(())
    }

    fn load_ty(&mut self, st: &mut State, p: &V, ty: &Ty) -> X<V> {
        if ty.is_scalar() {
            let w = ty.bits();
            let n = ((w + 7) / 8) as u64;
            return Ok(match self.load_ptr(st, p, n)? {
                R::C(v) => {
                    if w <= 64 {
                        V::C(mask(v, w) as u64)
                    } else {
                        V::T(cst(w, v))
                    }
                }
                R::T(t) => Self::mkv(if width(t) == w { t } else { extract(w - 1, 0, t) }),
            });
        }
        if let Ty::Vec(n, e) = ty {
            if e.bits() < 8 {
                let bytes = ((*n as u64) * e.bits() as u64 + 7) / 8;
                let t = self.load_ptr(st, p, bytes)?.term(8 * bytes as u32);
                let ew = e.bits();
                return Ok(V::Agg(Rc::new((0..*n).map(|i| Self::mkv(extract((i + 1) * ew - 1, i * ew, t))).collect())));
            }
        }
        let mut v = vec![];
        for i in 0..ty.nelem() {
            let q = self.ptr_add(p, ty.field_off(i));
            v.push(self.load_ty(st, &q, &ty.elem(i))?);
        }
        Ok(V::Agg(Rc::new(v)))
    }
    fn ptr_add(&self, p: &V, k: u64) -> V {
        match p {
            V::C(a) => V::C(a.wrapping_add(k)),
            V::T(t) => Self::mkv(term::add(*t, cst(64, k as u128))),
            x => x.clone(),
        }
    }
    fn store_ty(&mut self, st: &mut State, p: &V, ty: &Ty, v: &V) -> X<()> {
        if ty.is_scalar() {
            let w = ty.bits();
            let n = ((w + 7) / 8) as u64;
            let r = match v {
                V::C(x) => R::C(*x as u128),
                V::U => R::C(0),
                V::T(t) => {
                    let t = if w % 8 != 0 { zext(*t, n as u32 * 8) } else { *t };
                    R::of(t)
                }
                _ => return unsup("store of aggregate as scalar"),
            };
            return self.store_ptr(st, p, n, r);
        }
        let V::Agg(vs) = v else {
            if let V::U = v {
                return Ok(());
            }
            return unsup("store aggregate");
        };
        if let Ty::Vec(n, e) = ty {
            if e.bits() < 8 {
                let ew = e.bits();
                let mut t: Option<T> = None;
                for i in 0..*n {
                    let x = Self::term(&vs[i as usize], ew);
                    t = Some(match t {
                        None => x,
                        Some(l) => concat(x, l),
                    });
                }
                let bytes = (n * ew + 7) / 8;
                let t = zext(t.unwrap(), bytes * 8);
                return self.store_ptr(st, p, bytes as u64, R::of(t));
            }
        }
        for i in 0..ty.nelem() {
            let q = self.ptr_add(p, ty.field_off(i));
            self.store_ty(st, &q, &ty.elem(i), &vs[i])?;
        }
        Ok(())
    }

    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> X<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::U => Ok(0),
            V::T(t) => {
                if let Some(x) = st.conc.get(t) {
                    return Ok(*x);
                }
                if let Some(x) = is_const(*t) {
                    return Ok(x as u64);
                }
                let _ = w;
                if st.model.is_none() {
                    let (a, m) = self.smt.check(&st.pc, TRUE);
                    if a == Ans::Unsat {
                        return Err(Ex::Dead);
                    }
                    st.model = m;
                }
                let x = match &st.model {
                    Some(m) => m.eval(*t),
                    None => return unsup("cannot concretise: solver gave no model"),
                };
                Err(Ex::Split(*t, x as u64))
            }
            V::Agg(_) => unsup("aggregate concretised"),
        }
    }

    // ------------------------------------------------------------ instructions
    fn bin(k: B, w: u32, a: &V, b: &V) -> V {
        if w <= 64 {
            if let (V::C(x), V::C(y)) = (a, b) {
                let (x, y) = (*x, *y);
                let m = mask(u128::MAX, w) as u64;
                let sxx = |v: u64| -> i64 { ((v << (64 - w)) as i64) >> (64 - w) };
                let r = match k {
                    B::Add => x.wrapping_add(y),
                    B::Sub => x.wrapping_sub(y),
                    B::Mul => x.wrapping_mul(y),
                    B::And => x & y,
                    B::Or => x | y,
                    B::Xor => x ^ y,
                    B::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    B::Lshr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    B::Ashr => (sxx(x) >> y.min(w as u64 - 1)) as u64,
                    B::Udiv => {
                        if y == 0 {
                            0
                        } else {
                            x / y
                        }
                    }
                    B::Urem => {
                        if y == 0 {
                            0
                        } else {
                            x % y
                        }
                    }
                    B::Sdiv => {
                        if y == 0 {
                            0
                        } else {
                            sxx(x).wrapping_div(sxx(y)) as u64
                        }
                    }
                    B::Srem => {
                        if y == 0 {
                            0
                        } else {
                            sxx(x).wrapping_rem(sxx(y)) as u64
                        }
                    }
                };
                return V::C(r & m);
            }
        }
        let (x, y) = (Self::term(a, w), Self::term(b, w));
        Self::mkv(match k {
            B::Add => term::add(x, y),
            B::Sub => term::sub(x, y),
            B::Mul => term::mul(x, y),
            B::And => and(x, y),
            B::Or => or(x, y),
            B::Xor => xor(x, y),
            B::Shl => shl(x, y),
            B::Lshr => lshr(x, y),
            B::Ashr => ashr(x, y),
            B::Udiv => div(Op::Udiv, x, y),
            B::Urem => div(Op::Urem, x, y),
            B::Sdiv => div(Op::Sdiv, x, y),
            B::Srem => div(Op::Srem, x, y),
        })
    }
    fn icmp(p: P, w: u32, a: &V, b: &V) -> V {
        if w <= 64 {
            if let (V::C(x), V::C(y)) = (a, b) {
                let (x, y) = (*x, *y);
                let (sa, sb) = (((x << (64 - w)) as i64) >> (64 - w), ((y << (64 - w)) as i64) >> (64 - w));
                let r = match p {
                    P::Eq => x == y,
                    P::Ne => x != y,
                    P::Ugt => x > y,
                    P::Uge => x >= y,
                    P::Ult => x < y,
                    P::Ule => x <= y,
                    P::Sgt => sa > sb,
                    P::Sge => sa >= sb,
                    P::Slt => sa < sb,
                    P::Sle => sa <= sb,
                };
                return V::C(r as u64);
            }
        }
        let (x, y) = (Self::term(a, w), Self::term(b, w));
        Self::mkv(match p {
            P::Eq => eq(x, y),
            P::Ne => ne(x, y),
            P::Ugt => ult(y, x),
            P::Uge => ule(y, x),
            P::Ult => ult(x, y),
            P::Ule => ule(x, y),
            P::Sgt => slt(y, x),
            P::Sge => sle(y, x),
            P::Slt => slt(x, y),
            P::Sle => sle(x, y),
        })
    }
    fn sel(c: T, ty: &Ty, a: &V, b: &V) -> V {
        if c == TRUE {
            return a.clone();
        }
        if c == FALSE {
            return b.clone();
        }
        match (a, b) {
            (V::U, x) | (x, V::U) => x.clone(),
            (V::C(x), V::C(y)) if x == y => V::C(*x),
            (V::T(x), V::T(y)) if x == y => V::T(*x),
            (V::Agg(x), V::Agg(y)) => {
                if Rc::ptr_eq(x, y) {
                    return a.clone();
                }
                V::Agg(Rc::new(x.iter().zip(y.iter()).enumerate().map(|(i, (p, q))| Self::sel(c, &ty.elem(i), p, q)).collect()))
            }
            _ => {
                let w = ty.bits();
                Self::mkv(ite(c, Self::term(a, w), Self::term(b, w)))
            }
        }
    }
    fn map2(ty: &Ty, a: &V, b: &V, f: impl Fn(u32, &V, &V) -> V) -> V {
        match ty {
            Ty::Vec(_, e) => {
                let (V::Agg(x), V::Agg(y)) = (a, b) else { return V::U };
                V::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| f(e.bits(), p, q)).collect()))
            }
            t => f(t.bits(), a, b),
        }
    }
    fn cast(k: CastK, ft: &Ty, tt: &Ty, v: &V) -> V {
        if let (Ty::Vec(_, fe), Ty::Vec(_, te), V::Agg(x)) = (ft, tt, v) {
            if !(k == CastK::Bitcast && fe.bits() != te.bits()) {
                return V::Agg(Rc::new(x.iter().map(|p| Self::cast(k, fe, te, p)).collect()));
            }
        }
        if k == CastK::Bitcast || (k == CastK::PtrInt && (matches!(ft, Ty::Vec(..)) || matches!(tt, Ty::Vec(..)))) {
            // flatten and rebuild
            let t = Self::flat(ft, v);
            return Self::unflat(tt, t);
        }
        let (fw, tw) = (ft.bits(), tt.bits());
        match v {
            V::U => V::C(0),
            V::C(x) if tw <= 64 => match k {
                CastK::Trunc => V::C(mask(*x as u128, tw) as u64),
                CastK::Sext => V::C(mask((((*x) << (64 - fw)) as i64 >> (64 - fw)) as u128, tw) as u64),
                _ => V::C(mask(*x as u128, tw) as u64),
            },
            _ => {
                let t = Self::term(v, fw);
                Self::mkv(match k {
                    CastK::Trunc => extract(tw - 1, 0, t),
                    CastK::Zext => zext(t, tw),
                    CastK::Sext => sext(t, tw),
                    _ => {
                        if tw < fw {
                            extract(tw - 1, 0, t)
                        } else {
                            zext(t, tw)
                        }
                    }
                })
            }
        }
    }
    fn flat(ty: &Ty, v: &V) -> T {
        match (ty, v) {
            (Ty::Vec(_, e), V::Agg(x)) => {
                let mut acc: Option<T> = None;
                for y in x.iter() {
                    let t = Self::term(y, e.bits());
                    acc = Some(match acc {
                        None => t,
                        Some(l) => concat(t, l),
                    });
                }
                acc.unwrap()
            }
            _ => Self::term(v, ty.bits()),
        }
    }
    fn unflat(ty: &Ty, t: T) -> V {
        match ty {
            Ty::Vec(n, e) => {
                let w = e.bits();
                V::Agg(Rc::new((0..*n).map(|i| Self::mkv(extract((i + 1) * w - 1, i * w, t))).collect()))
            }
            _ => Self::mkv(t),
        }
    }

    fn is_sym(v: &V) -> bool {
        match v {
            V::T(_) => true,
            V::Agg(x) => x.iter().any(Self::is_sym),
            _ => false,
        }
    }

    fn goto(&self, st: &mut State, b: u32) {
        let top = st.frames.last_mut().unwrap();
        let fr = Rc::make_mut(top);
        let from = fr.blk;
        let blk = &fr.f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals: Vec<V> = Vec::with_capacity(blk.phis.len());
            for (_, _, inc) in &blk.phis {
                let o = &inc.iter().find(|(p, _)| *p == from).expect("phi edge").1;
                vals.push(match o {
                    O::C(v) => V::C(*v),
                    O::R(r) => fr.regs[*r as usize].clone(),
                    O::K(k) => self.kval(&k.0, &k.1),
                });
            }
            for ((d, _, _), v) in blk.phis.iter().zip(vals) {
                fr.regs[*d as usize] = v;
            }
        }
        fr.blk = b;
        fr.ip = 0;
    }

    fn mark(&mut self, f: &'static Func) {
        self.symfn[f.id as usize] = true;
    }

    fn step(&mut self, st: &mut State) -> X<Step> {
        let fr: &Frame = st.frames.last().unwrap();
        let f = fr.f;
        let inst: &'static I = {
            let b = &f.blocks[fr.blk as usize];
            match b.insts.get(fr.ip as usize) {
                Some(i) => i,
                None => return unsup("fell off block"),
            }
        };
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.regs[*$d as usize] = v;
                fr.ip += 1;
                return Ok(Step::Go);
            }};
        }
        match inst {
            I::Bin(k, ty, d, a, b) => {
                let (x, y) = (self.val(fr, a), self.val(fr, b));
                let r = Self::map2(ty, &x, &y, |w, p, q| Self::bin(*k, w, p, q));
                if let V::T(_) = r {
                    self.mark(f);
                }
                set!(d, r)
            }
            I::Icmp(p, ty, d, a, b) => {
                let (x, y) = (self.val(fr, a), self.val(fr, b));
                let r = Self::map2(ty, &x, &y, |w, u, v| Self::icmp(*p, w, u, v));
                if let V::T(_) = r {
                    self.mark(f);
                }
                set!(d, r)
            }
            I::Load(d, ty, p) => {
                let p = self.val(fr, p);
                let v = self.load_ty(st, &p, ty)?;
                set!(d, v)
            }
            I::Store(ty, v, p) => {
                let (v, p) = (self.val(fr, v), self.val(fr, p));
                self.store_ty(st, &p, ty, &v)?;
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                Ok(Step::Go)
            }
            I::Gep(d, base, off, dynv) => {
                let b = self.val(fr, base);
                let r = match &b {
                    V::C(x) if dynv.is_empty() => V::C(x.wrapping_add(*off)),
                    _ => {
                        let mut c = *off;
                        let mut t: Option<T> = None;
                        match &b {
                            V::C(x) => c = c.wrapping_add(*x),
                            V::T(x) => t = Some(*x),
                            V::U => {}
                            V::Agg(_) => return unsup("vector gep"),
                        }
                        for (o, w, scale) in dynv {
                            match self.val(fr, o) {
                                V::C(x) => c = c.wrapping_add((((x << (64 - w)) as i64 >> (64 - w)) as u64).wrapping_mul(*scale)),
                                V::T(x) => {
                                    let x = sext(x, 64);
                                    let y = term::mul(x, cst(64, *scale as u128));
                                    t = Some(match t {
                                        None => y,
                                        Some(z) => term::add(z, y),
                                    });
                                }
                                _ => {}
                            }
                        }
                        match t {
                            None => V::C(c),
                            Some(t) => Self::mkv(term::add(t, cst(64, c as u128))),
                        }
                    }
                };
                set!(d, r)
            }
            I::Cast(k, ft, tt, d, o) => {
                let v = self.val(fr, o);
                set!(d, Self::cast(*k, ft, tt, &v))
            }
            I::Select(ct, vt, d, c, a, b) => {
                let (c, a, b) = (self.val(fr, c), self.val(fr, a), self.val(fr, b));
                let r = match (ct, &c) {
                    (Ty::Vec(..), V::Agg(cs)) => {
                        let (V::Agg(x), V::Agg(y)) = (&a, &b) else { return unsup("vector select") };
                        V::Agg(Rc::new((0..cs.len()).map(|i| Self::sel(Self::term(&cs[i], 1), &vt.elem(i), &x[i], &y[i])).collect()))
                    }
                    (_, V::C(1)) => a,
                    (_, V::C(_)) => b,
                    (_, V::U) => b,
                    (_, V::T(t)) => {
                        self.mark(f);
                        let mut t = *t;
                        match Self::by_facts(st, t, 8) {
                            Some(true) => t = TRUE,
                            Some(false) => t = FALSE,
                            None => {}
                        }
                        Self::sel(t, vt, &a, &b)
                    }
                    _ => return unsup("select"),
                };
                set!(d, r)
            }
            I::Br(b) => {
                self.goto(st, *b);
                Ok(Step::Moved)
            }
            I::CondBr(c, x, y) => match self.val(fr, c) {
                V::C(k) => {
                    self.goto(st, if k == 1 { *x } else { *y });
                    Ok(Step::Moved)
                }
                V::T(t) => {
                    self.mark(f);
                    if *x == *y {
                        // phi selection cannot depend on it
                        self.goto(st, *x);
                        return Ok(Step::Moved);
                    }
                    Ok(Step::Alts(vec![(t, Act::Jump(*x)), (not(t), Act::Jump(*y))]))
                }
                _ => unsup("branch on undefined"),
            },
            I::Switch(w, o, def, cases) => match self.val(fr, o) {
                V::C(k) => {
                    let t = cases.iter().find(|(v, _)| *v == k).map_or(*def, |c| c.1);
                    self.goto(st, t);
                    Ok(Step::Moved)
                }
                V::T(t) => {
                    self.mark(f);
                    let mut by: BTreeMap<u32, T> = BTreeMap::new();
                    let mut any = FALSE;
                    for (v, b) in cases.iter() {
                        let e = eq(t, cst(*w, *v as u128));
                        any = or(any, e);
                        let x = by.entry(*b).or_insert(FALSE);
                        *x = or(*x, e);
                    }
                    let x = by.entry(*def).or_insert(FALSE);
                    *x = or(*x, not(any));
                    Ok(Step::Alts(by.into_iter().map(|(b, c)| (c, Act::Jump(b))).collect()))
                }
                _ => unsup("switch on undefined"),
            },
            I::Ret(o) => {
                let v = match o {
                    None => V::U,
                    Some((_, o)) => self.val(fr, o),
                };
                let na = fr.nalloca;
                let (dst, normal) = (fr.dst, fr.normal);
                st.frames.pop();
                for _ in 0..na {
                    st.stack.next -= 1;
                    let s = st.stack.next;
                    st.stack.set(s, None);
                }
                if st.frames.is_empty() {
                    return Ok(Step::Moved);
                }
                if let Some(d) = dst {
                    Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v;
                }
                if let Some(n) = normal {
                    self.goto(st, n);
                }
                Ok(Step::Moved)
            }
            I::Unreachable => Err(Ex::Panic(format!("unreachable code in {}", demangle(&f.name)))),
            I::Alloca(d, size) => {
                let s = st.stack.push(*size);
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.nalloca += 1;
                fr.regs[*d as usize] = V::C(((s as u64 + STACK_SLOT0) << SLOT_BITS) + BIAS);
                fr.ip += 1;
                Ok(Step::Go)
            }
            I::ExtractValue(d, _, o, ix) => {
                let mut v = self.val(fr, o);
                for i in ix {
                    v = match &v {
                        V::Agg(x) => x[*i as usize].clone(),
                        _ => V::U,
                    };
                }
                set!(d, v)
            }
            I::InsertValue(d, ty, o, _, v, ix) => {
                let a = self.val(fr, o);
                let v = self.val(fr, v);
                let a = if let V::U = a { self.zero(ty) } else { a };
                set!(d, ins(&a, &v, ix))
            }
            I::ExtractElem(d, ty, o, i) => {
                let v = self.val(fr, o);
                let iv = self.val(fr, i);
                let V::Agg(x) = &v else { return unsup("extractelement") };
                let r = match iv {
                    V::C(k) => x[k as usize].clone(),
                    V::T(t) => {
                        let e = ty.elem(0);
                        let mut acc = x[0].clone();
                        for k in 1..x.len() {
                            acc = Self::sel(eq(t, cst(width(t), k as u128)), &e, &x[k], &acc);
                        }
                        acc
                    }
                    _ => V::U,
                };
                set!(d, r)
            }
            I::InsertElem(d, ty, o, v, i) => {
                let a = self.val(fr, o);
                let v = self.val(fr, v);
                let V::C(k) = self.val(fr, i) else { return unsup("insertelement index") };
                let a = if let V::U = a { self.zero(ty) } else { a };
                set!(d, ins(&a, &v, &[k as u32]))
            }
            I::Shuffle(d, ty, a, b, m) => {
                let z = self.zero(ty);
                let fix = |v: V| if let V::U = v { z.clone() } else { v };
                let (a, b) = (fix(self.val(fr, a)), fix(self.val(fr, b)));
                let (V::Agg(x), V::Agg(y)) = (&a, &b) else { return unsup("shuffle") };
                let n = x.len();
                let r = m.iter().map(|k| if (*k as usize) < n { x[*k as usize].clone() } else { y[*k as usize - n].clone() }).collect();
                set!(d, V::Agg(Rc::new(r)))
            }
            I::Freeze(d, ty, o) => {
                let v = self.val(fr, o);
                let v = if let V::U = v { self.zero(ty) } else { v };
                set!(d, v)
            }
            I::Rmw(d, k, ty, p, v) => {
                let (p, v) = (self.val(fr, p), self.val(fr, v));
                let old = self.load_ty(st, &p, ty)?;
                let w = ty.bits();
                let nv = match k.as_str() {
                    "xchg" => v,
                    "add" => Self::bin(B::Add, w, &old, &v),
                    "sub" => Self::bin(B::Sub, w, &old, &v),
                    "and" => Self::bin(B::And, w, &old, &v),
                    "or" => Self::bin(B::Or, w, &old, &v),
                    "xor" => Self::bin(B::Xor, w, &old, &v),
                    "umax" | "umin" | "max" | "min" => {
                        let p = match k.as_str() {
                            "umax" => P::Ugt,
                            "umin" => P::Ult,
                            "max" => P::Sgt,
                            _ => P::Slt,
                        };
                        let c = Self::icmp(p, w, &old, &v);
                        Self::sel(Self::term(&c, 1), ty, &old, &v)
                    }
                    _ => return unsup(format!("atomicrmw {}", k)),
                };
                self.store_ty(st, &p, ty, &nv)?;
                set!(d, old)
            }
            I::CmpXchg(d, ty, p, c, n) => {
                let (p, c, n) = (self.val(fr, p), self.val(fr, c), self.val(fr, n));
                let old = self.load_ty(st, &p, ty)?;
                let e = Self::icmp(P::Eq, ty.bits(), &old, &c);
                let nv = Self::sel(Self::term(&e, 1), ty, &n, &old);
                self.store_ty(st, &p, ty, &nv)?;
                set!(d, V::Agg(Rc::new(vec![old, e])))
            }
            I::Nop => {
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                Ok(Step::Go)
            }
            I::Unsupported(s) => unsup(format!("instruction {} in {}", s, demangle(&f.name))),
            I::Call(c) => self.call(st, f, c),
        }
    }

    fn resolve_fn(&mut self, id: u32) -> H {
        if let Some(h) = self.handlers[id as usize] {
            return h;
        }
        let (name, sym) = &self.m.syms[id as usize];
        let h = if name.contains("fmt6format12format_inner") || name.contains("alloc3fmt6format") && name.contains("format_inner") {
            H::Intr(I_FORMAT)
        } else if name.contains("std2io5stdio6__print") || name.contains("3std2io5stdio6_print") || name.contains("stdio7__eprint") || name.contains("stdio7_eprint") {
            H::Intr(I_NOP)
        } else {
            match sym {
                Sym::Func { .. } => {
                    if name == "memcpy" || name == "memmove" || name == "memset" {
                        H::Intr(intr(name))
                    } else if self.m.noreturn_fn[id as usize] {
                        H::NoRet
                    } else {
                        H::Body(self.func(id))
                    }
                }
                Sym::Decl { noreturn, .. } => {
                    let i = intr(name);
                    if i == I_UNKNOWN && *noreturn {
                        H::NoRet
                    } else {
                        H::Intr(i)
                    }
                }
                _ => H::Intr(I_UNKNOWN),
            }
        };
        self.handlers[id as usize] = Some(h);
        h
    }

    fn call(&mut self, st: &mut State, f: &'static Func, c: &'static CallI) -> X<Step> {
        let fr: &Frame = st.frames.last().unwrap();
        let id = match &c.callee {
            Callee::Name(id) => *id,
            Callee::Asm => {
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                return Ok(Step::Go);
            }
            Callee::Ind(o) => {
                let v = self.val(fr, o);
                let a = match v {
                    V::C(a) => a,
                    v => self.conc(st, &v, 64)?,
                };
                if a < FN_BASE || (a - FN_BASE) / 16 >= self.m.syms.len() as u64 {
                    return unsup(format!("indirect call to {:#x} in {}", a, demangle(&f.name)));
                }
                ((a - FN_BASE) / 16) as u32
            }
        };
        match self.resolve_fn(id) {
            H::Body(g) => {
                if c.noreturn && !g.blocks.iter().any(|b| matches!(b.insts.last(), Some(I::Ret(_)))) {
                    return Err(Ex::Panic(format!("{} called in {}", demangle(&g.name), demangle(&f.name))));
                }
                let fr: &Frame = st.frames.last().unwrap();
                let mut regs = vec![V::U; g.nregs as usize];
                for (k, (r, _)) in g.params.iter().enumerate() {
                    if let Some((_, o)) = c.args.get(k) {
                        regs[*r as usize] = self.val(fr, o);
                    }
                }
                if st.frames.len() > 2000 {
                    return unsup("call depth");
                }
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                st.frames.push(Rc::new(Frame { f: g, regs, blk: 0, ip: 0, nalloca: 0, dst: c.dst, normal: c.normal }));
                Ok(Step::Go)
            }
            H::NoRet => {
                let n = &self.m.syms[id as usize].0;
                Err(Ex::Panic(format!("{} called in {}", demangle(n), demangle(&f.name))))
            }
            H::Intr(i) => {
                let fr: &Frame = st.frames.last().unwrap();
                let args: Vec<V> = c.args.iter().map(|(_, o)| self.val(fr, o)).collect();
                let r = self.intrinsic(st, i, id, c, args)?;
                if c.noreturn && i != I_NOP {
                    return Err(Ex::Panic(format!("{} in {}", self.m.syms[id as usize].0, demangle(&f.name))));
                }
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                if let Some(d) = c.dst {
                    fr.regs[d as usize] = r;
                }
                fr.ip += 1;
                if let Some(n) = c.normal {
                    self.goto(st, n);
                    return Ok(Step::Moved);
                }
                Ok(Step::Go)
            }
        }
    }

    fn malloc(&mut self, st: &mut State, n: u64) -> u64 {
        let s = st.heap.alloc(n.max(1));
        ((s as u64 + HEAP_SLOT0) << SLOT_BITS) + BIAS
    }
    fn free(&mut self, st: &mut State, p: u64) {
        if p == 0 {
            return;
        }
        let (slot, _) = decode_ptr(p);
        if slot >= HEAP_SLOT0 && st.heap.get((slot - HEAP_SLOT0) as u32).is_some() {
            st.heap.release((slot - HEAP_SLOT0) as u32);
        }
    }

    fn memcpy(&mut self, st: &mut State, d: &V, s: &V, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        if let (V::C(d), V::C(s)) = (d, s) {
            let ((ds, doff), (ss, soff)) = (decode_ptr(*d), decode_ptr(*s));
            let so = self.obj(st, ss)?;
            if soff.wrapping_add(n) > so.size || soff > so.size {
                return unsup(format!("memcpy reads out of bounds: off {} n {} size {}", soff, n, so.size));
            }
            let o = self.obj_mut(st, ds)?;
            if doff.wrapping_add(n) > o.size || doff > o.size {
                return unsup(format!("memcpy writes out of bounds: off {} n {} size {}", doff, n, o.size));
            }
            return o.copy_from(doff, &so, soff, n).map_err(Ex::Unsup);
        }
        if n > 256 {
            return unsup("large memcpy through a symbolic pointer");
        }
        // word-wise, reading everything first
        let mut vals = vec![];
        let mut k = 0;
        while k < n {
            let m = if n - k >= 8 {
                8
            } else if n - k >= 4 {
                4
            } else if n - k >= 2 {
                2
            } else {
                1
            };
            let p = self.ptr_add(s, k);
            vals.push((k, m, self.load_ptr(st, &p, m)?));
            k += m;
        }
        for (k, m, v) in vals {
            let p = self.ptr_add(d, k);
            self.store_ptr(st, &p, m, v)?;
        }
        Ok(())
    }

    fn cstr(&mut self, st: &mut State, p: &V, n: u64) -> X<String> {
        let mut s = vec![];
        for k in 0..n {
            let q = self.ptr_add(p, k);
            match self.load_ptr(st, &q, 1)? {
                R::C(v) => s.push(v as u8),
                R::T(_) => return unsup("symbolic tag"),
            }
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }

    fn intrinsic(&mut self, st: &mut State, i: u32, id: u32, c: &CallI, a: Vec<V>) -> X<V> {
        let aw = |k: usize| c.args[k].0.bits();
        Ok(match i {
            I_NOP => V::C(0),
            I_FORMAT => {
                let p = a[0].clone();
                if self.fmt_template.is_empty() {
                    return unsup("format_inner before vp_stub_format");
                }
                for (k, b) in self.fmt_template.clone().iter().enumerate() {
                    let q = self.ptr_add(&p, k as u64);
                    self.store_ptr(st, &q, 1, R::C(*b as u128))?;
                }
                V::U
            }
            I_MALLOC => {
                let n = self.conc(st, &a[0], 64)?;
                V::C(self.malloc(st, n))
            }
            I_CALLOC => {
                let n = self.conc(st, &a[0], 64)?;
                let m = self.conc(st, &a[1], 64)?;
                V::C(self.malloc(st, n * m))
            }
            I_MEMALIGN => {
                let n = self.conc(st, &a[2], 64)?;
                let p = self.malloc(st, n);
                self.store_ptr(st, &a[0], 8, R::C(p as u128))?;
                V::C(0)
            }
            I_ALIGNED_ALLOC => {
                let n = self.conc(st, &a[1], 64)?;
                V::C(self.malloc(st, n))
            }
            I_REALLOC => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, &a[1], 64)?;
                let q = self.malloc(st, n);
                if p != 0 {
                    let (slot, _) = decode_ptr(p);
                    let o = self.obj(st, slot)?;
                    let m = o.size.min(n);
                    self.memcpy(st, &V::C(q), &V::C(p), m)?;
                    self.free(st, p);
                }
                V::C(q)
            }
            I_FREE => {
                let p = self.conc(st, &a[0], 64)?;
                self.free(st, p);
                V::U
            }
            I_MEMCPY => {
                let n = self.conc(st, &a[2], 64)?;
                self.memcpy(st, &a[0], &a[1], n)?;
                a[0].clone()
            }
            I_MEMSET => {
                let n = self.conc(st, &a[2], 64)?;
                if n > 0 {
                    match (&a[0], &a[1]) {
                        (V::C(p), V::C(b)) => {
                            let (s, off) = decode_ptr(*p);
                            let o = self.obj_mut(st, s)?;
                            if off + n > o.size {
                                return unsup("memset out of bounds");
                            }
                            o.fill(off, n, *b as u8);
                        }
                        (p, b) => {
                            if n > 256 {
                                return unsup("large symbolic memset");
                            }
                            let b = Self::term(b, aw(1));
                            let b = extract(7, 0, b);
                            for k in 0..n {
                                let q = self.ptr_add(p, k);
                                self.store_ptr(st, &q, 1, R::of(b))?;
                            }
                        }
                    }
                }
                a[0].clone()
            }
            I_BCMP | I_MEMCMP => {
                let n = self.conc(st, &a[2], 64)?;
                let mut r = cst(32, 0);
                for k in (0..n).rev() {
                    let (p, q) = (self.ptr_add(&a[0], k), self.ptr_add(&a[1], k));
                    let x = self.load_ptr(st, &p, 1)?.term(8);
                    let y = self.load_ptr(st, &q, 1)?.term(8);
                    let e = eq(x, y);
                    if i == I_BCMP {
                        r = ite(e, r, cst(32, 1));
                    } else {
                        r = ite(e, r, ite(ult(x, y), cst(32, u128::MAX), cst(32, 1)));
                    }
                }
                Self::mkv(r)
            }
            I_STRLEN => {
                let mut k = 0;
                loop {
                    let q = self.ptr_add(&a[0], k);
                    match self.load_ptr(st, &q, 1)? {
                        R::C(0) => break,
                        R::C(_) => k += 1,
                        R::T(_) => return unsup("strlen of symbolic string"),
                    }
                }
                V::C(k)
            }
            I_ZERO => V::C(0),
            I_MINUS1 => V::C(mask(u128::MAX, c.ret.bits()) as u64),
            I_WRITE => a[2].clone(),
            I_WRITEV => {
                // total length of the vectors
                let n = self.conc(st, &a[2], 32)?;
                let mut tot = 0;
                for k in 0..n {
                    let q = self.ptr_add(&a[1], 16 * k + 8);
                    if let R::C(v) = self.load_ptr(st, &q, 8)? {
                        tot += v as u64
                    }
                }
                V::C(tot)
            }
            I_GETRANDOM => {
                let n = self.conc(st, &a[1], 64)?;
                for k in 0..n {
                    let q = self.ptr_add(&a[0], k);
                    self.store_ptr(st, &q, 1, R::C((k as u128 * 37 + 11) & 0xff))?;
                }
                V::C(n)
            }
            I_SYSCALL => {
                let nr = self.conc(st, &a[0], 64)?;
                match nr {
                    318 => {
                        let n = self.conc(st, &a[2], 64)?;
                        for k in 0..n {
                            let q = self.ptr_add(&a[1], k);
                            self.store_ptr(st, &q, 1, R::C((k as u128 * 37 + 11) & 0xff))?;
                        }
                        V::C(n)
                    }
                    202 => V::C(0),
                    _ => return unsup(format!("syscall {}", nr)),
                }
            }
            I_ERRNO => {
                let id = self.m.syms.iter().position(|s| matches!(s.1, Sym::Global { constant: false, .. }));
                let _ = id;
                V::C(self.malloc(st, 8))
            }
            I_CLOCK => {
                let p = a[1].clone();
                self.store_ptr(st, &p, 8, R::C(1))?;
                let q = self.ptr_add(&p, 8);
                self.store_ptr(st, &q, 8, R::C(0))?;
                V::C(0)
            }
            I_KEYCREATE => {
                self.store_ptr(st, &a[0], 4, R::C(1))?;
                V::C(0)
            }
            I_FIRST => a[0].clone(),
            I_ASSUME_LLVM => V::U,
            I_OVF => {
                // {s,u}{add,sub,mul}.with.overflow
                let n = &self.m.syms[id as usize].0;
                let w = aw(0);
                let signed = n.starts_with("llvm.s");
                let kind = &n[6..9];
                let k = match kind {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    _ => B::Mul,
                };
                let r = Self::bin(k, w, &a[0], &a[1]);
                let o = if w <= 64 && matches!((&a[0], &a[1]), (V::C(_), V::C(_))) {
                    let (V::C(x), V::C(y)) = (&a[0], &a[1]) else { unreachable!() };
                    let ov = if signed {
                        let (x, y) = (sx(*x as u128, w), sx(*y as u128, w));
                        let z = match k {
                            B::Add => x + y,
                            B::Sub => x - y,
                            _ => x * y,
                        };
                        z != sx(z as u128 & ones(w), w)
                    } else {
                        let (x, y) = (*x as i128, *y as i128);
                        match k {
                            B::Add => (x + y) as u128 > ones(w),
                            B::Sub => x < y,
                            _ => (x as u128) * (y as u128) > ones(w),
                        }
                    };
                    V::C(ov as u64)
                } else {
                    let (x, y, z) = (Self::term(&a[0], w), Self::term(&a[1], w), Self::term(&r, w));
                    let sb = |t| extract(w - 1, w - 1, t);
                    let t = match (signed, k) {
                        (false, B::Add) if term::umin_max(x).1 + term::umin_max(y).1 <= ones(w) && w < 100 => FALSE,
                        (true, B::Add | B::Sub) if w <= 64 && {
                            let ((xl, xh), (yl, yh)) = (term::smin_max(x), term::smin_max(y));
                            let (l, h) = if k == B::Add { (xl + yl, xh + yh) } else { (xl - yh, xh - yl) };
                            l >= -(1i128 << (w - 1)) && h < 1i128 << (w - 1)
                        } => FALSE,
                        (false, B::Mul) if is_const(y).map_or(false, |c| c != 0) => {
                            ult(cst(w, ones(w) / is_const(y).unwrap()), x)
                        }
                        (true, B::Mul) if is_const(y).map_or(false, |c| c != 0 && c <= ones(w - 1)) => {
                            let c = is_const(y).unwrap() as i128;
                            let max = ones(w - 1) as i128;
                            let min = -max - 1;
                            or(slt(cst(w, (max / c) as u128), x), slt(x, cst(w, (min / c) as u128)))
                        }
                        (false, B::Add) => ult(z, x),
                        (false, B::Sub) => ult(x, y),
                        (true, B::Add) => and(not(xor(sb(x), sb(y))), xor(sb(x), sb(z))),
                        (true, B::Sub) => and(xor(sb(x), sb(y)), xor(sb(x), sb(z))),
                        (s, _) => {
                            if w > 64 {
                                return unsup("wide mul overflow");
                            }
                            let e = |t| if s { sext(t, 2 * w) } else { zext(t, 2 * w) };
                            let p = term::mul(e(x), e(y));
                            ne(p, e(extract(w - 1, 0, p)))
                        }
                    };
                    Self::mkv(t)
                };
                V::Agg(Rc::new(vec![r, o]))
            }
            I_SAT => {
                let n = &self.m.syms[id as usize].0;
                let w = aw(0);
                let (x, y) = (Self::term(&a[0], w), Self::term(&a[1], w));
                if n.starts_with("llvm.uadd") {
                    let z = term::add(x, y);
                    Self::mkv(ite(ult(z, x), cst(w, u128::MAX), z))
                } else if n.starts_with("llvm.usub") {
                    Self::mkv(ite(ult(x, y), cst(w, 0), term::sub(x, y)))
                } else {
                    let sub = n.starts_with("llvm.ssub");
                    let z = if sub { term::sub(x, y) } else { term::add(x, y) };
                    let sb = |t| extract(w - 1, w - 1, t);
                    let d = xor(sb(x), sb(y));
                    let ov = and(if sub { d } else { not(d) }, xor(sb(x), sb(z)));
                    let min = cst(w, 1u128 << (w - 1));
                    Self::mkv(ite(ov, ite(sb(x), min, not(min)), z))
                }
            }
            I_MINMAX => {
                let n = &self.m.syms[id as usize].0;
                let p = match &n[5..9] {
                    "umax" => P::Ugt,
                    "umin" => P::Ult,
                    "smax" => P::Sgt,
                    _ => P::Slt,
                };
                let ty = &c.ret;
                Self::map2(ty, &a[0], &a[1], |w, x, y| {
                    let c = Self::icmp(p, w, x, y);
                    Self::sel(Self::term(&c, 1), &Ty::Int(w), x, y)
                })
            }
            I_CMP3 => {
                let n = &self.m.syms[id as usize].0;
                let s = n.starts_with("llvm.scmp");
                let w = aw(0);
                let rw = c.ret.bits();
                let lt = Self::term(&Self::icmp(if s { P::Slt } else { P::Ult }, w, &a[0], &a[1]), 1);
                let gt = Self::term(&Self::icmp(if s { P::Sgt } else { P::Ugt }, w, &a[0], &a[1]), 1);
                Self::mkv(ite(lt, cst(rw, u128::MAX), ite(gt, cst(rw, 1), cst(rw, 0))))
            }
            I_ABS => {
                let w = aw(0);
                let x = Self::term(&a[0], w);
                Self::mkv(ite(extract(w - 1, w - 1, x), term::neg(x), x))
            }
            I_CTPOP => {
                let w = aw(0);
                match &a[0] {
                    V::C(x) => V::C(x.count_ones() as u64),
                    v => {
                        let x = Self::term(v, w);
                        let mut s = cst(w, 0);
                        for k in 0..w {
                            s = term::add(s, zext(extract(k, k, x), w));
                        }
                        Self::mkv(s)
                    }
                }
            }
            I_CTLZ | I_CTTZ => {
                let w = aw(0);
                match &a[0] {
                    V::C(x) => {
                        let r = if i == I_CTTZ {
                            if *x == 0 {
                                w
                            } else {
                                x.trailing_zeros()
                            }
                        } else {
                            (x << (64 - w)).leading_zeros().min(w)
                        };
                        V::C(r as u64)
                    }
                    v => {
                        let x = Self::term(v, w);
                        let mut s = cst(w, w as u128);
                        for k in 0..w {
                            let b = if i == I_CTTZ { w - 1 - k } else { k };
                            let val = if i == I_CTTZ { b } else { w - 1 - b };
                            s = ite(extract(b, b, x), cst(w, val as u128), s);
                        }
                        Self::mkv(s)
                    }
                }
            }
            I_BSWAP | I_BITREV => {
                let w = aw(0);
                let x = Self::term(&a[0], w);
                let g = if i == I_BSWAP { 8 } else { 1 };
                let mut acc: Option<T> = None;
                for k in 0..w / g {
                    let p = extract((k + 1) * g - 1, k * g, x);
                    acc = Some(match acc {
                        None => p,
                        Some(h) => concat(h, p),
                    });
                }
                Self::mkv(acc.unwrap())
            }
            I_FSHL | I_FSHR => {
                let w = aw(0);
                let (x, y) = (Self::term(&a[0], w), Self::term(&a[1], w));
                let k = match &a[2] {
                    V::C(k) => (*k % w as u64) as u32,
                    _ => return unsup("symbolic funnel shift"),
                };
                if k == 0 {
                    return Ok(Self::mkv(if i == I_FSHL { x } else { y }));
                }
                let k = if i == I_FSHL { k } else { w - k };
                Self::mkv(concat(extract(w - 1 - k, 0, x), extract(w - 1, w - k, y)))
            }
            I_TRAP => return Err(Ex::Panic("trap".into())),
            // ---------------------------------------------------------- harness interface
            I_VP_U64 => {
                let n = self.conc(st, &a[1], 64)?;
                let tag = self.cstr(st, &a[0], n)?;
                if let Some(r) = &self.replay {
                    return Ok(V::C(r.get(&tag).copied().unwrap_or(0)));
                }
                V::T(self.var_for(&tag, 64))
            }
            I_VP_RANGE => {
                let n = self.conc(st, &a[1], 64)?;
                let tag = self.cstr(st, &a[0], n)?;
                let (lo, hi) = (self.conc(st, &a[2], 64)?, self.conc(st, &a[3], 64)?);
                if let Some(r) = &self.replay {
                    return Ok(V::C(r.get(&tag).copied().unwrap_or(lo)));
                }
                // declared bounds belong to the variable: another path that declares other bounds gets
                // another variable of that name
                let m = tm();
                let b = Some((lo as u128, hi as u128));
                let old = m.vars.iter().find(|v| v.0 == tag && v.1 == 64 && m.ranges.get(&m.nodes[v.2 as usize].a).copied() == b);
                let t = match old {
                    Some((_, _, t)) => *t,
                    None => term::var_range(&tag, 64, lo as u128, hi as u128),
                };
                // built directly: the simplifier would use the declared range and answer true
                let c1 = term::raw_ule(cst(64, lo as u128), t);
                let c2 = term::raw_ule(t, cst(64, hi as u128));
                st.model = None;
                self.push_pc(st, c1);
                self.push_pc(st, c2);
                V::T(t)
            }
            I_VP_U8 => {
                let n = self.conc(st, &a[1], 64)?;
                let tag = self.cstr(st, &a[0], n)?;
                if let Some(r) = &self.replay {
                    return Ok(V::C(r.get(&tag).copied().unwrap_or(0) & 0xff));
                }
                V::T(self.var_for(&tag, 8))
            }
            I_VP_ARRAY => {
                // (tag, taglen, ptr, len, pins: *const [u32;2], npins)
                let n = self.conc(st, &a[1], 64)?;
                let tag = self.cstr(st, &a[0], n)?;
                let p = self.conc(st, &a[2], 64)?;
                let len = self.conc(st, &a[3], 64)?;
                let np = self.conc(st, &a[5], 64)?;
                let (slot, off) = decode_ptr(p);
                if let Some(r) = &self.replay {
                    let dflt = r.get(&format!("{}.default", tag)).copied().unwrap_or(0);
                    let vals: Vec<u8> = (0..len).map(|i| r.get(&format!("{}[{}]", tag, i)).copied().unwrap_or(dflt) as u8).collect();
                    let old = self.obj(st, slot)?;
                    let mut pins = HashSet::new();
                    for k in 0..np {
                        let q = self.ptr_add(&a[4], k * 8);
                        let R::C(v) = self.load_ptr(st, &q, 8)? else { return unsup("pins") };
                        let (s, l) = (v as u32 as u64, (v >> 32) as u64);
                        for i in s..s + l {
                            pins.insert(i);
                        }
                    }
                    let _ = old;
                    let o = self.obj_mut(st, slot)?;
                    for (i, v) in vals.iter().enumerate() {
                        if !pins.contains(&(i as u64)) {
                            o.write(off + i as u64, 1, R::C(*v as u128));
                        }
                    }
                    return Ok(V::U);
                }
                let existing = tm().arrays.iter().position(|x| x.name == tag);
                let arr = match existing {
                    Some(a) => a as u32,
                    None => new_array(&tag, len),
                };
                let old = self.obj(st, slot)?;
                for k in 0..np {
                    let q = self.ptr_add(&a[4], k * 8);
                    let R::C(v) = self.load_ptr(st, &q, 8)? else { return unsup("pins") };
                    let (s, l) = (v as u32 as u64, (v >> 32) as u64);
                    for i in s..s + l {
                        match old.read(off + i, 1) {
                            R::C(b) => {
                                tm().arrays[arr as usize].pins.insert(i, b as u8);
                            }
                            R::T(_) => return unsup("pinned byte is symbolic"),
                        }
                    }
                }
                let o = self.obj_mut(st, slot)?;
                o.fill(off, len, 0);
                o.segs.push(Seg { off, len, arr, base: 0, iw: tm().arrays[arr as usize].iw, log: Rc::new(vec![]) });
                V::U
            }
            I_VP_ASSUME => {
                let t = Self::truth(&a[0], aw(0));
                self.assume(st, t)?;
                V::U
            }
            I_VP_ASSERT => {
                let t = Self::truth(&a[0], aw(0));
                let id = self.conc(st, &a[1], 64)?;
                self.assert(st, t, id)?;
                V::U
            }
            I_VP_REACH => {
                let id = self.conc(st, &a[0], 64)?;
                // the state must be satisfiable: exhibit a model
                if !self.rep.reach.contains_key(&id) {
                    let (ans, m) = self.smt.check(&st.pc, TRUE);
                    match ans {
                        Ans::Sat => {
                            st.model = m;
                            if let (Some(m), None) = (&st.model, &self.replay) {
                                if st.pc.iter().all(|p| m.holds(*p)) {
                                    let m = self.diversify(st, m);
                                    let w = Self::values(st, &m);
                                    self.rep.witness.push((id, w));
                                }
                            }
                            *self.rep.reach.entry(id).or_insert(0) += 1;
                        }
                        Ans::Unsat => return Err(Ex::Dead),
                        Ans::Unknown => {}
                    }
                } else {
                    *self.rep.reach.entry(id).or_insert(0) += 1;
                }
                V::U
            }
            I_VP_MERGE => {
                st.merge = self.conc(st, &a[0], 64)? != 0;
                V::U
            }
            I_VP_PANIC_OK => {
                st.panic_ok = self.conc(st, &a[0], 64)? != 0;
                V::U
            }
            I_VP_FORMAT => {
                let p = a[0].clone();
                let mut t = vec![];
                for k in 0..24 {
                    let q = self.ptr_add(&p, k);
                    match self.load_ptr(st, &q, 1)? {
                        R::C(b) => t.push(b as u8),
                        R::T(_) => return unsup("format template"),
                    }
                }
                self.fmt_template = t;
                V::U
            }
            I_VP_CASE => {
                let n = self.conc(st, &a[0], 64)?;
                if self.replay.is_some() {
                    let k = st.note.len();
                    let v = self.replay.as_ref().unwrap().get(&format!("case{}", k)).copied().unwrap_or(0);
                    Rc::make_mut(&mut st.note).push((n, v));
                    return Ok(V::C(v));
                }
                return self.fork_cases(st, c, n);
            }
            I_VP_NOTE => {
                // (tag, len, value): concrete trace output
                let n = self.conc(st, &a[1], 64)?;
                let tag = self.cstr(st, &a[0], n)?;
                let s = match &a[2] {
                    V::C(x) => format!("{} {:#x}", tag, x),
                    V::T(t) => format!("{} {}", tag, if self.debug { show(*t, 6) } else { "symbolic".into() }),
                    _ => tag,
                };
                if self.debug {
                    eprintln!("[note] {}", s);
                }
                if self.rep.trace.len() < 100000 {
                    self.rep.trace.push(s);
                }
                V::U
            }
            I_VP_CONC => {
                // fork on every feasible value
                let v = self.conc(st, &a[0], aw(0))?;
                V::C(v)
            }
            I_VP_IS_SYM => V::C(if self.replay.is_some() { 0 } else { 1 }),
            _ => {
                return unsup(format!("call to {}", self.m.syms[id as usize].0));
            }
        })
    }

    fn var_for(&mut self, tag: &str, w: u32) -> T {
        let m = tm();
        let old = m.vars.iter().find(|v| v.0 == tag && v.1 == w && !m.ranges.contains_key(&m.nodes[v.2 as usize].a));
        if let Some((_, _, t)) = old {
            return *t;
        }
        var(tag, w)
    }

    fn truth(v: &V, w: u32) -> T {
        match v {
            V::C(x) => boolc(*x != 0),
            V::T(t) => {
                if w == 1 {
                    *t
                } else {
                    ne(*t, cst(w, 0))
                }
            }
            _ => FALSE,
        }
    }

    fn assume(&mut self, st: &mut State, t: T) -> X<()> {
        if t == TRUE {
            return Ok(());
        }
        if t == FALSE {
            return Err(Ex::Dead);
        }
        if st.pc.contains(&t) || st.facts.contains(&t) {
            return Ok(());
        }
        let ok = st.model.as_ref().map_or(false, |m| m.holds(t));
        if !ok {
            let (a, m) = self.smt.check(&st.pc, t);
            match a {
                Ans::Unsat => return Err(Ex::Dead),
                Ans::Sat => st.model = m,
                Ans::Unknown => st.model = None,
            }
        }
        self.push_pc(st, t);
        Ok(())
    }
    fn push_pc(&mut self, st: &mut State, t: T) {
        // split conjunctions so that parts are found syntactically
        let n = node(t);
        if n.op == Op::And && n.w == 1 {
            self.push_pc(st, n.a);
            self.push_pc(st, n.b);
            return;
        }
        if !st.pc.contains(&t) {
            st.pc.push(t);
        }
    }

    fn assert(&mut self, st: &mut State, t: T, id: u64) -> X<()> {
        *self.rep.asserts.entry(id).or_insert(0) += 1;
        if self.replay.is_some() {
            if t != TRUE {
                self.rep.violations.push((format!("assert {}", id), String::new()));
                return Err(Ex::Dead);
            }
            return Ok(());
        }
        self.rep.obligations += 1;
        if t == TRUE {
            *self.rep.by_solver.entry("simplifier".into()).or_insert(0) += 1;
            return Ok(());
        }
        if std::env::var("SYMIR_SHOW").is_ok() {
            eprintln!("[assert {}] {}", id, show(t, 12));
        }
        if Instant::now() > self.deadline {
            self.rep.inconclusive.push(format!("assert {}: time limit reached", id));
            return Ok(());
        }
        let nt = not(t);
        let t0 = Instant::now();
        // conjunctions are split: each part is a smaller query
        let mut viol: Option<Rc<Model>> = None;
        let mut unk = false;
        if let Some(m) = &st.model {
            if m.holds(nt) {
                viol = Some(m.clone());
            }
        }
        if viol.is_none() {
            let mut parts = vec![];
            conjuncts(t, &mut parts);
            for p in parts {
                let (a, m) = self.obligation(st, not(p));
                match a {
                    Ans::Unsat => {}
                    Ans::Sat => {
                        viol = m;
                        break;
                    }
                    Ans::Unknown => unk = true,
                }
            }
        }
        self.rep.ob_ms += t0.elapsed().as_millis() as u64;
        if let Some(m) = viol {
            self.violation(st, &format!("assert {}", id), &m);
            // continue with the good inputs
            return self.assume(st, t);
        }
        if unk {
            self.rep.inconclusive.push(format!("assert {}: no solver answer within {:?}", id, self.ob_timeout));
            return Ok(());
        }
        Rc::make_mut(&mut st.facts).insert(t);
        Ok(())
    }

    fn obligation(&mut self, st: &State, bad: T) -> (Ans, Option<Rc<Model>>) {
        let save = self.smt.timeout_ms;
        let (a, m) = self.smt.check(&st.pc, bad);
        self.smt.timeout_ms = save;
        if a != Ans::Unknown {
            if a == Ans::Sat {
                if let Some(m) = &m {
                    if m.holds(bad) && st.pc.iter().all(|p| m.holds(*p)) {
                        *self.rep.by_solver.entry("z3-incremental".into()).or_insert(0) += 1;
                        return (a, Some(m.clone()));
                    }
                    eprintln!("[engine] incremental model does not evaluate; using the portfolio");
                }
            } else {
                *self.rep.by_solver.entry("z3-incremental".into()).or_insert(0) += 1;
                return (a, m);
            }
        }
        let mut conj = st.pc.clone();
        conj.push(bad);
        let left = self.deadline.saturating_duration_since(Instant::now());
        let (a, m, who) = portfolio(&conj, self.ob_timeout.min(left), &self.scratch);
        *self.rep.by_solver.entry(who).or_insert(0) += 1;
        (a, m)
    }

    fn violation(&mut self, st: &State, what: &str, m: &Model) {
        let same = self.rep.violations.iter().filter(|v| v.0 == what).count();
        if same >= self.max_viol {
            return;
        }
        let s = Self::values(st, m);
        self.rep.violations.push((what.to_string(), s));
    }

    /// A less regular model of the same path (for replays of the real code).
    fn diversify(&mut self, st: &State, m: &Model) -> Model {
        let mut x = 0x9e3779b97f4a7c15u64 ^ self.rep.queries.wrapping_add(self.smt.stats.queries).wrapping_mul(0xd1342543de82ef95);
        for (_, v) in st.note.iter() {
            x = x.rotate_left(9).wrapping_mul(0xd1342543de82ef95) ^ v;
        }
        let mut rnd = move || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x
        };
        let fresh = |m: &Model| Model { vars: m.vars.clone(), arrays: m.arrays.clone(), dflt: m.dflt.clone(), cache: Default::default() };
        let mut m = fresh(m);
        let holds = |m: &Model| st.pc.iter().all(|p| m.holds(*p));
        for (i, _) in tm().arrays.iter().enumerate() {
            let mut n = fresh(&m);
            n.dflt.insert(i as u32, rnd() as u8);
            if holds(&n) {
                m = n;
            }
        }
        for (i, v) in tm().vars.iter().enumerate().take(64) {
            let mut n = fresh(&m);
            let k = rnd();
            let v = if v.1 >= 64 { k } else { k & ((1 << v.1) - 1) };
            n.vars.insert(i as u32, (v >> [0, 0, 48, 57][(rnd() & 3) as usize]) as u128);
            if holds(&n) {
                m = n;
            }
        }
        m
    }

    /// The values of a model, as a replay file.
    fn values(st: &State, m: &Model) -> String {
        let mut s = String::new();
        for (i, (_, v)) in st.note.iter().enumerate() {
            s.push_str(&format!("case{} {}\n", i, v));
        }
        // several variables of one name: only the one that this path declared
        let mut seen = Default::default();
        let on: HashSet<T> = crate::term::topo(&st.pc, &mut seen).into_iter().collect();
        let here: HashSet<&str> = tm().vars.iter().filter(|v| on.contains(&v.2)).map(|v| v.0.as_str()).collect();
        for (i, (n, _, t)) in tm().vars.iter().enumerate() {
            if here.contains(n.as_str()) && !on.contains(t) {
                continue;
            }
            s.push_str(&format!("{} {}\n", n, m.vars.get(&(i as u32)).copied().unwrap_or(0)));
        }
        for (i, a) in tm().arrays.iter().enumerate() {
            let mut all: BTreeMap<u64, u8> = m.arrays.get(&(i as u32)).cloned().unwrap_or_default().into_iter().collect();
            let d = m.dflt.get(&(i as u32)).copied().unwrap_or(0);
            s.push_str(&format!("{}.default {}\n", a.name, d));
            all.retain(|k, v| *v != d && !a.pins.contains_key(k));
            for (k, v) in all {
                s.push_str(&format!("{}[{}] {}\n", a.name, k, v));
            }
        }
        s
    }

    fn on_panic(&mut self, st: &mut State, msg: String) {
        if self.replay.is_some() {
            self.rep.violations.push((format!("panic {}", msg), String::new()));
            return;
        }
        if st.panic_ok {
            self.rep.panics_dropped += 1;
            return;
        }
        self.rep.obligations += 1;
        let t0 = Instant::now();
        let m = match &st.model {
            Some(m) if st.pc.iter().all(|p| m.holds(*p)) => Some(m.clone()),
            _ => {
                let (a, m) = self.obligation(st, TRUE);
                match a {
                    Ans::Unsat => None,
                    Ans::Sat => m,
                    Ans::Unknown => {
                        self.rep.inconclusive.push(format!("panic path: {}", msg));
                        None
                    }
                }
            }
        };
        self.rep.ob_ms += t0.elapsed().as_millis() as u64;
        if let Some(m) = m {
            if self.debug {
                eprintln!("[panic] {}", msg);
                for p in &st.pc {
                    eprintln!("    pc {}", crate::term::show(*p, 14));
                }
                for f in st.frames.iter().rev() {
                    eprintln!("    {} {}", demangle(&f.f.name), f.f.blocks[f.blk as usize].name);
                }
            }
            self.violation(st, &format!("panic {}", msg), &m);
        }
    }

    // ------------------------------------------------------------ processes
    fn fork_cases(&mut self, st: &mut State, c: &CallI, n: u64) -> X<V> {
        extern "C" {
            fn fork() -> i32;
            fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
            fn pipe(p: *mut i32) -> i32;
            fn read(fd: i32, b: *mut u8, n: usize) -> isize;
            fn write(fd: i32, b: *const u8, n: usize) -> isize;
            fn _exit(c: i32) -> !;
        }
        let _ = c;
        self.smt.kill();
        unsafe {
            if self.token.is_none() {
                let mut p = [0i32; 2];
                pipe(p.as_mut_ptr());
                for _ in 0..self.jobs {
                    write(p[1], b"x".as_ptr(), 1);
                }
                self.token = Some((p[0], p[1]));
            } else {
                // a nested split gives its own token back while it waits
                write(self.token.unwrap().1, b"x".as_ptr(), 1);
            }
            let (rd, wr) = self.token.unwrap();
            let mut kids: Vec<(i32, String)> = vec![];
            let only = self.only.get(st.note.len()).copied().filter(|k| *k < n);
            for k in 0..n {
                if only.map_or(false, |o| o != k) {
                    continue;
                }
                if Instant::now() > self.deadline {
                    self.rep.inconclusive.push("time limit reached: cases left out".into());
                    break;
                }
                let mut b = [0u8; 1];
                while read(rd, b.as_mut_ptr(), 1) != 1 {}
                let file = format!("{}/case_{}_{}_{}", self.scratch, std::process::id(), kids.len(), k);
                let pid = fork();
                if pid == 0 {
                    // child
                    self.is_child = true;
                    self.rep = Report::default();
                    self.smt.stats = Smt::new().stats;
                    let mut s2 = st.clone();
                    Rc::make_mut(&mut s2.note).push((n, k));
                    let fr = Rc::make_mut(s2.frames.last_mut().unwrap());
                    if let Some(d) = c.dst {
                        fr.regs[d as usize] = V::C(k);
                    }
                    fr.ip += 1;
                    if let Some(nb) = c.normal {
                        self.goto(&mut s2, nb);
                    }
                    let t0 = Instant::now();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        self.run_until(s2, NOSTOP);
                    }));
                    if r.is_err() {
                        self.rep.inconclusive.push("engine failure in a case".into());
                    }
                    self.rep.cases += 1;
                    self.finish();
                    if self.debug {
                        eprintln!("[case {}] {:.1}s", k, t0.elapsed().as_secs_f64());
                    }
                    let out = self.rep.to_text();
                    std::fs::write(&file, out).expect("write case result");
                    write(wr, b"x".as_ptr(), 1);
                    _exit(0);
                }
                kids.push((pid, file));
            }
            for (pid, file) in kids {
                let mut s = 0;
                while waitpid(pid, &mut s, 0) < 0 {}
                match std::fs::read_to_string(&file) {
                    Ok(t) if t.ends_with("end\n") => {
                        self.rep.absorb(&t);
                    }
                    _ => {
                        // the child died without giving its token back
                        self.rep.inconclusive.push("a case process ended without a result".into());
                        write(wr, b"x".as_ptr(), 1);
                    }
                }
                let _ = std::fs::remove_file(&file);
            }
            if self.is_child {
                // we gave a token back and our caller will write one more: take it again
                let mut b = [0u8; 1];
                while read(rd, b.as_mut_ptr(), 1) != 1 {}
            }
        }
        Err(Ex::Gone)
    }

    pub fn finish(&mut self) {
        self.smt.kill();
        for (i, b) in self.symfn.iter().enumerate() {
            if *b {
                self.rep.funcs.insert(demangle(&self.m.syms[i].0));
            }
        }
        self.rep.queries += self.smt.stats.queries;
        self.rep.unknown += self.smt.stats.unknown;
        self.rep.solver_ms += self.smt.stats.time.as_millis() as u64;
    }

    // ------------------------------------------------------------ exploration
    /// Runs until the stop point; returns the states that arrive there.
    pub fn run_until(&mut self, mut st: State, stop: Stop) -> Vec<State> {
        loop {
            self.rep.steps += 1;
            if self.rep.steps & 0xffff == 0 && (Instant::now() > self.deadline || self.rep.steps > self.max_steps) {
                self.rep.inconclusive.push("time or step limit reached".into());
                self.deadline = Instant::now() - Duration::from_secs(1);
                return vec![];
            }
            match self.step(&mut st) {
                Ok(Step::Go) => {}
                Ok(Step::Moved) => {
                    if st.frames.is_empty() {
                        self.rep.paths += 1;
                        return vec![];
                    }
                    if Self::at(&st, stop) {
                        return vec![st];
                    }
                }
                Ok(Step::Alts(alts)) => match self.branch(st, alts, stop) {
                    Ok(s) => st = s,
                    Err(v) => return v,
                },
                Err(Ex::Split(t, v)) => {
                    let c = eq(t, cst(width(t), v as u128));
                    match self.branch(st, vec![(c, Act::Conc(t, v)), (not(c), Act::Stay)], stop) {
                        Ok(s) => st = s,
                        Err(v) => return v,
                    }
                }
                Err(Ex::Dead) => {
                    return vec![];
                }
                Err(Ex::Gone) => return vec![],
                Err(Ex::Panic(m)) => {
                    self.on_panic(&mut st, m);
                    return vec![];
                }
                Err(Ex::Unsup(m)) => {
                    // only matters if the state is reachable
                    let (a, _) = self.obligation(&st, TRUE);
                    if a != Ans::Unsat {
                        let loc = st.frames.iter().rev().take(8).map(|f| format!("{}:{}", demangle(&f.f.name), f.f.blocks[f.blk as usize].name)).collect::<Vec<_>>().join(" < ");
                        self.rep.inconclusive.push(format!("unsupported: {} at {}", m, loc));
                    }
                    return vec![];
                }
            }
        }
    }
    #[inline]
    fn at(st: &State, stop: Stop) -> bool {
        if stop.blk == EXIT {
            st.frames.len() < stop.depth
        } else if stop.blk == NOEXIT {
            false
        } else {
            let n = st.frames.len();
            n < stop.depth || (n == stop.depth && {
                let f = st.frames.last().unwrap();
                f.blk == stop.blk && f.ip == 0
            })
        }
    }

    fn apply(&mut self, st: &mut State, a: Act) {
        match a {
            Act::Jump(b) => self.goto(st, b),
            Act::Conc(t, v) => {
                Rc::make_mut(&mut st.conc).insert(t, v);
            }
            Act::Stay => {}
        }
    }

    /// Ok(state): continue with it. Err(states): these arrived at the stop point.
    fn branch(&mut self, st: State, alts: Vec<(T, Act)>, stop: Stop) -> Result<State, Vec<State>> {
        self.branch_seen += 1;
        if Instant::now() > self.deadline {
            self.rep.inconclusive.push("time limit reached".into());
            return Err(vec![]);
        }
        let mut st = st;
        // which alternatives are possible?
        let mut live: Vec<(T, Act, Option<Rc<Model>>)> = vec![];
        let mut remaining: Vec<(T, Act)> = vec![];
        for (c, a) in alts {
            if c == FALSE {
                continue;
            }
            if c == TRUE || st.facts.contains(&c) || st.pc.contains(&c) {
                self.apply(&mut st, a);
                if Self::at(&st, stop) {
                    return Err(vec![st]);
                }
                return Ok(st);
            }
            let nc = not(c);
            if st.facts.contains(&nc) || st.pc.contains(&nc) {
                continue;
            }
            remaining.push((c, a));
        }
        let nrem = remaining.len();
        if st.model.is_some() && !remaining.is_empty() && !remaining.iter().any(|(c, _)| st.model.as_ref().unwrap().holds(*c)) {
            st.model = None;
        }
        let mut refuted = 0;
        for (k, (c, a)) in remaining.into_iter().enumerate() {
            if st.model.as_ref().map_or(false, |m| m.holds(c)) {
                live.push((c, a, st.model.clone()));
                continue;
            }
            // last alternative with everything else refuted: must hold (pc is satisfiable)
            if k + 1 == nrem && live.is_empty() && refuted == k && k > 0 && st.model.is_some() {
                live.push((c, a, st.model.clone()));
                continue;
            }
            let fr = st.frames.last().unwrap();
            let key = (fr.f.id, fr.blk);
            let t0 = Instant::now();
            let (ans, m) = self.smt.check(&st.pc, c);
            let e = self.prof.entry(key).or_insert((0, 0.0));
            e.0 += 1;
            e.1 += t0.elapsed().as_secs_f64();
            match ans {
                Ans::Unsat => {
                    refuted += 1;
                    Rc::make_mut(&mut st.facts).insert(not(c));
                }
                Ans::Sat => live.push((c, a, m)),
                Ans::Unknown => live.push((c, a, None)),
            }
        }
        if live.is_empty() {
            return Err(vec![]);
        }
        if live.len() == 1 {
            let (c, a, m) = live.pop().unwrap();
            Rc::make_mut(&mut st.facts).insert(c);
            if st.model.is_none() {
                st.model = m;
            }
            self.apply(&mut st, a);
            if Self::at(&st, stop) {
                return Err(vec![st]);
            }
            return Ok(st);
        }
        let merge = st.merge;
        let depth = st.frames.len();
        let sub = if merge {
            let fr = st.frames.last().unwrap();
            match fr.f.ipdom[fr.blk as usize] {
                NOEXIT => stop,
                b => Stop { depth, blk: b },
            }
        } else {
            NOSTOP
        };
        let base = st.pc.len();
        let base_facts = st.facts.clone();
        let mut groups: Vec<(T, Vec<State>)> = vec![];
        self.depth_now += 1;
        if self.depth_now > 20000 {
            self.rep.inconclusive.push("symbolic branch nesting limit".into());
            self.depth_now -= 1;
            return Err(vec![]);
        }
        let nlive = live.len();
        let mut st = Some(st);
        for (k, (c, a, m)) in live.into_iter().enumerate() {
            let mut ch = if k + 1 == nlive { st.take().unwrap() } else { st.as_ref().unwrap().clone() };
            ch.model = m;
            self.push_pc(&mut ch, c);
            self.apply(&mut ch, a);
            let arrived = if Self::at(&ch, sub) { vec![ch] } else { self.run_until(ch, sub) };
            groups.push((c, arrived));
        }
        self.depth_now -= 1;
        // merge
        let mut acc: Vec<State> = vec![];
        for (c, v) in groups {
            for s in v {
                if !merge {
                    acc.push(s);
                    continue;
                }
                let mut done = false;
                for q in acc.iter_mut() {
                    match self.merge(c, &s, q, base, &base_facts) {
                        Ok(m) => {
                            *q = m;
                            done = true;
                            self.rep.merges += 1;
                            break;
                        }
                        Err(e) => {
                            self.rep.unmerged += 1;
                            if self.debug {
                                eprintln!("[merge] {}", e);
                            }
                        }
                    }
                }
                if !done {
                    acc.push(s);
                }
            }
        }
        if !merge || sub == stop {
            // children ran to the outer stop already
            return Err(acc);
        }
        let mut out = vec![];
        if acc.len() == 1 {
            let s = acc.pop().unwrap();
            if Self::at(&s, stop) {
                return Err(vec![s]);
            }
            if s.frames.is_empty() {
                return Err(vec![]);
            }
            return Ok(s);
        }
        for s in acc {
            if Self::at(&s, stop) {
                out.push(s);
            } else {
                out.extend(self.run_until(s, stop));
            }
        }
        Err(out)
    }

    /// merged state equal to `a` when c, to `b` otherwise
    fn merge(&mut self, c: T, a: &State, b: &State, base: usize, base_facts: &Rc<HashSet<T, Fx>>) -> Result<State, String> {
        if a.frames.len() != b.frames.len() {
            return Err("frame depth".into());
        }
        if a.merge != b.merge || a.panic_ok != b.panic_ok || a.nvar != b.nvar || a.note.len() != b.note.len() {
            return Err("mode".into());
        }
        let n = a.frames.len();
        let mut frames = b.frames.clone();
        for k in 0..n {
            let (x, y) = (&a.frames[k], &b.frames[k]);
            if Rc::ptr_eq(x, y) {
                continue;
            }
            if !std::ptr::eq(x.f, y.f) || x.blk != y.blk || x.ip != y.ip || x.nalloca != y.nalloca || x.dst != y.dst {
                return Err("frame shape".into());
            }
            let ty = x.f.reg_types();
            let live = x.f.liveness();
            let top = k + 1 == n && x.ip == 0;
            let lv = &live[x.blk as usize];
            let fr = Rc::make_mut(&mut frames[k]);
            for r in 0..fr.regs.len() {
                if top && lv[r / 64] >> (r % 64) & 1 == 0 {
                    fr.regs[r] = V::U;
                    continue;
                }
                let v = Self::sel(c, &ty[r], &x.regs[r], &y.regs[r]);
                fr.regs[r] = v;
            }
        }
        let stack = Space::merge(c, &a.stack, &b.stack, false)?;
        let heap = Space::merge(c, &a.heap, &b.heap, true)?;
        let mut globals = b.globals.clone();
        if !Rc::ptr_eq(&a.globals, &b.globals) {
            let keys: BTreeSet<u32> = a.globals.keys().chain(b.globals.keys()).copied().collect();
            for k in keys {
                let x = match a.globals.get(&k) {
                    Some(x) => x.clone(),
                    None => self.global(k).map_err(|_| "global".to_string())?,
                };
                let y = match b.globals.get(&k) {
                    Some(x) => x.clone(),
                    None => self.global(k).map_err(|_| "global".to_string())?,
                };
                if !Rc::ptr_eq(&x, &y) {
                    let m = merge_obj(c, &x, &y).ok_or("global object")?;
                    Rc::make_mut(&mut globals).insert(k, m);
                } else {
                    Rc::make_mut(&mut globals).insert(k, x);
                }
            }
        }
        let conj = |s: &State| {
            let mut t = TRUE;
            for p in &s.pc[base.min(s.pc.len())..] {
                t = and(t, *p);
            }
            t
        };
        let pcs = or(conj(a), conj(b));
        let mut pc: Vec<T> = a.pc[..base].to_vec();
        if pcs != TRUE {
            let n = node(pcs);
            if n.op == Op::And && n.w == 1 {
                let mut v = vec![];
                conjuncts(pcs, &mut v);
                pc.extend(v);
            } else {
                pc.push(pcs);
            }
        }
        let conc = if Rc::ptr_eq(&a.conc, &b.conc) {
            a.conc.clone()
        } else {
            let mut m: HashMap<T, u64, Fx> = HashMap::default();
            for (k, v) in a.conc.iter() {
                if b.conc.get(k) == Some(v) {
                    m.insert(*k, *v);
                }
            }
            Rc::new(m)
        };
        let facts = if Rc::ptr_eq(&a.facts, &b.facts) { a.facts.clone() } else { base_facts.clone() };
        Ok(State {
            frames,
            stack,
            heap,
            globals,
            pc,
            facts,
            conc,
            model: a.model.clone().or_else(|| b.model.clone()),
            merge: a.merge,
            panic_ok: a.panic_ok,
            nvar: a.nvar,
            note: a.note.clone(),
        })
    }
}

fn collect_leaves(t: T, out: &mut Vec<u64>) {
    let n = node(t);
    if n.op == Op::Const {
        let v = n.k1 as u64;
        if !out.contains(&v) {
            out.push(v)
        }
    } else {
        collect_leaves(n.b, out);
        collect_leaves(n.c, out);
    }
}

pub fn conjuncts(t: T, out: &mut Vec<T>) {
    let n = node(t);
    if n.op == Op::And && n.w == 1 {
        conjuncts(n.a, out);
        conjuncts(n.b, out);
        return;
    }
    if n.op == Op::Not {
        let m = node(n.a);
        if m.op == Op::Or && m.w == 1 {
            conjuncts(not(m.a), out);
            conjuncts(not(m.b), out);
            return;
        }
    }
    if !out.contains(&t) {
        out.push(t);
    }
}

fn ins(a: &V, v: &V, ix: &[u32]) -> V {
    if ix.is_empty() {
        return v.clone();
    }
    let V::Agg(x) = a else { return V::U };
    let mut y = (**x).clone();
    y[ix[0] as usize] = ins(&x[ix[0] as usize], v, &ix[1..]);
    V::Agg(Rc::new(y))
}

const I_UNKNOWN: u32 = 0;
const I_NOP: u32 = 1;
const I_FORMAT: u32 = 2;
const I_MALLOC: u32 = 3;
const I_CALLOC: u32 = 4;
const I_MEMALIGN: u32 = 5;
const I_ALIGNED_ALLOC: u32 = 6;
const I_REALLOC: u32 = 7;
const I_FREE: u32 = 8;
const I_MEMCPY: u32 = 9;
const I_MEMSET: u32 = 10;
const I_BCMP: u32 = 11;
const I_MEMCMP: u32 = 12;
const I_STRLEN: u32 = 13;
const I_ZERO: u32 = 14;
const I_MINUS1: u32 = 15;
const I_WRITE: u32 = 16;
const I_WRITEV: u32 = 17;
const I_SYSCALL: u32 = 18;
const I_ERRNO: u32 = 19;
const I_CLOCK: u32 = 20;
const I_KEYCREATE: u32 = 21;
const I_FIRST: u32 = 22;
const I_ASSUME_LLVM: u32 = 23;
const I_OVF: u32 = 24;
const I_SAT: u32 = 25;
const I_MINMAX: u32 = 26;
const I_CMP3: u32 = 27;
const I_ABS: u32 = 28;
const I_CTPOP: u32 = 29;
const I_CTLZ: u32 = 30;
const I_CTTZ: u32 = 31;
const I_BSWAP: u32 = 32;
const I_BITREV: u32 = 33;
const I_FSHL: u32 = 34;
const I_FSHR: u32 = 35;
const I_TRAP: u32 = 36;
const I_GETRANDOM: u32 = 37;
const I_VP_U64: u32 = 50;
const I_VP_U8: u32 = 51;
const I_VP_ARRAY: u32 = 52;
const I_VP_ASSUME: u32 = 53;
const I_VP_ASSERT: u32 = 54;
const I_VP_REACH: u32 = 55;
const I_VP_MERGE: u32 = 56;
const I_VP_PANIC_OK: u32 = 57;
const I_VP_FORMAT: u32 = 58;
const I_VP_CASE: u32 = 59;
const I_VP_NOTE: u32 = 60;
const I_VP_CONC: u32 = 61;
const I_VP_IS_SYM: u32 = 62;
const I_VP_RANGE: u32 = 63;

fn intr(n: &str) -> u32 {
    match n {
        "malloc" => I_MALLOC,
        "calloc" => I_CALLOC,
        "posix_memalign" => I_MEMALIGN,
        "aligned_alloc" => I_ALIGNED_ALLOC,
        "realloc" => I_REALLOC,
        "free" => I_FREE,
        "memcpy" | "memmove" => I_MEMCPY,
        "memset" => I_MEMSET,
        "bcmp" => I_BCMP,
        "memcmp" => I_MEMCMP,
        "strlen" => I_STRLEN,
        "getenv" | "pthread_setspecific" | "pthread_getspecific" | "pthread_key_delete" | "sched_yield" | "__cxa_thread_atexit_impl" | "pthread_self" | "gettid" | "getpid" | "isatty" | "fcntl" => I_ZERO,
        "write" => I_WRITE,
        "writev" => I_WRITEV,
        "syscall" => I_SYSCALL,
        "getrandom" => I_GETRANDOM,
        "__errno_location" => I_ERRNO,
        "clock_gettime" => I_CLOCK,
        "pthread_key_create" => I_KEYCREATE,
        "vp_u64" => I_VP_U64,
        "vp_u8" => I_VP_U8,
        "vp_array" => I_VP_ARRAY,
        "vp_assume" => I_VP_ASSUME,
        "vp_assert" => I_VP_ASSERT,
        "vp_reach" => I_VP_REACH,
        "vp_merge" => I_VP_MERGE,
        "vp_panic_ok" => I_VP_PANIC_OK,
        "vp_stub_format" => I_VP_FORMAT,
        "vp_case" => I_VP_CASE,
        "vp_note" => I_VP_NOTE,
        "vp_conc" => I_VP_CONC,
        "vp_range" => I_VP_RANGE,
        "vp_is_sym" => I_VP_IS_SYM,
        _ => {
            let Some(r) = n.strip_prefix("llvm.") else { return I_UNKNOWN };
            let sw = |p: &str| r.starts_with(p);
            if sw("assume") || sw("lifetime") || sw("experimental.noalias") || sw("dbg") || sw("x86.sse2.pause") || sw("prefetch") || sw("invariant") || sw("va_") {
                I_ASSUME_LLVM
            } else if sw("is.constant") {
                I_ZERO
            } else if sw("memcpy") || sw("memmove") {
                I_MEMCPY
            } else if sw("memset") {
                I_MEMSET
            } else if r.contains(".with.overflow") {
                I_OVF
            } else if r.contains(".sat.") {
                I_SAT
            } else if sw("umax") || sw("umin") || sw("smax") || sw("smin") {
                I_MINMAX
            } else if sw("scmp") || sw("ucmp") {
                I_CMP3
            } else if sw("abs") {
                I_ABS
            } else if sw("ctpop") {
                I_CTPOP
            } else if sw("ctlz") {
                I_CTLZ
            } else if sw("cttz") {
                I_CTTZ
            } else if sw("bswap") {
                I_BSWAP
            } else if sw("bitreverse") {
                I_BITREV
            } else if sw("fshl") {
                I_FSHL
            } else if sw("fshr") {
                I_FSHR
            } else if sw("trap") {
                I_TRAP
            } else if sw("threadlocal.address") || sw("expect") || sw("ptrmask") {
                I_FIRST
            } else {
                I_UNKNOWN
            }
        }
    }
}

/// readable version of a mangled Rust symbol (best effort)
pub fn demangle(s: &str) -> String {
    if let Some(r) = s.strip_prefix("_ZN") {
        let b = r.as_bytes();
        let mut i = 0;
        let mut parts = vec![];
        while i < b.len() && b[i].is_ascii_digit() {
            let mut n = 0usize;
            while i < b.len() && b[i].is_ascii_digit() {
                n = n * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i + n > b.len() {
                break;
            }
            parts.push(r[i..i + n].to_string());
            i += n;
        }
        if parts.last().map_or(false, |p| p.len() == 17 && p.starts_with('h')) {
            parts.pop();
        }
        return parts.join("::").replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("$RF$", "&").replace("$C$", ",").replace("..", "::");
    }
    if let Some(r) = s.strip_prefix("_R") {
        // v0: collect the length-prefixed identifiers
        let b = r.as_bytes();
        let mut i = 0;
        let mut parts: Vec<String> = vec![];
        while i < b.len() {
            if b[i] == b's' || b[i] == b'S' {
                // disambiguator s..._
                if let Some(p) = r[i + 1..].find('_') {
                    if b[i] == b's' && r[i + 1..i + 1 + p].bytes().all(|c| c.is_ascii_alphanumeric()) {
                        i += p + 2;
                        continue;
                    }
                }
            }
            if b[i].is_ascii_digit() && b[i] != b'0' {
                let mut n = 0usize;
                while i < b.len() && b[i].is_ascii_digit() {
                    n = n * 10 + (b[i] - b'0') as usize;
                    i += 1;
                }
                if i < b.len() && b[i] == b'_' {
                    i += 1;
                }
                if i + n > b.len() {
                    break;
                }
                parts.push(r[i..i + n].to_string());
                i += n;
            } else {
                i += 1;
            }
        }
        return parts.join("::");
    }
    s.to_string()
}

impl Report {
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let esc = |x: &str| x.replace('\\', "\\\\").replace('\n', "\\n");
        for (w, r) in &self.violations {
            s.push_str(&format!("viol {}\t{}\n", esc(w), esc(r)));
        }
        for (k, v) in &self.witness {
            s.push_str(&format!("wit {}\t{}\n", k, esc(v)));
        }
        for (k, v) in &self.reach {
            s.push_str(&format!("reach {} {}\n", k, v));
        }
        for (k, v) in &self.asserts {
            s.push_str(&format!("assert {} {}\n", k, v));
        }
        for x in &self.inconclusive {
            s.push_str(&format!("inc {}\n", esc(x)));
        }
        for x in &self.funcs {
            s.push_str(&format!("func {}\n", esc(x)));
        }
        for (k, v) in &self.by_solver {
            s.push_str(&format!("by {} {}\n", k.replace(' ', "_"), v));
        }
        for x in &self.trace {
            s.push_str(&format!("trace {}\n", esc(x)));
        }
        for (k, v) in [
            ("paths", self.paths),
            ("panics_dropped", self.panics_dropped),
            ("queries", self.queries),
            ("unknown", self.unknown),
            ("solver_ms", self.solver_ms),
            ("obligations", self.obligations),
            ("ob_ms", self.ob_ms),
            ("steps", self.steps),
            ("merges", self.merges),
            ("unmerged", self.unmerged),
            ("cases", self.cases),
        ] {
            s.push_str(&format!("num {} {}\n", k, v));
        }
        s.push_str("end\n");
        s
    }
    pub fn absorb(&mut self, t: &str) {
        let unesc = |x: &str| {
            let mut o = String::new();
            let mut it = x.chars();
            while let Some(c) = it.next() {
                if c == '\\' {
                    match it.next() {
                        Some('n') => o.push('\n'),
                        Some(c) => o.push(c),
                        None => {}
                    }
                } else {
                    o.push(c)
                }
            }
            o
        };
        for l in t.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            let kv = || {
                let (a, b) = r.rsplit_once(' ').unwrap();
                (a.to_string(), b.parse::<u64>().unwrap())
            };
            match k {
                "viol" => {
                    let (a, b) = r.split_once('\t').unwrap();
                    let a = unesc(a);
                    if self.violations.iter().filter(|v| v.0 == a).count() < 3 {
                        self.violations.push((a, unesc(b)));
                    }
                }
                "wit" => {
                    let (a, b) = r.split_once('\t').unwrap();
                    let a = a.parse().unwrap();
                    if self.witness.iter().filter(|v| v.0 == a).count() < 400 {
                        self.witness.push((a, unesc(b)));
                    }
                }
                "reach" => {
                    let (a, b) = kv();
                    *self.reach.entry(a.parse().unwrap()).or_insert(0) += b;
                }
                "assert" => {
                    let (a, b) = kv();
                    *self.asserts.entry(a.parse().unwrap()).or_insert(0) += b;
                }
                "inc" => self.inconclusive.push(unesc(r)),
                "func" => {
                    self.funcs.insert(unesc(r));
                }
                "by" => {
                    let (a, b) = kv();
                    *self.by_solver.entry(a).or_insert(0) += b;
                }
                "trace" => self.trace.push(unesc(r)),
                "num" => {
                    let (a, b) = kv();
                    match a.as_str() {
                        "paths" => self.paths += b,
                        "panics_dropped" => self.panics_dropped += b,
                        "queries" => self.queries += b,
                        "unknown" => self.unknown += b,
                        "solver_ms" => self.solver_ms += b,
                        "obligations" => self.obligations += b,
                        "ob_ms" => self.ob_ms += b,
                        "steps" => self.steps += b,
                        "merges" => self.merges += b,
                        "unmerged" => self.unmerged += b,
                        "cases" => self.cases += b,
                        _ => {}
                    }
                }
                _ => {}
            }
        }
    }
}
