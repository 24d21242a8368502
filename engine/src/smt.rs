//! SMT-LIB emission and solver processes.
use crate::term::*;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Ans {
    Sat,
    Unsat,
    Unknown,
}

fn bv(v: u128, w: u32) -> String {
    if w % 4 == 0 {
        format!("#x{:0width$x}", v, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", v, width = w as usize)
    }
}

fn name(t: T) -> String {
    let n = node(t);
    match n.op {
        Op::Const => {
            if n.w == 1 {
                if n.k1 == 1 { "true".into() } else { "false".into() }
            } else {
                bv(n.k1, n.w as u32)
            }
        }
        Op::Var => format!("v{}", n.a),
        _ => format!("t{}", t),
    }
}
/// as a bit-vector even when of width 1
fn bname(t: T) -> String {
    let n = node(t);
    if n.w == 1 {
        if n.op == Op::Const {
            return bv(n.k1, 1);
        }
        format!("(ite {} #b1 #b0)", name(t))
    } else {
        name(t)
    }
}
fn sort(w: u32) -> String {
    if w == 1 {
        "Bool".into()
    } else {
        format!("(_ BitVec {})", w)
    }
}

fn expr(t: T) -> String {
    let n = node(t);
    let b1 = n.w == 1;
    let bin = |o: &str| format!("({} {} {})", o, name(n.a), name(n.b));
    match n.op {
        Op::Const | Op::Var => name(t),
        Op::Not => format!("({} {})", if b1 { "not" } else { "bvnot" }, name(n.a)),
        Op::And => bin(if b1 { "and" } else { "bvand" }),
        Op::Or => bin(if b1 { "or" } else { "bvor" }),
        Op::Xor => bin(if b1 { "xor" } else { "bvxor" }),
        Op::Add => bin("bvadd"),
        Op::Mul => {
            if node(n.b).op == Op::Const && node(n.b).k1 == ones(n.w as u32) {
                format!("(bvneg {})", name(n.a))
            } else {
                bin("bvmul")
            }
        }
        Op::Udiv => bin("bvudiv"),
        Op::Urem => bin("bvurem"),
        Op::Sdiv => bin("bvsdiv"),
        Op::Srem => bin("bvsrem"),
        Op::Shl => bin("bvshl"),
        Op::Lshr => bin("bvlshr"),
        Op::Ashr => bin("bvashr"),
        Op::Concat => format!("(concat {} {})", bname(n.a), bname(n.b)),
        Op::Extract => {
            let hi = n.b + n.w as u32 - 1;
            let e = format!("((_ extract {} {}) {})", hi, n.b, bname(n.a));
            if b1 {
                format!("(= {} #b1)", e)
            } else {
                e
            }
        }
        Op::Sext => format!("((_ sign_extend {}) {})", n.w as u32 - width(n.a), bname(n.a)),
        Op::Ite => format!("(ite {} {} {})", name(n.a), name(n.b), name(n.c)),
        Op::Eq => bin("="),
        Op::Ult => {
            if width(n.a) == 1 {
                format!("(bvult {} {})", bname(n.a), bname(n.b))
            } else {
                bin("bvult")
            }
        }
        Op::Slt => bin("bvslt"),
        Op::Select => format!("(select A{} {})", n.a, bname(n.b)),
    }
}

/// incremental emission state
#[derive(Default)]
pub struct Emit {
    defined: HashSet<T, Fx>,
    nvars: HashSet<u32>,
    narr: HashSet<u32>,
    pub selects: Vec<T>,
    pub vars: Vec<u32>,
}
impl Emit {
    pub fn define(&mut self, roots: &[T], out: &mut String) {
        let order = topo(roots, &mut self.defined);
        for t in order {
            let n = node(t);
            match n.op {
                Op::Const => {}
                Op::Var => {
                    if self.nvars.insert(n.a) {
                        self.vars.push(n.a);
                        let _ = writeln!(out, "(declare-const v{} {})", n.a, sort(n.w as u32));
                    }
                }
                _ => {
                    if n.op == Op::Select {
                        if self.narr.insert(n.a) {
                            let a = &tm().arrays[n.a as usize];
                            let _ = writeln!(out, "(declare-const A{} (Array (_ BitVec {}) (_ BitVec 8)))", n.a, a.iw);
                            let mut p: Vec<_> = a.pins.iter().collect();
                            p.sort();
                            for (i, v) in p {
                                let _ = writeln!(out, "(assert (= (select A{} {}) {}))", n.a, bv(*i as u128, a.iw), bv(*v as u128, 8));
                            }
                        }
                        self.selects.push(t);
                    }
                    let _ = writeln!(out, "(define-fun t{} () {} {})", t, sort(n.w as u32), expr(t));
                }
            }
        }
    }
}

pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: Duration,
    pub obligations: u64,
    pub ob_time: Duration,
}

pub struct Smt {
    proc: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    em: Emit,
    stack: Vec<T>,
    pub stats: Stats,
    pub timeout_ms: u64,
    pub deadline: Option<Instant>,
    pub verbose: bool,
    pins_at_start: usize,
}

fn parse_vals(s: &str) -> Vec<u128> {
    // "((expr val) (expr val) ...)": we only ask for atoms, so split on whitespace/parens
    let mut out = vec![];
    let toks: Vec<&str> = s.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|x| !x.is_empty()).collect();
    let mut i = 1;
    while i < toks.len() {
        let v = toks[i];
        let x = if let Some(h) = v.strip_prefix("#x") {
            u128::from_str_radix(h, 16).unwrap()
        } else if let Some(b) = v.strip_prefix("#b") {
            u128::from_str_radix(b, 2).unwrap()
        } else if v == "true" {
            1
        } else if v == "false" {
            0
        } else {
            panic!("solver value {:?}", v)
        };
        out.push(x);
        i += 2;
    }
    out
}

fn build_model(vars: &[u32], sel: &[(u32, u128, u128)], vals: &[u128]) -> Model {
    let mut m = Model::default();
    for (v, x) in vars.iter().zip(vals) {
        m.vars.insert(*v, *x);
    }
    for (a, i, v) in sel {
        m.arrays.entry(*a).or_default().insert(*i as u64, *v as u8);
    }
    m
}

impl Smt {
    pub fn new() -> Smt {
        Smt {
            proc: None,
            em: Emit::default(),
            stack: vec![],
            stats: Stats { queries: 0, sat: 0, unsat: 0, unknown: 0, time: Duration::ZERO, obligations: 0, ob_time: Duration::ZERO },
            timeout_ms: 4000,
            deadline: None,
            verbose: false,
            pins_at_start: 0,
        }
    }
    fn pins() -> usize {
        tm().arrays.iter().map(|a| a.pins.len()).sum()
    }
    pub fn kill(&mut self) {
        if let Some((mut c, ..)) = self.proc.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
        self.em = Emit::default();
        self.stack.clear();
    }
    fn start(&mut self) {
        if self.proc.is_some() {
            if self.pins_at_start == Self::pins() {
                return;
            }
            self.kill();
        }
        self.pins_at_start = Self::pins();
        let mut c = Command::new("z3-new")
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("start z3-new");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        self.proc = Some((c, i, o));
        self.em = Emit::default();
        self.stack.clear();
        let s = format!("(set-option :global-declarations true)\n(set-option :timeout {})\n(set-logic QF_ABV)\n", self.timeout_ms);
        self.send(&s);
    }
    fn send(&mut self, s: &str) {
        let p = self.proc.as_mut().unwrap();
        p.1.write_all(s.as_bytes()).expect("solver write");
    }
    fn line(&mut self) -> String {
        let p = self.proc.as_mut().unwrap();
        p.1.flush().unwrap();
        let mut s = String::new();
        p.2.read_line(&mut s).unwrap_or(0);
        s
    }
    /// read a balanced s-expression
    fn sexp(&mut self) -> String {
        let mut s = String::new();
        let mut d = 0i64;
        loop {
            let l = self.line();
            if l.is_empty() {
                return s;
            }
            d += l.bytes().filter(|c| *c == b'(').count() as i64 - l.bytes().filter(|c| *c == b')').count() as i64;
            s.push_str(&l);
            if d <= 0 {
                return s;
            }
        }
    }

    /// satisfiability of pc ∧ extra
    pub fn check(&mut self, pc: &[T], extra: T) -> (Ans, Option<Rc<Model>>) {
        let t0 = Instant::now();
        self.stats.queries += 1;
        let r = self.check0(pc, extra);
        self.stats.time += t0.elapsed();
        match r.0 {
            Ans::Sat => self.stats.sat += 1,
            Ans::Unsat => self.stats.unsat += 1,
            Ans::Unknown => self.stats.unknown += 1,
        }
        if self.verbose || t0.elapsed().as_secs_f64() > 2.0 {
            eprintln!("[smt] query {} {:?} {:.2}s pc={} terms={}", self.stats.queries, r.0, t0.elapsed().as_secs_f64(), pc.len(), tm().nodes.len());
            if std::env::var("SYMIR_SHOW").is_ok() {
                eprintln!("   extra {}", crate::term::show(extra, 7));
                for p in pc {
                    eprintln!("   pc {}", crate::term::show(*p, 5));
                }
            }
        }
        r
    }
    fn check0(&mut self, pc: &[T], extra: T) -> (Ans, Option<Rc<Model>>) {
        if extra == FALSE {
            return (Ans::Unsat, None);
        }
        if self.deadline.map_or(false, |d| Instant::now() > d) {
            return (Ans::Unknown, None);
        }
        self.start();
        let mut out = String::new();
        let common = self.stack.iter().zip(pc).take_while(|(a, b)| a == b).count();
        let pops = self.stack.len() - common;
        if pops > 0 {
            let _ = writeln!(out, "(pop {})", pops);
            self.stack.truncate(common);
        }
        let mut roots: Vec<T> = pc[common..].to_vec();
        roots.push(extra);
        self.em.define(&roots, &mut out);
        for t in &pc[common..] {
            let _ = writeln!(out, "(push 1)\n(assert {})", name(*t));
            self.stack.push(*t);
        }
        let _ = writeln!(out, "(push 1)\n(assert {})\n(check-sat)", name(extra));
        self.send(&out);
        let a = self.line();
        let r = match a.trim() {
            "sat" => {
                let m = self.model();
                (Ans::Sat, m)
            }
            "unsat" => (Ans::Unsat, None),
            x => {
                if x != "unknown" && x != "timeout" {
                    eprintln!("[smt] solver said {:?}", x);
                    self.kill();
                    return (Ans::Unknown, None);
                }
                (Ans::Unknown, None)
            }
        };
        if self.proc.is_some() {
            self.send("(pop 1)\n");
        }
        r
    }
    fn model(&mut self) -> Option<Rc<Model>> {
        let vars = self.em.vars.clone();
        let sels = self.em.selects.clone();
        let mut q = String::new();
        let mut all: Vec<String> = vars.iter().map(|v| format!("v{}", v)).collect();
        let mut idx_const: Vec<Option<u128>> = vec![];
        for s in &sels {
            let n = node(*s);
            idx_const.push(is_const(n.b));
            if is_const(n.b).is_none() {
                all.push(name(n.b));
            }
            all.push(name(*s));
        }
        if all.is_empty() {
            return Some(Rc::new(Model::default()));
        }
        q.push_str("(get-value (");
        q.push_str(&all.join(" "));
        q.push_str("))\n");
        self.send(&q);
        let r = self.sexp();
        if r.contains("error") {
            eprintln!("[smt] get-value: {}", &r[..r.len().min(300)]);
            return None;
        }
        let vals = parse_vals(&r);
        if vals.len() != all.len() {
            eprintln!("[smt] get-value: {} of {}", vals.len(), all.len());
            return None;
        }
        let mut k = vars.len();
        let mut sel = vec![];
        for (s, ic) in sels.iter().zip(&idx_const) {
            let i = match ic {
                Some(i) => *i,
                None => {
                    k += 1;
                    vals[k - 1]
                }
            };
            sel.push((node(*s).a, i, vals[k]));
            k += 1;
        }
        Some(Rc::new(build_model(&vars, &sel, &vals[..vars.len()])))
    }
}

/// One-shot portfolio check of a conjunction. Returns answer, model and solver name.
pub fn portfolio(conj: &[T], timeout: Duration, scratch: &str) -> (Ans, Option<Rc<Model>>, String) {
    if conj.iter().any(|t| *t == FALSE) {
        return (Ans::Unsat, None, "simplifier".into());
    }
    let mut em = Emit::default();
    let mut body = String::from("(set-option :produce-models true)\n(set-logic QF_ABV)\n");
    em.define(conj, &mut body);
    for t in conj {
        let _ = writeln!(body, "(assert {})", name(*t));
    }
    let mut all: Vec<String> = em.vars.iter().map(|v| format!("v{}", v)).collect();
    for s in &em.selects {
        let n = node(*s);
        if is_const(n.b).is_none() {
            all.push(name(n.b));
        }
        all.push(name(*s));
    }
    let gv = if all.is_empty() { String::new() } else { format!("(get-value ({}))\n", all.join(" ")) };
    static mut CNT: u32 = 0;
    let c = unsafe {
        CNT += 1;
        CNT
    };
    let pid = std::process::id();
    let base = format!("{}/q{}_{}", scratch, pid, c);
    let f1 = format!("{}.smt2", base);
    std::fs::write(&f1, format!("{}(check-sat)\n{}", body, gv)).expect("write query");
    let f2 = format!("{}_t.smt2", base);
    std::fs::write(
        &f2,
        format!("{}(check-sat-using (then simplify propagate-values solve-eqs elim-uncnstr simplify bvarray2uf bit-blast sat))\n{}", body, gv),
    )
    .expect("write query");
    let secs = timeout.as_secs().max(1).to_string();
    let cmds: Vec<(&str, Vec<String>)> = vec![
        ("z3", vec!["z3-new".into(), format!("-T:{}", secs), f1.clone()]),
        ("cvc5", vec!["cvc5".into(), format!("--tlimit={}", timeout.as_millis()), f1.clone()]),
        ("z3-4.8", vec!["z3".into(), format!("-T:{}", secs), f1.clone()]),
    ];
    let mut kids: Vec<(&str, Child, String)> = vec![];
    for (i, (n, a)) in cmds.iter().enumerate() {
        let of = format!("{}.out{}", base, i);
        let out = std::fs::File::create(&of).unwrap();
        if let Ok(ch) = Command::new(&a[0]).args(&a[1..]).stdin(Stdio::null()).stdout(out).stderr(Stdio::null()).spawn() {
            kids.push((n, ch, of));
        }
    }
    let t0 = Instant::now();
    let mut res = (Ans::Unknown, None, String::from("none"));
    let mut live: Vec<bool> = vec![true; kids.len()];
    'w: while live.iter().any(|x| *x) && t0.elapsed() < timeout + Duration::from_secs(5) {
        for k in 0..kids.len() {
            if !live[k] {
                continue;
            }
            if let Ok(Some(_)) = kids[k].1.try_wait() {
                live[k] = false;
                let s = std::fs::read_to_string(&kids[k].2).unwrap_or_default();
                let first = s.lines().next().unwrap_or("").trim();
                if first == "unsat" {
                    res = (Ans::Unsat, None, kids[k].0.to_string());
                    break 'w;
                }
                if first == "sat" {
                    let rest = &s[s.find('\n').unwrap_or(0)..];
                    let m = if all.is_empty() {
                        Model::default()
                    } else {
                        if rest.contains("(error") {
                            continue;
                        }
                        let vals = parse_vals(rest);
                        if vals.len() != all.len() {
                            continue;
                        }
                        let nv = em.vars.len();
                        let mut kk = nv;
                        let mut sel = vec![];
                        for s in &em.selects {
                            let n = node(*s);
                            let i = match is_const(n.b) {
                                Some(i) => i,
                                None => {
                                    kk += 1;
                                    vals[kk - 1]
                                }
                            };
                            sel.push((n.a, i, vals[kk]));
                            kk += 1;
                        }
                        build_model(&em.vars, &sel, &vals[..nv])
                    };
                    // the model must satisfy the query in our own evaluator
                    if conj.iter().all(|t| m.holds(*t)) {
                        res = (Ans::Sat, Some(Rc::new(m)), kids[k].0.to_string());
                    } else {
                        eprintln!("[smt] {}: model does not satisfy the query (encoding error)", kids[k].0);
                        res = (Ans::Unknown, None, "model-mismatch".into());
                    }
                    break 'w;
                }
            }
        }
        std::thread::sleep(Duration::from_millis(3));
    }
    for (_, ch, of) in kids.iter_mut() {
        let _ = ch.kill();
        let _ = ch.wait();
        let _ = std::fs::remove_file(of);
    }
    if std::env::var("SYMIR_KEEP").is_err() {
        let _ = std::fs::remove_file(&f1);
    }
    let _ = std::fs::remove_file(&f2);
    res
}
