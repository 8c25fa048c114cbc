//! SMT-LIB back end: one incremental z3 process plus a one-shot portfolio for hard queries.
use crate::big::Big;
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Val {
    B(Big),
}
pub type Model = HashMap<T, Big>;
#[derive(Debug, Clone)]
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown(String),
}

pub struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub hard: u64,
    pub max: f64,
}

pub struct Solver {
    proc_: Option<Proc>,
    emitted: HashSet<T>,
    ufs_emitted: HashSet<u32>,
    encs: HashSet<String>,
    stack: Vec<T>,
    pub stats: Stats,
    pub fast_ms: u64,
    pub quick_ms: u64,
    pub hard_ms: u64,
    pub deadline: Instant,
    ax_cache: HashMap<T, Vec<T>>, // FInv nodes in the cone
    pub dump: Option<String>,
    pub log: Option<std::fs::File>,
}

pub fn prelude(tm: &Ctx) -> String {
    let mut s = String::new();
    for (i, m) in tm.mods.iter().enumerate() {
        s += &format!("(define-sort F{} () (_ FiniteField {}))\n", i, m.dec());
    }
    s
}

impl Solver {
    pub fn new(deadline: Instant) -> Solver {
        Solver {
            proc_: None,
            emitted: HashSet::new(),
            ufs_emitted: HashSet::new(),
            encs: HashSet::new(),
            stack: vec![],
            stats: Stats::default(),
            fast_ms: 2500,
            quick_ms: 400,
            hard_ms: 60000,
            deadline,
            ax_cache: HashMap::new(),
            dump: None,
            log: None,
        }
    }
    fn start(&mut self, tm: &Ctx) {
        let mut child = Command::new("z3-new")
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("z3-new");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        self.proc_ = Some(Proc { child, inp, out });
        self.emitted.clear();
        self.ufs_emitted.clear();
        self.encs.clear();
        self.stack.clear();
        self.send(&format!("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout {})\n{}", self.fast_ms, prelude(tm)));
    }
    fn send(&mut self, s: &str) {
        if let Some(l) = self.log.as_mut() {
            let _ = l.write_all(s.as_bytes());
        }
        if let Some(p) = self.proc_.as_mut() {
            let _ = p.inp.write_all(s.as_bytes());
        }
    }
    fn read_line(&mut self) -> Option<String> {
        let p = self.proc_.as_mut()?;
        let mut s = String::new();
        match p.out.read_line(&mut s) {
            Ok(0) | Err(_) => None,
            Ok(_) => Some(s.trim().to_string()),
        }
    }
    fn read_sexp(&mut self) -> Option<String> {
        let mut r = String::new();
        loop {
            let l = self.read_line()?;
            r += &l;
            r.push(' ');
            let (mut d, mut any) = (0i32, false);
            for c in r.chars() {
                if c == '(' {
                    d += 1;
                    any = true;
                }
                if c == ')' {
                    d -= 1;
                }
            }
            if any && d <= 0 {
                return Some(r);
            }
            if !any && !r.trim().is_empty() {
                return Some(r);
            }
        }
    }
    fn finvs(&mut self, tm: &Ctx, t: T) -> Vec<T> {
        if let Some(v) = self.ax_cache.get(&t) {
            return v.clone();
        }
        // iterative post-order
        let mut st = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if self.ax_cache.contains_key(&x) {
                continue;
            }
            let ch = tm.children(x);
            if done {
                let mut s: Vec<T> = vec![];
                for c in &ch {
                    if let Some(v) = self.ax_cache.get(c) {
                        for y in v {
                            if !s.contains(y) {
                                s.push(*y)
                            }
                        }
                    }
                }
                if matches!(tm.node(x).op, O::FInv | O::EncF) || (tm.node(x).op == O::Uf && tm.ufs[tm.node(x).a as usize].inj) || tm.rules.nz.contains(&x) || tm.rules.sq.contains_key(&x) {
                    s.push(x);
                }
                self.ax_cache.insert(x, s);
            } else {
                st.push((x, true));
                for c in ch {
                    st.push((c, false));
                }
            }
        }
        self.ax_cache[&t].clone()
    }
    /// nodes with an axiom of their own, closed under the terms those axioms mention
    fn axioms_of(&mut self, tm: &Ctx, ts: &[T]) -> Vec<T> {
        let mut out: Vec<T> = vec![];
        let mut todo: Vec<T> = ts.to_vec();
        while let Some(t) = todo.pop() {
            for i in self.finvs(tm, t) {
                if !out.contains(&i) {
                    out.push(i);
                    if let Some((_, e)) = tm.rules.sq.get(&i) {
                        todo.push(*e);
                    }
                }
            }
        }
        out
    }
    fn finv_axiom(&self, tm: &Ctx, t: T) -> String {
        let n = tm.node(t);
        let m = match n.s {
            Sort::F(m) => m,
            _ => 0,
        };
        if n.op == O::Uf && tm.ufs[n.a as usize].inj {
            // collision-free: the function and every argument can be read back from the output
            let u = &tm.ufs[n.a as usize];
            let mut r = format!("(and (= (uid_{} t{}) {})", tm.sort_name(n.s), t, n.a);
            for (k, y) in tm.arglists[n.b as usize].iter().enumerate() {
                r += &format!(" (= (ui_{}_{} t{}) {})", u.name, k, t, tm.r(*y));
            }
            return r + ")";
        }
        if n.op == O::EncF {
            let mut r = format!("(= (dec_{}_{}_{} t{}) {})", tm.fm(n.a), tm.w(t), n.b, t, tm.r(n.a));
            if n.b == 2 && tm.w(t) == 253 {
                // scalar encodings are read back from all 256 bits
                r = format!("(and {} (= (dec_{}_256_2 (concat #b000 t{})) {}))", r, tm.fm(n.a), t, tm.r(n.a));
            }
            return r;
        }
        if n.op != O::FInv {
            let mut r = String::from("(and true");
            if tm.rules.nz.contains(&t) {
                r += &format!(" (not (= {} (as ff0 F{})))", tm.r(t), m);
            }
            if let Some((_, e)) = tm.rules.sq.get(&t) {
                r += &format!(" (= (ff.mul {x} {x}) {})", tm.r(*e), x = tm.r(t));
            }
            return r + ")";
        }
        let a = tm.r(n.a);
        format!("(ite (= {a} (as ff0 F{m})) (= t{t} (as ff0 F{m})) (= (ff.mul {a} t{t}) (as ff1 F{m})))", a = a, m = m, t = t)
    }
    /// emit declarations/definitions for the cone of t into `buf`
    fn emit(tm: &Ctx, t: T, emitted: &mut HashSet<T>, ufs: &mut HashSet<u32>, encs: &mut HashSet<String>, buf: &mut String) {
        let mut st = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if emitted.contains(&x) {
                continue;
            }
            let n = tm.node(x);
            if matches!(n.op, O::Const | O::ZConst | O::FConst) {
                continue;
            }
            if !done {
                st.push((x, true));
                for c in tm.children(x) {
                    st.push((c, false));
                }
                continue;
            }
            emitted.insert(x);
            match n.op {
                O::Var => {
                    buf.push_str(&format!("(declare-const v{} {})\n", n.a, tm.sort_smt(n.s)));
                }
                O::FInv => {
                    buf.push_str(&format!("(declare-const t{} {})\n", x, tm.sort_smt(n.s)));
                }
                _ => {
                    if n.op == O::Uf && ufs.insert(n.a) {
                        let u = &tm.ufs[n.a as usize];
                        let args: Vec<String> = tm.arglists[n.b as usize].iter().map(|y| tm.sort_smt(tm.sort(*y))).collect();
                        buf.push_str(&format!("(declare-fun u_{} ({}) {})\n", u.name, args.join(" "), tm.sort_smt(u.ret)));
                        if u.inj {
                            let dn = format!("uid_{}", tm.sort_name(u.ret));
                            if encs.insert(dn.clone()) {
                                buf.push_str(&format!("(declare-fun {} ({}) Int)\n", dn, tm.sort_smt(u.ret)));
                            }
                            for (k, a) in args.iter().enumerate() {
                                buf.push_str(&format!("(declare-fun ui_{}_{} ({}) {})\n", u.name, k, tm.sort_smt(u.ret), a));
                            }
                        }
                    }
                    if n.op == O::EncF || n.op == O::FDec {
                        let b = tm.body(x);
                        let nm = b[1..].split(' ').next().unwrap().to_string();
                        if n.op == O::EncF {
                            // encodings are injective: a decoding function undoes them
                            let dn = nm.replacen("enc_", "dec_", 1);
                            if encs.insert(dn.clone()) {
                                buf.push_str(&format!("(declare-fun {} ({}) {})\n", dn, tm.sort_smt(n.s), tm.sort_smt(tm.sort(n.a))));
                            }
                            if n.b == 2 && tm.w(x) == 253 {
                                let dn = format!("dec_{}_256_2", tm.fm(n.a));
                                if encs.insert(dn.clone()) {
                                    buf.push_str(&format!("(declare-fun {} ((_ BitVec 256)) {})\n", dn, tm.sort_smt(tm.sort(n.a))));
                                }
                            }
                        }
                        if encs.insert(nm.clone()) {
                            buf.push_str(&format!("(declare-fun {} ({}) {})\n", nm, tm.sort_smt(tm.sort(n.a)), tm.sort_smt(n.s)));
                        }
                    }
                    buf.push_str(&format!("(define-fun t{} () {} {})\n", x, tm.sort_smt(n.s), tm.body(x)));
                }
            }
        }
    }
    fn assert_one(&mut self, tm: &Ctx, t: T) -> String {
        let mut buf = String::new();
        let mut e = std::mem::take(&mut self.emitted);
        let mut u = std::mem::take(&mut self.ufs_emitted);
        let mut c = std::mem::take(&mut self.encs);
        Self::emit(tm, t, &mut e, &mut u, &mut c, &mut buf);
        let inv = self.axioms_of(tm, &[t]);
        for i in &inv {
            Self::emit(tm, *i, &mut e, &mut u, &mut c, &mut buf);
            if let Some((_, x)) = tm.rules.sq.get(i) {
                Self::emit(tm, *x, &mut e, &mut u, &mut c, &mut buf);
            }
        }
        self.emitted = e;
        self.ufs_emitted = u;
        self.encs = c;
        for i in inv {
            buf.push_str(&format!("(assert {})\n", self.finv_axiom(tm, i)));
        }
        buf.push_str(&format!("(assert {})\n", tm.r(t)));
        buf
    }
    pub fn vars_in(tm: &Ctx, ts: &[T]) -> Vec<T> {
        let mut seen = HashSet::new();
        let mut out = vec![];
        let mut st: Vec<T> = ts.to_vec();
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = tm.node(x);
            if matches!(n.op, O::Var | O::FInv | O::Uf | O::EncF | O::FDec) {
                out.push(x);
            }
            st.extend(tm.children(x));
        }
        out.sort();
        out
    }
    /// satisfiability of pcs /\ goal
    pub fn check(&mut self, tm: &Ctx, pcs: &[T], goal: T, want_model: bool) -> Res {
        self.check2(tm, pcs, goal, want_model, true)
    }
    /// feasibility only: the quick solver alone, `Unknown` allowed
    pub fn quick(&mut self, tm: &Ctx, pcs: &[T], goal: T) -> Res {
        self.check2(tm, pcs, goal, false, false)
    }
    fn check2(&mut self, tm: &Ctx, pcs: &[T], goal: T, want_model: bool, hard: bool) -> Res {
        if goal == tm.ff {
            return Res::Unsat;
        }
        self.stats.queries += 1;
        let t0 = Instant::now();
        let r = self.check_inner(tm, pcs, goal, want_model, hard);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.time += dt;
        if dt > self.stats.max {
            self.stats.max = dt;
        }
        if let Some(l) = self.log.as_mut() {
            let _ = l.write_all(format!("; took {:.2} s: {}\n", dt, match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", Res::Unknown(_) => "unknown" }).as_bytes());
        }
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown(_) => self.stats.unknown += 1,
        }
        r
    }
    fn check_inner(&mut self, tm: &Ctx, pcs: &[T], goal: T, want_model: bool, hard: bool) -> Res {
        if Instant::now() > self.deadline {
            return Res::Unknown("deadline".into());
        }
        if self.proc_.is_none() {
            self.start(tm);
        }
        let mut common = 0;
        while common < self.stack.len() && common < pcs.len() && self.stack[common] == pcs[common] {
            common += 1;
        }
        let pop = self.stack.len() - common;
        let mut buf = String::new();
        if pop > 0 {
            buf += &format!("(pop {})\n", pop);
            self.stack.truncate(common);
        }
        for t in &pcs[common..] {
            buf += "(push 1)\n";
            buf += &self.assert_one(tm, *t);
            self.stack.push(*t);
        }
        buf += "(push 1)\n";
        buf += &self.assert_one(tm, goal);
        let ms = if hard { self.fast_ms } else { self.quick_ms };
        buf += &format!("(set-option :timeout {})\n(check-sat)\n", ms);
        self.send(&buf);
        let mut ans = None;
        let mut err = None;
        loop {
            match self.read_line() {
                None => break,
                Some(l) => {
                    if l.starts_with("(error") {
                        err = Some(l);
                        continue;
                    }
                    if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
                        ans = Some(l);
                        break;
                    }
                    if l.is_empty() {
                        continue;
                    }
                }
            }
        }
        if let Some(e) = err {
            // never trust an answer after an error
            self.proc_ = None;
            return Res::Unknown(format!("solver error: {}", e));
        }
        let r = match ans.as_deref() {
            Some("unsat") => Res::Unsat,
            Some("sat") => {
                if want_model {
                    let mut all = pcs.to_vec();
                    all.push(goal);
                    let vs = Self::vars_in(tm, &all);
                    if vs.is_empty() {
                        Res::Sat(HashMap::new())
                    } else {
                        let names: Vec<String> = vs.iter().map(|v| tm.r(*v)).collect();
                        self.send(&format!("(get-value ({}))\n", names.join(" ")));
                        match self.read_sexp() {
                            Some(s) => Res::Sat(parse_model(&s, &vs)),
                            None => Res::Unknown("model".into()),
                        }
                    }
                } else {
                    Res::Sat(HashMap::new())
                }
            }
            None => {
                self.proc_ = None;
                return if hard { self.hard(tm, pcs, goal) } else { Res::Unknown("quick".into()) };
            }
            _ => {
                self.send("(pop 1)\n");
                return if hard { self.hard(tm, pcs, goal) } else { Res::Unknown("quick".into()) };
            }
        };
        self.send("(pop 1)\n");
        r
    }
    /// one-shot text for pcs /\ goal
    pub fn oneshot(&mut self, tm: &Ctx, pcs: &[T], goal: T) -> (String, Vec<T>) {
        let mut e = HashSet::new();
        let mut u = HashSet::new();
        let mut c = HashSet::new();
        let mut buf = String::new();
        let mut all: Vec<T> = pcs.to_vec();
        all.push(goal);
        let inv = self.axioms_of(tm, &all);
        for t in all.iter().chain(inv.iter()) {
            Self::emit(tm, *t, &mut e, &mut u, &mut c, &mut buf);
            if let Some((_, x)) = tm.rules.sq.get(t) {
                Self::emit(tm, *x, &mut e, &mut u, &mut c, &mut buf);
            }
        }
        for i in inv {
            buf.push_str(&format!("(assert {})\n", self.finv_axiom(tm, i)));
        }
        for t in &all {
            buf.push_str(&format!("(assert {})\n", tm.r(*t)));
        }
        let vs = Self::vars_in(tm, &all);
        (buf, vs)
    }
    fn hard(&mut self, tm: &Ctx, pcs: &[T], goal: T) -> Res {
        self.stats.hard += 1;
        let (body, vs) = self.oneshot(tm, pcs, goal);
        let left = self.deadline.saturating_duration_since(Instant::now()).as_millis() as u64;
        let ms = self.hard_ms.min(left);
        if ms < 50 {
            return Res::Unknown("deadline".into());
        }
        let names: Vec<String> = vs.iter().map(|v| tm.r(*v)).collect();
        let has_ff = body.contains(" F0") || body.contains(" F1");
        let pre = if has_ff { prelude(tm) } else { String::new() };
        let gv = if names.is_empty() { String::new() } else { format!("(get-value ({}))\n", names.join(" ")) };
        let txt = format!("(set-option :produce-models true)\n{}{}(check-sat)\n{}", pre, body, gv);
        let txtc = format!("(set-logic ALL)\n{}", txt);
        let mut cfgs: Vec<(Vec<String>, String)> = vec![(vec!["z3-new".into(), "-in".into(), "-smt2".into()], txt.clone())];
        if !has_ff {
            cfgs.push((vec!["cvc5".into(), "--lang=smt2".into(), "-q".into()], txtc.clone()));
            cfgs.push((vec!["z3".into(), "-in".into(), "-smt2".into()], txt.clone()));
        } else {
            cfgs.push((vec!["z3-new".into(), "-in".into(), "-smt2".into(), "smt.random_seed=7".into()], txt.clone()));
        }
        match portfolio(&cfgs, ms) {
            Some((ans, rest)) => match ans.as_str() {
                "unsat" => Res::Unsat,
                _ => Res::Sat(parse_model(&rest, &vs)),
            },
            None => {
                if let Some(d) = &self.dump {
                    let _ = std::fs::write(format!("{}/hard{}.smt2", d, self.stats.hard), &txtc);
                }
                Res::Unknown(format!("no solver answered within {} ms", ms))
            }
        }
    }
}

/// run several solvers on the same problem; first definite answer wins
pub fn portfolio(cfgs: &[(Vec<String>, String)], ms: u64) -> Option<(String, String)> {
    use std::sync::mpsc;
    let (tx, rx) = mpsc::channel();
    let mut pids = vec![];
    for (cmd, txt) in cfgs {
        let child = Command::new(&cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
        let mut child = match child {
            Ok(c) => c,
            Err(_) => continue,
        };
        pids.push(child.id());
        let mut inp = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let txt = txt.clone();
        std::thread::spawn(move || {
            let _ = inp.write_all(txt.as_bytes());
        });
        let tx = tx.clone();
        std::thread::spawn(move || {
            let mut s = String::new();
            let mut rd = BufReader::new(out);
            let _ = std::io::Read::read_to_string(&mut rd, &mut s);
            let _ = child.wait();
            let _ = tx.send(s);
        });
    }
    drop(tx);
    let end = Instant::now() + Duration::from_millis(ms);
    let mut r = None;
    loop {
        let left = end.saturating_duration_since(Instant::now());
        match rx.recv_timeout(left) {
            Ok(s) => {
                let mut lines = s.lines();
                let mut ans = None;
                let mut bad = false;
                for l in lines.by_ref() {
                    let l = l.trim();
                    if l.starts_with("(error") {
                        bad = true;
                        break;
                    }
                    if l == "sat" || l == "unsat" {
                        ans = Some(l.to_string());
                        break;
                    }
                }
                if bad {
                    continue;
                }
                if let Some(a) = ans {
                    let rest: Vec<&str> = lines.collect();
                    r = Some((a, rest.join(" ")));
                    break;
                }
            }
            Err(_) => break,
        }
    }
    for p in pids {
        let _ = Command::new("kill").args(["-9", &p.to_string()]).stderr(Stdio::null()).status();
    }
    r
}

pub fn tokenize(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    let mut bar = false;
    for c in s.chars() {
        if bar {
            cur.push(c);
            if c == '|' {
                bar = false;
            }
            continue;
        }
        match c {
            '(' | ')' => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
                v.push(c.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
            }
            '|' => {
                bar = true;
                cur.push(c);
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}
#[derive(Debug, Clone)]
pub enum Sx {
    A(String),
    L(Vec<Sx>),
}
pub fn parse_sx(t: &[String], i: &mut usize) -> Option<Sx> {
    if *i >= t.len() {
        return None;
    }
    if t[*i] == "(" {
        *i += 1;
        let mut v = vec![];
        while *i < t.len() && t[*i] != ")" {
            v.push(parse_sx(t, i)?);
        }
        *i += 1;
        Some(Sx::L(v))
    } else {
        *i += 1;
        Some(Sx::A(t[*i - 1].clone()))
    }
}
pub fn sx_val(s: &Sx) -> Option<Big> {
    match s {
        Sx::A(a) => {
            if a == "true" {
                return Some(Big::one());
            }
            if a == "false" {
                return Some(Big::zero());
            }
            if let Some(h) = a.strip_prefix("#x") {
                let mut r = Big::zero();
                let k = Big::from(16);
                for c in h.chars() {
                    r = r.mul(&k).add(&Big::from(c.to_digit(16)? as i128));
                }
                return Some(r);
            }
            if let Some(h) = a.strip_prefix("#b") {
                let mut r = Big::zero();
                let k = Big::from(2);
                for c in h.chars() {
                    r = r.mul(&k).add(&Big::from(c.to_digit(2)? as i128));
                }
                return Some(r);
            }
            if let Some(f) = a.strip_prefix("#f") {
                return Some(Big::parse(f.split('m').next().unwrap()));
            }
            if a.starts_with("ff") {
                return Some(Big::parse(&a[2..]));
            }
            if a.bytes().next()?.is_ascii_digit() {
                return Some(Big::parse(a));
            }
            None
        }
        Sx::L(v) => {
            if v.len() == 2 {
                if let Sx::A(o) = &v[0] {
                    if o == "-" {
                        return Some(sx_val(&v[1])?.negate());
                    }
                }
            }
            if v.len() == 3 {
                if let (Sx::A(o), x) = (&v[0], &v[1]) {
                    if o == "as" {
                        return sx_val(x);
                    }
                    if o == "_" {
                        if let Sx::A(b) = x {
                            if let Some(d) = b.strip_prefix("bv") {
                                return Some(Big::parse(d));
                            }
                        }
                    }
                }
            }
            None
        }
    }
}
fn parse_model(s: &str, vs: &[T]) -> Model {
    let t = tokenize(s);
    let mut i = 0;
    let mut m = HashMap::new();
    if let Some(Sx::L(v)) = parse_sx(&t, &mut i) {
        for (k, e) in v.iter().enumerate() {
            if let Sx::L(p) = e {
                if p.len() == 2 && k < vs.len() {
                    if let Some(b) = sx_val(&p[1]) {
                        m.insert(vs[k], b);
                    }
                }
            }
        }
    }
    m
}
