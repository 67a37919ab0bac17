//! Harness runner: symbolic run -> obligations -> solver -> concrete replay -> evidence.
use crate::poly::*;
use crate::symgroup::{self, G, GA};
use ff::{Field, FromUniformBytes, PrimeField};
use group::Curve;
use halo2_proofs::verif;
use pasta_curves::sym::{self, with_dag, Node, Op, Pc};
use pasta_curves::{Fp, Fq};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::time::Instant;

pub fn tier_thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Sym,
    Concrete,
}

pub struct Obl {
    pub label: String,
    pub field: u8,
    pub a: u32,
    pub b: u32,
}

/// What to do with recorded decisions on symbolic values.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PcPolicy {
    /// disequalities are generic-position assumptions; equalities must be identities
    Generic,
    /// additionally accept byte observations and orderings as fixing the explored path
    Path,
}

/// Expression over variable names, used to steer execution into the branch where a decision is true.
#[derive(Clone, Debug)]
pub struct Subst {
    pub var: String,
    /// (field, op, a, b, value, name): a small straight-line program; the last entry is the result
    pub prog: Vec<(u8, Op, u32, u32, Limbs, String)>,
}

pub struct H {
    pub mode: Mode,
    pub name: String,
    pub assign: HashMap<String, [u8; 32]>,
    pub vars: BTreeMap<String, u32>,
    pub obls: Vec<Obl>,
    /// further queries (label, script), each expected to be unsatisfiable
    pub smts: Vec<(String, String)>,
    pub failed: Vec<String>,
    pub facts: u64,
    pub policy: PcPolicy,
    pub substs: Vec<Subst>,
    pub made: HashMap<String, (u32, [u8; 32])>,
    pub sweep: Sweep,
}

/// State of `H::sweep`: values of all terms at a random point, and what has been related.
#[derive(Default)]
pub struct Sweep {
    sim: Vec<Limbs>,
    class: HashMap<(u8, Limbs), u32>,
    cut: HashMap<u32, u32>,
    done: std::collections::HashSet<(u32, u32)>,
    /// terms from here on are not representatives
    upto: usize,
}
impl Sweep {
    fn grow(&mut self, nodes: &[Node]) {
        for i in self.sim.len()..nodes.len() {
            let n = &nodes[i];
            let v = match n.op {
                Op::Const => n.val,
                Op::Var => {
                    let b = hash64(&["sweep", &i.to_string()]);
                    if n.field == 0 {
                        Fp::from_uniform_bytes(&b).v.limbs_raw()
                    } else {
                        Fq::from_uniform_bytes(&b).v.limbs_raw()
                    }
                }
                _ => step(n, self.sim[n.a as usize], self.sim[n.b as usize]),
            };
            self.sim.push(v);
        }
    }
}

fn hash64(parts: &[&str]) -> [u8; 64] {
    let mut h = blake2b_simd::Params::new().hash_length(64).to_state();
    h.update(&seed().to_le_bytes());
    for p in parts {
        h.update(&(p.len() as u64).to_le_bytes());
        h.update(p.as_bytes());
    }
    let mut o = [0u8; 64];
    o.copy_from_slice(h.finalize().as_bytes());
    o
}

impl H {
    fn new(name: &str, mode: Mode) -> Self {
        H {
            mode,
            name: name.into(),
            assign: HashMap::new(),
            vars: BTreeMap::new(),
            smts: vec![],
            obls: vec![],
            failed: vec![],
            facts: 0,
            policy: PcPolicy::Generic,
            substs: vec![],
            made: HashMap::new(),
            sweep: Sweep::default(),
        }
    }
    /// deterministic pseudo-random constant
    pub fn konst(&self, name: &str) -> Fp {
        Fp::from_uniform_bytes(&hash64(&[&self.name, "k", name]))
    }
    pub fn konst_q(&self, name: &str) -> Fq {
        Fq::from_uniform_bytes(&hash64(&[&self.name, "kq", name]))
    }
    pub fn rand_u64(&self, name: &str) -> u64 {
        u64::from_le_bytes(hash64(&[&self.name, "u", name])[..8].try_into().unwrap())
    }
    /// a symbolic scalar (any value of the field)
    pub fn fp(&mut self, name: &str) -> Fp {
        let d = Fp::from_uniform_bytes(&hash64(&[&self.name, name]));
        self.fp_at(name, d)
    }
    fn steered(&mut self, name: &str) -> Option<u32> {
        let sb = self.substs.iter().find(|s| s.var == name)?.clone();
        let mut vals: Vec<(u32, u32)> = vec![];
        for (field, op, a, b, v, n) in sb.prog.iter() {
            macro_rules! go {
                ($t:ident) => {{
                    let get = |i: u32| $t::from_term(vals[i as usize].1);
                    match op {
                        Op::Const => $t::from_limbs(*v).term(),
                        Op::Var => {
                            if let Some(t) = self.steered(n) {
                                t
                            } else if let Some(t) = self.vars.get(n) {
                                *t
                            } else {
                                let x = $t::sym(n, $t::from_limbs(*v));
                                self.vars.insert(n.clone(), x.t);
                                x.t
                            }
                        }
                        Op::Add => (get(*a) + get(*b)).term(),
                        Op::Sub => (get(*a) - get(*b)).term(),
                        Op::Mul => (get(*a) * get(*b)).term(),
                        Op::Neg => (-get(*a)).term(),
                        Op::Inv => get(*a).invert().unwrap_or($t::zero()).term(),
                        Op::Sqrt => unreachable!(),
                    }
                }};
            }
            let t = if *field == 0 { go!(Fp) } else { go!(Fq) };
            vals.push((*field as u32, t));
        }
        Some(vals.last().unwrap().1)
    }
    pub fn fp_at(&mut self, name: &str, shadow: Fp) -> Fp {
        let shadow = shadow.shadow();
        assert!(!self.made.contains_key(name), "duplicate variable {}", name);
        let r = match self.mode {
            Mode::Sym => {
                if let Some(t) = self.steered(name) {
                    Fp::from_term(t)
                } else if let Some(t) = self.vars.get(name) {
                    Fp::from_term(*t)
                } else {
                    let v = Fp::sym(name, shadow);
                    self.vars.insert(name.into(), v.t);
                    v
                }
            }
            Mode::Concrete => match self.assign.get(name) {
                Some(b) => Fp::from_repr(*b).unwrap(),
                None => shadow,
            },
        };
        self.made.insert(name.into(), (r.t, r.v.to_repr()));
        r
    }
    pub fn fq(&mut self, name: &str) -> Fq {
        let d = Fq::from_uniform_bytes(&hash64(&[&self.name, name]));
        self.fq_at(name, d)
    }
    pub fn fq_at(&mut self, name: &str, shadow: Fq) -> Fq {
        let shadow = shadow.shadow();
        assert!(!self.made.contains_key(name), "duplicate variable {}", name);
        let r = match self.mode {
            Mode::Sym => {
                if let Some(t) = self.steered(name) {
                    Fq::from_term(t)
                } else if let Some(t) = self.vars.get(name) {
                    Fq::from_term(*t)
                } else {
                    let v = Fq::sym(name, shadow);
                    self.vars.insert(name.into(), v.t);
                    v
                }
            }
            Mode::Concrete => match self.assign.get(name) {
                Some(b) => Fq::from_repr(*b).unwrap(),
                None => shadow,
            },
        };
        self.made.insert(name.into(), (r.t, r.v.to_repr()));
        r
    }
    pub fn fps(&mut self, name: &str, n: usize) -> Vec<Fp> {
        (0..n).map(|i| self.fp(&format!("{}{}", name, i))).collect()
    }
    /// a formal group generator
    pub fn gen(&mut self, name: &str) -> G {
        symgroup::gen_named(name)
    }
    /// the generator the library obtains by hashing this message to the curve
    pub fn gen_hash(&mut self, name: &str, domain: &str, msg: &[u8]) -> G {
        use pasta_curves::arithmetic::CurveExt;
        symgroup::gen_with(name, pasta_curves::Eq::hash_to_curve(domain)(msg))
    }
    /// a further query, which must be unsatisfiable
    pub fn unsat(&mut self, label: &str, script: String) {
        if self.mode == Mode::Sym {
            self.smts.push((label.into(), script));
        }
    }
    /// got == want for all values of the symbolic variables
    pub fn eq(&mut self, label: &str, got: Fp, want: Fp) {
        match self.mode {
            Mode::Sym => {
                if got.t == 0 && want.t == 0 {
                    self.facts += 1;
                    if got.v != want.v {
                        self.failed.push(format!("{}: {:?} != {:?}", label, got, want));
                    }
                } else {
                    let o = Obl { label: label.into(), field: 0, a: got.term(), b: want.term() };
                    self.obls.push(o);
                }
            }
            Mode::Concrete => {
                if got.v != want.v {
                    self.failed.push(format!("{}: got {:?} want {:?}", label, got, want));
                }
            }
        }
    }
    /// As `eq`, for deep terms: intermediate terms that agree at a random point are assumed equal and replaced by
    /// variables; each such equality becomes an obligation of its own, on terms that come strictly earlier.
    pub fn sweep(&mut self, label: &str, got: Fp, want: Fp) {
        if self.mode == Mode::Concrete || (got.t == 0 && want.t == 0) {
            return self.eq(label, got, want);
        }
        let (a, b) = (got.term(), want.term());
        if !self.sweep_in::<Fp>(label, a, b) {
            self.eq(label, got, want);
        }
    }
    pub fn sweep_q(&mut self, label: &str, got: Fq, want: Fq) {
        if self.mode == Mode::Concrete || (got.t == 0 && want.t == 0) {
            return self.eq_q(label, got, want);
        }
        let (a, b) = (got.term(), want.term());
        if !self.sweep_in::<Fq>(label, a, b) {
            self.eq_q(label, got, want);
        }
    }
    fn sweep_in<F: TagF>(&mut self, label: &str, a: u32, b: u32) -> bool {
        let nodes: Vec<Node> = with_dag(|d| d.nodes.clone());
        self.sweep.grow(&nodes);
        for i in self.sweep.upto..nodes.len() {
            self.sweep.class.entry((nodes[i].field, self.sweep.sim[i])).or_insert(i as u32);
        }
        let lim = nodes.len();
        if self.sweep.sim[a as usize] != self.sweep.sim[b as usize] {
            return false;
        }
        let mut todo = vec![(a, b)];
        let mut new: Vec<Obl> = vec![];
        let mut done = vec![];
        while let Some((a, b)) = todo.pop() {
            if a == b || self.sweep.done.contains(&(a, b)) || done.contains(&(a, b)) {
                continue;
            }
            done.push((a, b));
            let mut open: BTreeSet<u32> = [a, b].into_iter().collect();
            let found = loop {
                // the two terms over the current atoms
                let mut memo: HashMap<u32, F> = HashMap::new();
                let mut atoms: BTreeSet<u32> = BTreeSet::new();
                let mut used: BTreeSet<(u32, u32)> = BTreeSet::new();
                let x = self.local::<F>(a, true, &nodes, &open, &mut memo, &mut atoms, &mut used);
                let mut memo: HashMap<u32, F> = HashMap::new();
                let y = self.local::<F>(b, true, &nodes, &open, &mut memo, &mut atoms, &mut used);
                let (tx, ty) = (x.t(), y.t());
                with_dag(|d| self.sweep.grow(&d.nodes));
                if self.sweep.sim[tx as usize] == self.sweep.sim[ty as usize] {
                    break Some((tx, ty, used));
                }
                match atoms.into_iter().rev().find(|t| !matches!(nodes[*t as usize].op, Op::Var | Op::Const)) {
                    Some(t) if open.len() < 600 => {
                        open.insert(t);
                    }
                    _ => break None,
                }
            };
            match found {
                None => return false,
                Some((x, y, used)) => {
                    new.push(Obl { label: format!("{} (term {})", label, a.max(b)), field: nodes[a as usize].field, a: x, b: y });
                    todo.extend(used);
                }
            }
        }
        self.sweep.upto = self.sweep.upto.max(lim);
        // terms made here never represent a class
        with_dag(|d| self.sweep.upto = d.nodes.len().max(self.sweep.upto));
        self.sweep.done.extend(done);
        self.obls.extend(new);
        true
    }
    #[allow(clippy::too_many_arguments)]
    fn local<F: TagF>(&mut self, n: u32, root: bool, nodes: &[Node], open: &BTreeSet<u32>, memo: &mut HashMap<u32, F>, atoms: &mut BTreeSet<u32>, used: &mut BTreeSet<(u32, u32)>) -> F {
        if let Some(x) = memo.get(&n) {
            return *x;
        }
        let nd = nodes[n as usize];
        if nd.op == Op::Const {
            return F::from_t(n);
        }
        let r = if root { n } else { *self.sweep.class.get(&(nd.field, self.sweep.sim[n as usize])).unwrap_or(&n) };
        let rd = nodes[r as usize];
        let x = if !root && r != n && rd.op == Op::Const {
            used.insert((n, r));
            F::from_t(r)
        } else if open.contains(&r) && rd.op != Op::Var {
            if r != n {
                used.insert((n, r));
            }
            let p = self.local::<F>(rd.a, false, nodes, open, memo, atoms, used);
            match rd.op {
                Op::Neg => -p,
                Op::Inv => p.invert().unwrap_or(F::ZERO),
                Op::Sqrt => unreachable!(),
                _ => {
                    let q = self.local::<F>(rd.b, false, nodes, open, memo, atoms, used);
                    match rd.op {
                        Op::Add => p + q,
                        Op::Sub => p - q,
                        _ => p * q,
                    }
                }
            }
        } else {
            if r != n {
                used.insert((n, r));
            }
            atoms.insert(r);
            if rd.op == Op::Var {
                F::from_t(r)
            } else {
                let t = match self.sweep.cut.get(&r) {
                    Some(t) => *t,
                    None => {
                        let t = with_dag(|d| d.mk_var(rd.field, format!("cut{}", r), rd.val));
                        self.sweep.cut.insert(r, t);
                        t
                    }
                };
                F::from_t(t)
            }
        };
        memo.insert(n, x);
        x
    }
    pub fn eq_q(&mut self, label: &str, got: Fq, want: Fq) {
        match self.mode {
            Mode::Sym => {
                if got.t == 0 && want.t == 0 {
                    self.facts += 1;
                    if got.v != want.v {
                        self.failed.push(format!("{}: {:?} != {:?}", label, got, want));
                    }
                } else {
                    let o = Obl { label: label.into(), field: 1, a: got.term(), b: want.term() };
                    self.obls.push(o);
                }
            }
            Mode::Concrete => {
                if got.v != want.v {
                    self.failed.push(format!("{}: got {:?} want {:?}", label, got, want));
                }
            }
        }
    }
    pub fn eqs(&mut self, label: &str, got: &[Fp], want: &[Fp]) {
        self.ok(&format!("{}: length {} vs {}", label, got.len(), want.len()), got.len() == want.len());
        for (i, (a, b)) in got.iter().zip(want.iter()).enumerate() {
            self.eq(&format!("{}[{}]", label, i), *a, *b);
        }
    }
    /// equality in the free group on the named generators
    pub fn geq(&mut self, label: &str, got: G, want: G) {
        let (a, b) = (got.coeffs(), want.coeffs());
        let ks: BTreeSet<u32> = a.keys().chain(b.keys()).copied().collect();
        for k in ks {
            let x = a.get(&k).copied().unwrap_or(Fp::zero());
            let y = b.get(&k).copied().unwrap_or(Fp::zero());
            let n = symgroup::gen_name(k);
            self.eq(&format!("{}@{}", label, n), x, y);
        }
        if self.mode == Mode::Concrete || (got.lc == 0 && want.lc == 0) {
            let same = got.p.to_affine() == want.p.to_affine();
            if !same {
                self.failed.push(format!("{}: points differ", label));
            }
        }
    }
    pub fn gaeq(&mut self, label: &str, got: GA, want: GA) {
        self.geq(label, G::from(got), G::from(want))
    }
    /// a fact that must hold on the explored path
    pub fn ok(&mut self, label: &str, c: bool) {
        self.facts += 1;
        if !c {
            self.failed.push(label.into());
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub vars: u64,
    pub terms: u64,
    pub obligations: u64,
    pub trivial: u64,
    pub discharged: u64,
    pub queries: u64,
    pub facts: u64,
    pub diseqs: u64,
    pub path_decisions: u64,
    pub solver_s: f64,
    pub max_query_s: f64,
    pub witnesses: u64,
    pub cross: u64,
    pub split_runs: u64,
    pub unsplit: u64,
}

pub struct Cx {
    pub id: String,
    pub st: Stats,
    pub samples: Vec<String>,
    pub functions: Vec<String>,
    pub bounds: Vec<String>,
    pub assumptions: Vec<String>,
    pub told: std::collections::HashSet<String>,
    pub violations: Vec<(String, String)>,
    pub inconclusive: Vec<String>,
    pub t0: Instant,
    pub only: Option<String>,
    pub replay_assign: Option<HashMap<String, [u8; 32]>>,
    pub timeout_s: u64,
    pub extra: Vec<(String, String)>,
    pub notes: Vec<String>,
    /// constraint systems analysed, propagation steps, seconds
    pub systems: (u64, u64, f64),
}

lazy_static::lazy_static! { static ref PANIC_MSG: std::sync::Mutex<String> = Default::default(); }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!(
            "{} at {}",
            i.payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default(),
            i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()
        );
        if std::env::var("HV_VERBOSE").is_ok() {
            eprintln!("panic: {}", m);
        }
        *PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner()) = m;
    }));
}
pub fn last_panic() -> String {
    PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

fn z3_bin() -> &'static str {
    "z3-new"
}
/// Runs one script; returns (first line, seconds).
pub fn run_z3(bin: &str, script: &str, timeout_s: u64) -> (String, f64) {
    let t = Instant::now();
    let mut c = Command::new(bin)
        .args(["-in", &format!("-T:{}", timeout_s), "-memory:6000"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("z3");
    let mut i = c.stdin.take().unwrap();
    let s = script.to_string();
    let w = std::thread::spawn(move || {
        let _ = i.write_all(s.as_bytes());
    });
    let o = c.wait_with_output().unwrap();
    let _ = w.join();
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let r = if out.contains("(error") {
        format!("error {}", out.trim())
    } else {
        out.trim().to_string()
    };
    (r, t.elapsed().as_secs_f64())
}

pub const SIMP_ONLY: &str = "(check-sat-using (then (using-params simplify :som true :som_blowup 100000000 :blast_distinct true) (using-params simplify :som true :som_blowup 100000000) fail-if-undecided))";
pub const SIMP: &str = "(check-sat-using (then (using-params simplify :som true :som_blowup 100000000 :blast_distinct true) (using-params simplify :som true :som_blowup 100000000) smt))";

fn hex(b: &[u8; 32]) -> String {
    let mut s = String::from("0x");
    for x in b.iter().rev() {
        s += &format!("{:02x}", x);
    }
    s
}
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o
}

impl Cx {
    pub fn new(id: &str) -> Self {
        Cx {
            id: id.into(),
            st: Stats::default(),
            samples: vec![],
            functions: vec![],
            bounds: vec![],
            assumptions: vec![],
            told: Default::default(),
            violations: vec![],
            inconclusive: vec![],
            t0: Instant::now(),
            only: None,
            replay_assign: None,
            timeout_s: if tier_thorough() { 600 } else { 180 },
            extra: vec![],
            notes: vec![],
            systems: (0, 0, 0.0),
        }
    }
    pub fn functions(&mut self, f: &[&str]) {
        self.functions.extend(f.iter().map(|s| s.to_string()));
    }
    pub fn bound(&mut self, s: &str) {
        self.bounds.push(s.into());
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }

    fn exec(&self, name: &str, mode: Mode, assign: HashMap<String, [u8; 32]>, substs: &[Subst], f: &dyn Fn(&mut H)) -> H {
        sym::reset();
        symgroup::reset();
        verif::set_naive_multiexp(mode == Mode::Sym);
        let mut h = H::new(name, mode);
        h.assign = assign;
        h.substs = substs.to_vec();
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut h)));
        sym::set_random_symbolic(false);
        verif::set_naive_multiexp(false);
        if r.is_err() {
            h.failed.push(format!("panicked: {}", last_panic()));
        }
        h
    }

    /// Runs one harness symbolically and decides all its obligations.
    pub fn run(&mut self, name: &str, f: impl Fn(&mut H)) {
        self.run_dyn(name, &f)
    }
    pub fn run_dyn(&mut self, name: &str, f: &dyn Fn(&mut H)) {
        if !self.violations.is_empty() && self.only.is_none() {
            return;
        }
        if let Some(o) = &self.only {
            if o != name {
                return;
            }
            let h = self.exec(name, Mode::Concrete, self.replay_assign.clone().unwrap_or_default(), &[], f);
            println!("replay {}: {}", name, if h.failed.is_empty() { "holds".into() } else { h.failed.join("; ") });
            if !h.failed.is_empty() {
                self.violations.push((name.into(), h.failed[0].clone()));
            }
            return;
        }
        self.run_one(name, &[], f);
    }

    /// Like `run`, but also explores the branches where recorded disequalities hold with equality
    /// (one variable is solved for), up to `depth` simultaneous equalities.
    pub fn run_split(&mut self, name: &str, depth: usize, max_runs: usize, f: impl Fn(&mut H)) {
        if self.only.is_some() {
            return self.run_dyn(name, &f);
        }
        let mut work: Vec<Vec<Subst>> = vec![vec![]];
        let mut seen: BTreeSet<String> = BTreeSet::new();
        let mut runs = 0;
        while let Some(sb) = work.pop() {
            if !self.violations.is_empty() || !self.inconclusive.is_empty() {
                return;
            }
            if runs >= max_runs {
                self.st.unsplit += work.len() as u64 + 1;
                break;
            }
            runs += 1;
            let ds = self.run_one(name, &sb, &f);
            if !self.violations.is_empty() || !self.inconclusive.is_empty() {
                return;
            }
            if sb.len() >= depth {
                self.st.unsplit += ds.len() as u64;
                continue;
            }
            let mut children = vec![];
            for (a, b) in ds {
                let cs = solve_decision(a, b, 3);
                if cs.is_empty() {
                    self.st.unsplit += 1;
                }
                for c in cs {
                    let mut n = sb.clone();
                    n.push(c);
                    let mut key: Vec<String> = n.iter().map(|s| format!("{:?}", s)).collect();
                    key.sort();
                    if seen.insert(key.join("|")) {
                        children.push(n);
                    }
                }
            }
            children.reverse();
            work.extend(children);
        }
        self.st.split_runs += runs as u64;
    }

    fn run_one(&mut self, name: &str, substs: &[Subst], f: &dyn Fn(&mut H)) -> Vec<(u32, u32)> {
        let t_exec = Instant::now();
        let h = self.exec(name, Mode::Sym, HashMap::new(), substs, f);
        let t_exec = t_exec.elapsed().as_secs_f64();
        self.st.cases += 1;
        self.st.vars += h.vars.len() as u64;
        self.st.facts += h.facts;
        self.st.terms += with_dag(|d| d.nodes.len()) as u64;
        let names: HashMap<u32, String> = with_dag(|d| d.names.clone());
        if !h.failed.is_empty() {
            // a fact fails on the explored path: the shadow assignment is the counterexample
            let am: HashMap<String, [u8; 32]> = h.made.iter().map(|(n, (_, r))| (n.clone(), *r)).collect();
            self.confirm(name, am, &h.failed[0], f);
            return vec![];
        }
        let mut obls = h.obls;
        // decisions
        let pcs = with_dag(|d| d.pcs.clone());
        let mut seen = BTreeSet::new();
        let mut open = vec![];
        for pc in pcs {
            match pc {
                Pc::Eq(a, b, false) => {
                    if seen.insert((a, b)) {
                        self.st.diseqs += 1;
                        open.push((a, b));
                    }
                }
                Pc::Eq(a, b, true) => {
                    if seen.insert((a, b)) {
                        let field = with_dag(|d| d.nodes[a as usize].field);
                        obls.push(Obl { label: format!("path equality t{}=t{}", a, b), field, a, b });
                    }
                }
                Pc::Cmp(..) | Pc::Bytes(..) | Pc::IsSquare(..) => {
                    self.st.path_decisions += 1;
                    if h.policy != PcPolicy::Path {
                        self.inconclusive.push(format!("{}: unexpected concretisation {:?}", name, pc));
                        return vec![];
                    }
                }
            }
        }
        for (lc, r) in symgroup::with_tab(|t| t.pcs.clone()) {
            let l = symgroup::get(lc);
            if r {
                for (g, c) in l {
                    obls.push(Obl {
                        label: format!("identity decision @{}", symgroup::gen_name(g)),
                        field: 0,
                        a: c.term(),
                        b: Fp::zero().term(),
                    });
                }
            } else {
                self.st.diseqs += 1;
            }
        }
        let nobl = obls.len();
        self.st.obligations += obls.len() as u64;
        let before = self.st.solver_s;
        if !h.smts.is_empty() {
            self.st.obligations += h.smts.len() as u64;
            let jobs: Vec<(String, usize, String)> = h.smts.iter().map(|(l, s)| (s.clone(), 1, l.clone())).collect();
            for ((r, t), (s, _, l)) in run_jobs(&jobs, self.timeout_s).into_iter().zip(jobs.iter()) {
                self.st.queries += 1;
                self.st.solver_s += t;
                self.st.max_query_s = self.st.max_query_s.max(t);
                if r == "unsat" {
                    self.st.discharged += 1;
                } else {
                    if std::env::var("HV_VERBOSE").is_ok() {
                        let _ = std::fs::write("/tmp/hv-failed.smt2", s);
                    }
                    if r.starts_with("sat") {
                        let am: HashMap<String, [u8; 32]> = h.made.iter().map(|(n, (_, r))| (n.clone(), *r)).collect();
                        self.confirm(name, am, l, f);
                        return vec![];
                    }
                    self.inconclusive.push(format!("{}: {}: solver answered {}", name, l, r));
                }
            }
        }
        self.solve(name, obls, &names, &h.made, f);
        if std::env::var("HV_VERBOSE").is_ok() {
            eprintln!(
                "  {:50} exec {:.2}s obls {} terms {} solver {:.2}s",
                name,
                t_exec,
                nobl,
                with_dag(|d| d.nodes.len()),
                self.st.solver_s - before
            );
        }
        open
    }

    fn solve(&mut self, name: &str, obls: Vec<Obl>, names: &HashMap<u32, String>, made: &HashMap<String, (u32, [u8; 32])>, f: &dyn Fn(&mut H)) {
        let nodes = with_dag(|d| d.nodes.clone());
        // candidate counterexample: one random point
        let mut assign: HashMap<u32, Limbs> = HashMap::new();
        for (v, n) in names {
            let b = hash64(&[&self.id, name, "cex", n]);
            let l = if nodes[*v as usize].field == 0 {
                Fp::from_uniform_bytes(&b).v.limbs_raw()
            } else {
                Fq::from_uniform_bytes(&b).v.limbs_raw()
            };
            assign.insert(*v, l);
        }
        let vals = eval_nodes(&nodes, &assign, nodes.len());
        let shadows = eval_nodes(&nodes, &HashMap::new(), nodes.len());
        let mut todo: Vec<&Obl> = vec![];
        for o in &obls {
            if o.a == o.b {
                self.st.trivial += 1;
                self.st.discharged += 1;
                continue;
            }
            let bad_rand = vals[o.a as usize] != vals[o.b as usize];
            let bad_shadow = shadows[o.a as usize] != shadows[o.b as usize];
            if bad_rand || bad_shadow {
                // the solver confirms the model, then the real code replays it
                let mut ar = Arena::new(o.field);
                let d = ar.diff(o.a, o.b);
                let pick = if bad_shadow { &shadows } else { &vals };
                let mut s = ar.emit_at(&[d], pick);
                s += &format!("(assert (not (= (mod t{} {}) 0)))\n(check-sat)\n", d, modulus_dec(o.field));
                let (r, t) = run_z3(z3_bin(), &s, self.timeout_s);
                self.st.queries += 1;
                self.st.solver_s += t;
                let am: HashMap<String, [u8; 32]> = made
                    .iter()
                    .map(|(n, (t, r))| {
                        (n.clone(), if *t == 0 { *r } else { repr(nodes[*t as usize].field, pick[*t as usize]) })
                    })
                    .collect();
                if r != "sat" {
                    self.inconclusive.push(format!("{}: {}: model not confirmed by the solver ({})", name, o.label, r));
                    return;
                }
                self.confirm(name, am, &o.label, f);
                return;
            }
            todo.push(o);
        }
        if self.samples.len() < 12 {
            if let Some(o) = todo.first() {
                let mut ar = Arena::new(o.field);
                let d = ar.diff(o.a, o.b);
                let e = ar.emit(&[d]);
                self.samples.push(format!(
                    "{} / {}: {} SMT definitions, {} variables; e.g. {}",
                    name,
                    o.label,
                    e.lines().count(),
                    ar.vars_of(&[d]).len(),
                    e.lines().filter(|l| l.contains("(*") || l.contains("(+")).take(2).collect::<Vec<_>>().join(" ")
                ));
            }
        }
        // first with shared factors as opaque variables, then expanded
        let mut rest: Vec<&Obl> = vec![];
        for field in 0..2u8 {
            let fo: Vec<&&Obl> = todo.iter().filter(|o| o.field == field).collect();
            if fo.is_empty() {
                continue;
            }
            let mut ar = Arena::new(field);
            ar.opaque = true;
            let ds: Vec<u32> = fo.iter().map(|o| ar.diff(o.a, o.b)).collect();
            let mut jobs: Vec<(String, usize, String)> = vec![];
            let mut who: Vec<Vec<&Obl>> = vec![];
            let chunk = ((ds.len() + 7) / 8).max(4).min(64);
            for (ci, c) in ds.chunks(chunk).enumerate() {
                let mut s = ar.emit(c);
                s += "(assert (not (and true";
                for d in c {
                    s += &format!(" (= (mod t{} {}) 0)", d, modulus_dec(field));
                }
                s += ")))\n";
                s += SIMP_ONLY;
                s += "\n";
                jobs.push((s, c.len(), String::new()));
                who.push(fo[ci * chunk..ci * chunk + c.len()].iter().map(|o| **o).collect());
            }
            let res = run_jobs(&jobs, 5);
            for ((r, t), w) in res.into_iter().zip(who) {
                self.st.queries += 1;
                self.st.solver_s += t;
                self.st.max_query_s = self.st.max_query_s.max(t);
                if r == "unsat" {
                    self.st.discharged += w.len() as u64;
                } else {
                    rest.extend(w);
                }
            }
        }
        let todo = rest;
        // batch
        let mut jobs: Vec<(String, usize, String)> = vec![];
        for field in 0..2u8 {
            let fo: Vec<&&Obl> = todo.iter().filter(|o| o.field == field).collect();
            if fo.is_empty() {
                continue;
            }
            let mut ar = Arena::new(field);
            let ds: Vec<u32> = fo.iter().map(|o| ar.diff(o.a, o.b)).collect();
            let chunk = ((ds.len() + 7) / 8).max(4).min(64);
            for (ci, c) in ds.chunks(chunk).enumerate() {
                let mut s = ar.emit(c);
                s += "(assert (not (and true";
                for d in c {
                    s += &format!(" (= (mod t{} {}) 0)", d, modulus_dec(field));
                }
                s += ")))\n";
                s += SIMP;
                s += "\n";
                jobs.push((s, c.len(), fo[ci * chunk].label.clone()));
            }
        }
        let res = run_jobs(&jobs, self.timeout_s);
        for ((r, t), (s, n, l)) in res.into_iter().zip(jobs.iter()) {
            self.st.queries += 1;
            self.st.solver_s += t;
            self.st.max_query_s = self.st.max_query_s.max(t);
            if r == "unsat" {
                self.st.discharged += *n as u64;
            } else {
                if std::env::var("HV_VERBOSE").is_ok() {
                    let _ = std::fs::write("/tmp/hv-failed.smt2", s);
                }
                self.inconclusive.push(format!("{}: {}…: solver answered {}", name, l, r));
            }
        }
        if tier_thorough() {
            // second solver on a sample
            for (s, _, l) in jobs.iter().take(2) {
                let (r, t) = run_z3("z3", s, self.timeout_s);
                self.st.solver_s += t;
                if r == "sat" || r.starts_with("error") {
                    self.inconclusive.push(format!("{}: {}: second solver answered {}", name, l, r));
                } else if r == "unsat" {
                    self.st.cross += 1;
                }
            }
        }
    }

    /// Concrete replay on the real code; a violation only if it reproduces.
    pub fn confirm(&mut self, name: &str, assign: HashMap<String, [u8; 32]>, label: &str, f: &dyn Fn(&mut H)) {
        // repeated, because a fault may depend on scheduling or on hash map order
        let mut h = self.exec(name, Mode::Concrete, assign.clone(), &[], f);
        for _ in 0..8 {
            if h.failed.is_empty() {
                h = self.exec(name, Mode::Concrete, assign.clone(), &[], f);
            }
        }
        if h.failed.is_empty() {
            self.inconclusive.push(format!("{}: {}: counterexample did not reproduce on the real code", name, label));
            return;
        }
        let dir = format!("{}/out/{}", verif_dir(), self.id);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/replay-{}.json", dir, self.violations.len());
        let mut s = String::from("{\n");
        s += &format!(" \"property\": \"{}\",\n \"harness\": \"{}\",\n", self.id, esc(name));
        s += &format!(" \"obligation\": \"{}\",\n", esc(label));
        s += &format!(" \"observed\": \"{}\",\n", esc(&h.failed[0]));
        s += &format!(" \"seed\": {},\n \"rerun\": \"./check {} replay {}\",\n", seed(), self.id, path);
        s += " \"assignment\": {";
        let mut v: Vec<_> = assign.iter().collect();
        v.sort();
        s += &v.iter().map(|(n, b)| format!("\n  \"{}\": \"{}\"", n, hex(b))).collect::<Vec<_>>().join(",");
        s += "\n }\n}\n";
        let _ = std::fs::write(&path, s);
        self.violations.push((path, format!("{}: {} — {}", name, label, h.failed[0])));
    }

    /// A violation that an obligation of its own reproduced on the real code.
    /// is this defect on record as `known: property=<id> <key>: ..`?
    pub fn listed(&self, key: &str) -> bool {
        let f = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
        f.lines().any(|l| l.starts_with(&format!("known: property={} {}:", self.id, key)))
    }
    /// a recorded defect is still there
    pub fn known(&mut self, what: &str) {
        if self.told.insert(what.to_string()) {
            println!("KNOWN-FINDING: property={} {}", self.id, what);
        }
    }
    pub fn report(&mut self, name: &str, msg: &str) {
        let dir = format!("{}/out/{}", verif_dir(), self.id);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/replay-{}.json", dir, self.violations.len());
        let mut s = String::from("{\n");
        s += &format!(" \"property\": \"{}\",\n \"harness\": \"{}\",\n", self.id, esc(name));
        s += &format!(" \"observed\": \"{}\",\n", esc(msg));
        s += &format!(" \"seed\": {},\n \"rerun\": \"./check {} replay {}\",\n \"assignment\": {{}}\n}}\n", seed(), self.id, path);
        let _ = std::fs::write(&path, s);
        self.violations.push((path, format!("{} — {}", name, msg)));
    }

    /// The property's negated twin must be refuted: `f` states a false claim, which has to fail.
    pub fn witness(&mut self, name: &str, f: impl Fn(&mut H)) {
        if self.only.is_some() || !self.violations.is_empty() {
            return;
        }
        let h = self.exec(name, Mode::Sym, HashMap::new(), &[], &f);
        if let Some(p) = h.failed.iter().find(|p| p.starts_with("panicked")) {
            self.inconclusive.push(format!("{}: vacuity witness {}", name, p));
            return;
        }
        let mut bad = !h.failed.is_empty();
        if !bad {
            let nodes = with_dag(|d| d.nodes.clone());
            let names: HashMap<u32, String> = with_dag(|d| d.names.clone());
            let mut assign = HashMap::new();
            for (v, n) in &names {
                let b = hash64(&[&self.id, name, "wit", n]);
                let l = if nodes[*v as usize].field == 0 {
                    Fp::from_uniform_bytes(&b).v.limbs_raw()
                } else {
                    Fq::from_uniform_bytes(&b).v.limbs_raw()
                };
                assign.insert(*v, l);
            }
            let vals = eval_nodes(&nodes, &assign, nodes.len());
            bad = h.obls.iter().any(|o| vals[o.a as usize] != vals[o.b as usize]);
        }
        if bad {
            self.st.witnesses += 1;
        } else {
            self.inconclusive.push(format!("{}: vacuity witness was not refuted", name));
        }
    }

    pub fn finish(mut self) -> i32 {
        let wall = self.t0.elapsed().as_secs_f64();
        if self.only.is_some() {
            return if self.violations.is_empty() { 0 } else { 1 };
        }
        if self.st.obligations + self.st.facts == 0 && self.violations.is_empty() {
            self.inconclusive.push("no obligations".into());
        }
        let list = |v: &Vec<String>| v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ");
        let tier = if tier_thorough() { "thorough" } else { "quick" };
        let mut expl = format!(
            "Symbolic execution of the compiled sources of /repo with symbolic field elements; every obligation is an SMT query (z3) over all values of the symbolic variables. Bounds: {}.",
            self.bounds.join("; ")
        );
        let mut ex = String::new();
        if self.systems.0 > 0 {
            expl = format!(
                "The gadget's compiled configure and synthesize are executed against a recording assignment; the resulting constraint system, with every advice cell unknown (the whole prover witness), is decided by the exact constraint solver of checks/gadget.rs (propagation, elimination, roots, case splits), digit sums and carries by z3; every unfolding that stays open is replayed as a forged witness in the real mock prover. path_facts counts constraints. Bounds: {}.",
                self.bounds.join("; ")
            );
            ex = format!(",\n  \"constraint_systems\": {},\n  \"constraint_solver_steps\": {},\n  \"constraint_solver_s\": {:.3}", self.systems.0, self.systems.1, self.systems.2);
        }
        for n in &self.notes {
            expl += " ";
            expl += n;
        }
        ex += &self.extra.iter().map(|(k, v)| format!(",\n  \"{}\": {}", k, v)).collect::<String>();
        let s = format!(
            "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"other\",\n \"coverage\": {{\n  \"explanation\": \"{}\",\n  \"functions_encoded\": [{}],\n  \"bounds\": [{}],\n  \"harness_runs\": {},\n  \"symbolic_variables\": {},\n  \"terms\": {},\n  \"obligations\": {},\n  \"discharged\": {},\n  \"discharged_syntactically\": {},\n  \"solver_queries\": {},\n  \"solver_s\": {:.3},\n  \"max_query_s\": {:.3},\n  \"path_facts\": {},\n  \"generic_disequalities_assumed\": {},\n  \"path_decisions_fixed\": {},\n  \"equality_branches_explored\": {},\n  \"equality_branches_left_generic\": {},\n  \"vacuity_witnesses_refuted\": {},\n  \"second_solver_agreements\": {},\n  \"inconclusive\": [{}],\n  \"samples\": [{}]{}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            self.id, tier, seed(), esc(&expl), list(&self.functions), list(&self.bounds),
            self.st.cases, self.st.vars, self.st.terms, self.st.obligations, self.st.discharged, self.st.trivial,
            self.st.queries, self.st.solver_s, self.st.max_query_s, self.st.facts, self.st.diseqs, self.st.path_decisions, self.st.split_runs, self.st.unsplit,
            self.st.witnesses, self.st.cross, list(&self.inconclusive), list(&self.samples), ex,
            list(&self.assumptions), wall, self.violations.len()
        );
        let p = format!("{}/evidence/{}.json", verif_dir(), self.id);
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
        std::fs::write(&p, s).expect("evidence");
        if let Some((path, what)) = self.violations.first() {
            println!("{}", what);
            println!("VIOLATION property={} replay={}", self.id, path);
            return 1;
        }
        if !self.inconclusive.is_empty() {
            for i in &self.inconclusive {
                println!("INCONCLUSIVE {}: {}", self.id, i);
            }
            return 2;
        }
        println!(
            "{}: held; {} harness runs, {} obligations ({} discharged), {} facts, {} queries, solver {:.1}s, wall {:.1}s",
            self.id, self.st.cases, self.st.obligations, self.st.discharged, self.st.facts, self.st.queries, self.st.solver_s, wall
        );
        0
    }
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn run_jobs(jobs: &[(String, usize, String)], timeout: u64) -> Vec<(String, f64)> {
    let n = jobs.len();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(vec![(String::new(), 0.0); n]);
    std::thread::scope(|sc| {
        for _ in 0..7.min(n) {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= n {
                    break;
                }
                let r = run_z3(z3_bin(), &jobs[i].0, timeout);
                out.lock().unwrap()[i] = r;
            });
        }
    });
    out.into_inner().unwrap()
}

/// Steering expressions that make the decision `a == b` true: one per variable that occurs linearly.
fn solve_decision(a: u32, b: u32, cap: usize) -> Vec<Subst> {
    let field = with_dag(|d| d.nodes[a as usize].field);
    if field == 0 {
        solve_decision_in::<Fp>(a, b, cap)
    } else {
        solve_decision_in::<Fq>(a, b, cap)
    }
}
trait TagF: PrimeField {
    fn from_t(t: u32) -> Self;
    fn t(&self) -> u32;
}
impl TagF for Fp {
    fn from_t(t: u32) -> Self {
        Fp::from_term(t)
    }
    fn t(&self) -> u32 {
        self.term()
    }
}
impl TagF for Fq {
    fn from_t(t: u32) -> Self {
        Fq::from_term(t)
    }
    fn t(&self) -> u32 {
        self.term()
    }
}
fn solve_decision_in<F: TagF>(a: u32, b: u32, cap: usize) -> Vec<Subst> {
    let npcs = with_dag(|d| d.pcs.len());
    // numerator of a - b as a division-free term
    let field = with_dag(|d| d.nodes[a as usize].field);
    let mut ar = Arena::new(field);
    let root = ar.diff(a, b);
    let vars: Vec<u32> = ar.vars_of(&[root]).into_iter().collect();
    let eval = |sub: Option<(u32, F)>| -> F {
        let mut v: Vec<F> = vec![];
        for p in ar.ps.iter() {
            let g = |i: &u32| v[*i as usize];
            let x = match p {
                P::Var(t) => match sub {
                    Some((s, x)) if s == *t => x,
                    _ => F::from_t(*t),
                },
                P::Const(_) => {
                    let l = match p {
                        P::Const(l) => *l,
                        _ => unreachable!(),
                    };
                    F::from_t(with_dag(|d| d.mk_const(field, l)))
                }
                P::Add(a, b) => g(a) + g(b),
                P::Sub(a, b) => g(a) - g(b),
                P::Mul(a, b) => g(a) * g(b),
                P::Neg(a) => -g(a),
            };
            v.push(x);
        }
        v[root as usize]
    };
    let mut out = vec![];
    for v in vars {
        if with_dag(|d| d.nodes[v as usize].op) != Op::Var || out.len() >= cap {
            continue;
        }
        let name = with_dag(|d| d.names[&v].clone());
        if name.starts_with("rnd") {
            continue;
        }
        let d0 = eval(Some((v, F::ZERO)));
        let d1 = eval(Some((v, F::ONE)));
        let d2 = eval(Some((v, F::ONE.double())));
        let d5 = eval(Some((v, F::from(5))));
        let c1 = d1 - d0;
        let same = |x: F, y: F| x == y;
        if !same(d2, c1.double() + d0) || !same(d5, c1 * F::from(5) + d0) || same(c1, F::ZERO) {
            continue;
        }
        let e = -d0 * c1.invert().unwrap();
        // linearise the reachable program
        let t = e.t();
        let nodes = with_dag(|d| d.nodes.clone());
        let names = with_dag(|d| d.names.clone());
        let mut need = BTreeSet::new();
        let mut st = vec![t];
        while let Some(x) = st.pop() {
            if !need.insert(x) {
                continue;
            }
            let n = nodes[x as usize];
            match n.op {
                Op::Var | Op::Const => {}
                Op::Neg | Op::Inv | Op::Sqrt => st.push(n.a),
                _ => {
                    st.push(n.a);
                    st.push(n.b)
                }
            }
        }
        let idx: HashMap<u32, u32> = need.iter().enumerate().map(|(i, x)| (*x, i as u32)).collect();
        if need.len() > 4000 || need.iter().any(|x| nodes[*x as usize].op == Op::Sqrt) {
            continue;
        }
        let prog = need
            .iter()
            .map(|x| {
                let n = nodes[*x as usize];
                let (a, b) = match n.op {
                    Op::Var | Op::Const => (0, 0),
                    Op::Neg | Op::Inv => (idx[&n.a], 0),
                    _ => (idx[&n.a], idx[&n.b]),
                };
                (n.field, n.op, a, b, n.val, names.get(x).cloned().unwrap_or_default())
            })
            .collect();
        out.push(Subst { var: name, prog });
    }
    with_dag(|d| d.pcs.truncate(npcs));
    out
}
