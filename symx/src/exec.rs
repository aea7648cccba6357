//! The symbolic executor proper.

use crate::expr::{bin_eval, f_eval1, f_eval2, mask, sext128, BuildFx, Exprs, Op, X};
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Answer, Guard, Z3};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub type Dom = [u64; 4];
const FULL: Dom = [u64::MAX; 4];

pub struct Frame {
    code: Rc<Code>,
    fid: u32,
    regs: Vec<V>,
    pc: u32,
    stack: u64, // address of the frame object, 0 if none
    ret: Option<u32>,
}

impl Clone for Frame {
    fn clone(&self) -> Frame {
        Frame {
            code: self.code.clone(),
            fid: self.fid,
            regs: self.regs.clone(),
            pc: self.pc,
            stack: self.stack,
            ret: self.ret,
        }
    }
}

#[derive(Clone)]
pub struct State {
    top: Frame,
    rest: Vec<Rc<Frame>>,
    mem: Mem,
    nvars: u32,
    dom: Rc<Vec<Dom>>,
    single: u128,
    entangled: u128,
    cons: Rc<Vec<(X, bool)>>,
    subst: Rc<HashMap<X, u128, BuildFx>>,
    model: Vec<u8>,
    log: Rc<Vec<V>>,
    notes: Rc<Vec<Vec<V>>>,
    instrs: u64,
    unknown: bool,
    file: Option<(u64, u64, u64)>,
    pub forks: u32,
}

pub enum End {
    Done,
    Pruned,              // an assumption became false
    Fail(String),        // harness check that is concretely false on this path
    Panic(String),
    Limit(String),
    Engine(String),
}

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub id: String,
    pub input: Vec<u8>,
    pub notes: Vec<Vec<u8>>,
    pub stack: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub panics: u64,
    pub engine: HashMap<String, u64>,
    pub limit: u64,
    pub unknown: u64,
    pub instrs: u64,
    pub forks: u64,
    pub table_decisions: u64,
    pub table_crosschecked: u64,
    pub model_decisions: u64,
    pub checks: HashMap<String, [u64; 3]>, // concrete-true, solver-proved, violated
    pub reach: HashMap<String, u64>,
    pub violations: Vec<Violation>,
    pub viol_count: HashMap<String, u64>,
    pub samples: Vec<(Vec<u8>, Vec<u64>)>,
    pub final_sat: u64,
    pub dropped: u64,
    pub concretized: u64,
    pub max_vars: u32,
}

pub struct Opts {
    pub max_instrs: u64,
    pub max_depth: usize,
    pub max_viol: usize,
    pub max_samples: usize,
    pub seed: u64,
    pub crosscheck: u64,
    pub params: Vec<u64>,
    /// check ids that are listed findings: they do not count towards stopping early
    pub known: Vec<String>,
    pub stop: Option<&'static std::sync::atomic::AtomicI64>,
}

pub struct Ex {
    pub m: Module,
    pub e: Exprs,
    pub z: Z3,
    globals: Vec<Option<Rc<Obj>>>,
    pub work: Vec<State>,
    pub st: Stats,
    pub opts: Opts,
    pub executed: Vec<bool>,
    memo: HashMap<Vec<Guard>, Option<Vec<(u32, u8)>>>,
    xchecked: HashSet<(X, Dom)>,
    ext_kind: Vec<u8>,
    phf: Vec<bool>,
    errno: u64,
    rng: u64,
    pub trace: bool,
    finals: u64,
}

type R<T> = Result<T, End>;

fn eng<T>(s: impl Into<String>) -> R<T> {
    Err(End::Engine(s.into()))
}

fn dom_count(d: &Dom) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
fn dom_and(a: &Dom, b: &Dom) -> Dom {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn dom_not(a: &Dom) -> Dom {
    [!a[0], !a[1], !a[2], !a[3]]
}
fn dom_has(d: &Dom, v: u8) -> bool {
    d[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
fn dom_first(d: &Dom) -> u8 {
    for i in 0..4 {
        if d[i] != 0 {
            return (i * 64) as u8 + d[i].trailing_zeros() as u8;
        }
    }
    0
}
fn dom_iter(d: &Dom) -> Vec<u8> {
    (0..=255u8).filter(|v| dom_has(d, *v)).collect()
}

extern "C" {
    fn sinf(x: f32) -> f32;
    fn cosf(x: f32) -> f32;
    fn log10f(x: f32) -> f32;
    fn log2f(x: f32) -> f32;
    fn logf(x: f32) -> f32;
    fn expf(x: f32) -> f32;
    fn tanf(x: f32) -> f32;
    fn acosf(x: f32) -> f32;
    fn asinf(x: f32) -> f32;
    fn atanf(x: f32) -> f32;
    fn sin(x: f64) -> f64;
    fn cos(x: f64) -> f64;
    fn log10(x: f64) -> f64;
    fn log2(x: f64) -> f64;
    fn log(x: f64) -> f64;
    fn exp(x: f64) -> f64;
    fn tan(x: f64) -> f64;
    fn acos(x: f64) -> f64;
    fn asin(x: f64) -> f64;
    fn atan(x: f64) -> f64;
    fn powf(x: f32, y: f32) -> f32;
    fn pow(x: f64, y: f64) -> f64;
}

fn libm1(k: u8, w: u32, v: u128) -> u128 {
    unsafe {
        if w == 32 {
            let x = f32::from_bits(v as u32);
            (match k {
                0 => sinf(x),
                1 => cosf(x),
                2 => log10f(x),
                3 => log2f(x),
                4 => logf(x),
                5 => expf(x),
                6 => tanf(x),
                7 => acosf(x),
                8 => asinf(x),
                10 => x.exp2(),
                11 => x.cbrt(),
                12 => x.sinh(),
                13 => x.cosh(),
                14 => x.tanh(),
                _ => atanf(x),
            })
            .to_bits() as u128
        } else {
            let x = f64::from_bits(v as u64);
            (match k {
                0 => sin(x),
                1 => cos(x),
                2 => log10(x),
                3 => log2(x),
                4 => log(x),
                5 => exp(x),
                6 => tan(x),
                7 => acos(x),
                8 => asin(x),
                10 => x.exp2(),
                11 => x.cbrt(),
                12 => x.sinh(),
                13 => x.cosh(),
                14 => x.tanh(),
                _ => atan(x),
            })
            .to_bits() as u128
        }
    }
}

impl Ex {
    pub fn new(m: Module, opts: Opts) -> Ex {
        let ng = m.globals.len();
        let nf = m.funcs.len();
        let phf = m.funcs.iter().map(|f| f.name.contains("3phf3map") && f.name.contains("9get_entry")).collect();
        let ext_kind = m.externs.iter().map(|n| ext_kind(n)).collect();
        Ex {
            m,
            e: Exprs::new(),
            z: Z3::new(),
            globals: vec![None; ng + 1],
            work: vec![],
            st: Stats::default(),
            rng: opts.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            opts,
            executed: vec![false; nf],
            memo: HashMap::new(),
            xchecked: HashSet::new(),
            ext_kind,
            phf,
            errno: 0,
            trace: false,
            finals: 0,
        }
    }

    pub fn start(&mut self, name: &str) -> Result<(), String> {
        let fid = *self.m.fn_by_name.get(name).ok_or(format!("no harness function {name}"))?;
        let code = self.m.code(fid)?;
        let mut mem = Mem::new(self.m.globals.len());
        self.errno = mem.alloc(Obj::zeroed(16));
        let stack = if code.frame > 0 { mem.alloc(Obj::zeroed(code.frame as u64)) } else { 0 };
        let nregs = code.nregs as usize;
        self.executed[fid as usize] = true;
        let s = State {
            top: Frame { code, fid, regs: vec![V::I(0); nregs], pc: 0, stack, ret: None },
            rest: vec![],
            mem,
            nvars: 0,
            dom: Rc::new(vec![]),
            single: 0,
            entangled: 0,
            cons: Rc::new(vec![]),
            subst: Rc::new(HashMap::default()),
            model: vec![],
            log: Rc::new(vec![]),
            notes: Rc::new(vec![]),
            instrs: 0,
            unknown: false,
            file: None,
            forks: 0,
        };
        self.work.push(s);
        Ok(())
    }

    /// Run one pending state until its path ends (pushing siblings on the work list).
    pub fn run_one(&mut self) {
        let Some(mut s) = self.work.pop() else { return };
        let end = self.run(&mut s);
        self.finish(s, end);
    }

    pub fn stack_names(&self, s: &State) -> Vec<String> {
        let mut v: Vec<String> = s.rest.iter().map(|f| self.m.funcs[f.fid as usize].name.clone()).collect();
        v.push(self.m.funcs[s.top.fid as usize].name.clone());
        v
    }

    fn evalx(&self, s: &State, x: X) -> u128 {
        let mut memo = HashMap::default();
        self.e.eval(x, &s.model, &mut memo)
    }
    fn evalv(&self, s: &State, v: &V) -> u128 {
        match v {
            V::I(x) => *x as u128,
            V::W(x) => **x,
            V::E(x) => self.evalx(s, *x),
            V::A(_) => 0,
        }
    }

    fn notes(&self, s: &State) -> Vec<Vec<u8>> {
        s.notes.iter().map(|n| n.iter().map(|v| self.evalv(s, v) as u8).collect()).collect()
    }

    fn full_guards(&self, s: &State) -> (Vec<Guard>, u128) {
        let mut gs = vec![];
        let mut vs = 0u128;
        for v in 0..s.nvars {
            vs |= 1 << v;
            if s.dom[v as usize] != FULL {
                gs.push(Guard::Domain(v, s.dom[v as usize]));
            }
        }
        for (c, b) in s.cons.iter() {
            gs.push(if *b { Guard::Expr(*c) } else { Guard::NotExpr(*c) });
        }
        (gs, vs)
    }

    fn record(&mut self, s: &State, kind: &str, id: String) {
        let key = format!("{kind}:{id}");
        let n = self.st.viol_count.entry(key).or_insert(0);
        *n += 1;
        if !self.opts.known.contains(&id) {
            if let Some(c) = self.opts.stop {
                c.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            }
        }
        if *n <= self.opts.max_viol as u64 {
            let v = Violation {
                kind: kind.into(),
                id,
                input: s.model[..s.nvars as usize].to_vec(),
                notes: self.notes(s),
                stack: self.stack_names(s),
            };
            self.st.violations.push(v);
        }
    }

    pub fn finish(&mut self, s: State, end: End) {
        self.st.instrs += s.instrs;
        self.st.max_vars = self.st.max_vars.max(s.nvars);
        if s.unknown {
            self.st.unknown += 1;
        }
        match end {
            End::Done => {
                self.st.paths += 1;
                self.finals += 1;
                if self.finals <= 500 || self.finals % 16 == 0 {
                    let (gs, vs) = self.full_guards(&s);
                    match self.z.check(&self.e, &gs, vs, None) {
                        Answer::Sat => self.st.final_sat += 1,
                        Answer::Unsat => {
                            *self.st.engine.entry("final path condition unsat".into()).or_insert(0) += 1
                        }
                        Answer::Unknown => self.st.unknown += 1,
                    }
                }
                let lg: Vec<u64> = s.log.iter().map(|v| self.evalv(&s, v) as u64).collect();
                let inp = s.model[..s.nvars as usize].to_vec();
                self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                if self.st.samples.len() < self.opts.max_samples {
                    self.st.samples.push((inp, lg));
                } else if self.opts.max_samples > 0 {
                    let k = (self.rng >> 33) % self.st.paths;
                    if (k as usize) < self.opts.max_samples {
                        self.st.samples[k as usize] = (inp, lg);
                    }
                }
            }
            End::Pruned => self.st.pruned += 1,
            End::Fail(id) => {
                self.st.paths += 1;
                self.record(&s, "check", id);
            }
            End::Panic(f) => {
                self.st.paths += 1;
                self.st.panics += 1;
                self.record(&s, "panic", f);
            }
            End::Limit(w) => {
                self.st.limit += 1;
                self.record(&s, "limit", w);
            }
            End::Engine(e) => {
                if self.trace && self.st.engine.len() < 5 {
                    eprintln!("engine: {e}\n  in {:?}", self.stack_names(&s));
                }
                let e = format!("{e} @ {}", self.m.funcs[s.top.fid as usize].name);
                *self.st.engine.entry(e).or_insert(0) += 1;
            }
        }
    }

    // ---------------------------------------------------------------- values

    fn simp(&mut self, s: &State, x: X) -> V {
        let vs = self.e.vars[x as usize];
        if vs & !s.single == 0 {
            return V::k(self.evalx(s, x));
        }
        V::E(x)
    }

    #[inline]
    fn get(&mut self, s: &State, o: &Opd) -> V {
        match o {
            Opd::R(r) => match &s.top.regs[*r as usize] {
                V::I(x) => V::I(*x),
                V::E(x) => {
                    let x = *x;
                    self.simp(s, x)
                }
                v => v.clone(),
            },
            Opd::K(v) => v.clone(),
        }
    }

    fn x(&mut self, v: &V, w: u32) -> X {
        match v {
            V::I(k) => self.e.konst(w, *k as u128),
            V::W(k) => self.e.konst(w, **k),
            V::E(x) => *x,
            V::A(_) => self.e.konst(w, 0),
        }
    }
    fn v(&self, x: X) -> V {
        match self.e.as_const(x) {
            Some(k) => V::k(k),
            None => V::E(x),
        }
    }
    fn conc(v: &V) -> Option<u128> {
        match v {
            V::I(k) => Some(*k as u128),
            V::W(k) => Some(**k),
            _ => None,
        }
    }

    // ------------------------------------------------------------- decisions

    fn component(&self, s: &State, vars: u128) -> (Vec<Guard>, u128) {
        let mut vs = vars;
        let mut used = vec![false; s.cons.len()];
        loop {
            let mut ch = false;
            for (i, (c, _)) in s.cons.iter().enumerate() {
                let cv = self.e.vars[*c as usize];
                if !used[i] && cv & vs & !s.single != 0 {
                    used[i] = true;
                    vs |= cv;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut gs = vec![];
        let mut m = vs;
        while m != 0 {
            let v = m.trailing_zeros();
            m &= m - 1;
            if s.dom[v as usize] != FULL {
                gs.push(Guard::Domain(v, s.dom[v as usize]));
            }
        }
        for (i, (c, b)) in s.cons.iter().enumerate() {
            if used[i] {
                gs.push(if *b { Guard::Expr(*c) } else { Guard::NotExpr(*c) });
            }
        }
        (gs, vs)
    }

    /// Is the path condition plus (c == val) satisfiable?  Some(model) / None; Err = solver gave up.
    fn sat(&mut self, s: &State, c: X, val: bool) -> Result<Option<Vec<u8>>, ()> {
        let (mut gs, vs) = self.component(s, self.e.vars[c as usize]);
        gs.push(if val { Guard::Expr(c) } else { Guard::NotExpr(c) });
        if let Some(r) = self.memo.get(&gs) {
            return Ok(r.as_ref().map(|d| {
                let mut m = s.model.clone();
                for (v, b) in d {
                    m[*v as usize] = *b;
                }
                m
            }));
        }
        let mut m = s.model.clone();
        let r = match self.z.check(&self.e, &gs, vs, Some(&mut m)) {
            Answer::Sat => Some(m),
            Answer::Unsat => None,
            Answer::Unknown => return Err(()),
        };
        if self.memo.len() > 200_000 {
            self.memo.clear();
        }
        let stored = r.as_ref().map(|m| {
            (0..s.nvars).filter(|v| vs >> v & 1 == 1).map(|v| (v, m[v as usize])).collect::<Vec<_>>()
        });
        self.memo.insert(gs, stored);
        Ok(r)
    }

    fn table(&mut self, s: &State, c: X, v: u32) -> Dom {
        let vs = self.e.vars[c as usize];
        if vs.count_ones() == 1 {
            return self.e.truth_table(c);
        }
        let mut model = s.model.clone();
        let mut t = [0u64; 4];
        for b in 0..=255u8 {
            if !dom_has(&s.dom[v as usize], b) {
                continue;
            }
            model[v as usize] = b;
            let mut memo = HashMap::default();
            if self.e.eval(c, &model, &mut memo) == 1 {
                t[(b >> 6) as usize] |= 1 << (b & 63);
            }
        }
        t
    }

    fn crosscheck(&mut self, s: &State, c: X, v: u32, unsat_side: bool) -> R<()> {
        if self.e.vars[c as usize].count_ones() != 1 {
            return Ok(());
        }
        let d = s.dom[v as usize];
        if self.st.table_crosschecked >= self.opts.crosscheck || !self.xchecked.insert((c, d)) {
            return Ok(());
        }
        self.st.table_crosschecked += 1;
        let gs = [Guard::Domain(v, d), if unsat_side { Guard::Expr(c) } else { Guard::NotExpr(c) }];
        match self.z.check(&self.e, &gs, 1 << v, None) {
            Answer::Unsat => Ok(()),
            Answer::Unknown => Ok(()),
            Answer::Sat => eng("byte table disagrees with the solver"),
        }
    }

    /// Add (c == val) to the path condition.  `m`: a model of the result if already known.
    fn add(&mut self, s: &mut State, c: X, val: bool, m: Option<Vec<u8>>) {
        let vs = self.e.vars[c as usize];
        let eff = vs & !s.single;
        if eff == 0 {
            return;
        }
        if eff.count_ones() == 1 {
            let v = eff.trailing_zeros();
            let t = self.table(s, c, v);
            let t = if val { t } else { dom_not(&t) };
            let nd = dom_and(&s.dom[v as usize], &t);
            self.set_dom(s, v, nd);
            if let Some(m) = m {
                s.model = m;
            } else if !dom_has(&nd, s.model[v as usize]) {
                s.model[v as usize] = dom_first(&nd);
            }
            return;
        }
        Rc::make_mut(&mut s.cons).push((c, val));
        s.entangled |= vs;
        if let Some(m) = m {
            s.model = m;
        }
    }

    fn set_dom(&mut self, s: &mut State, v: u32, d: Dom) {
        Rc::make_mut(&mut s.dom)[v as usize] = d;
        if dom_count(&d) == 1 {
            s.single |= 1 << v;
        }
    }

    /// Decide a symbolic condition on this path, forking when both outcomes are possible.
    /// The sibling is pushed with its program counter unchanged and re-executes the instruction.
    fn branch(&mut self, s: &mut State, c: X) -> R<bool> {
        let vs = self.e.vars[c as usize];
        let eff = vs & !s.single;
        if eff == 0 {
            return Ok(self.evalx(s, c) == 1);
        }
        let cur = self.evalx(s, c) == 1;
        if eff.count_ones() == 1 {
            let v = eff.trailing_zeros();
            let t = self.table(s, c, v);
            let d = s.dom[v as usize];
            let dt = dom_and(&d, &t);
            let df = dom_and(&d, &dom_not(&t));
            let (nt, nf) = (dom_count(&dt), dom_count(&df));
            self.st.table_decisions += 1;
            if nt == 0 || nf == 0 {
                self.crosscheck(s, c, v, nt == 0)?;
                return Ok(nt != 0);
            }
            if s.entangled >> v & 1 == 0 {
                let mut o = s.clone();
                o.forks += 1;
                self.st.forks += 1;
                let (md, od) = if cur { (dt, df) } else { (df, dt) };
                self.set_dom(&mut o, v, od);
                o.model[v as usize] = dom_first(&od);
                self.set_dom(s, v, md);
                self.work.push(o);
                return Ok(cur);
            }
        } else {
            for (k, b) in s.cons.iter() {
                if *k == c {
                    return Ok(*b);
                }
            }
            self.st.model_decisions += 1;
        }
        match self.sat(s, c, !cur) {
            Ok(None) => {
                // implied: remember it so that the next look is free
                Ok(cur)
            }
            Ok(Some(m)) => {
                let mut o = s.clone();
                o.forks += 1;
                self.st.forks += 1;
                self.add(&mut o, c, !cur, Some(m));
                self.work.push(o);
                self.add(s, c, cur, None);
                Ok(cur)
            }
            Err(()) => {
                s.unknown = true;
                self.add(s, c, cur, None);
                Ok(cur)
            }
        }
    }

    /// Concrete value of an expression on this path, forking over its possible values.
    fn concretize(&mut self, s: &mut State, x: X) -> R<u128> {
        let vs = self.e.vars[x as usize];
        let eff = vs & !s.single;
        if eff == 0 {
            return Ok(self.evalx(s, x));
        }
        if let Some(k) = s.subst.get(&x) {
            return Ok(*k);
        }
        self.st.concretized += 1;
        if eff.count_ones() == 1 && s.entangled & eff == 0 {
            let v = eff.trailing_zeros();
            let mut groups: Vec<(u128, Dom)> = vec![];
            let mut idx: HashMap<u128, usize> = HashMap::new();
            let mut model = s.model.clone();
            for b in dom_iter(&s.dom[v as usize]) {
                model[v as usize] = b;
                let mut memo = HashMap::default();
                let val = self.e.eval(x, &model, &mut memo);
                let i = *idx.entry(val).or_insert_with(|| {
                    groups.push((val, [0; 4]));
                    groups.len() - 1
                });
                groups[i].1[(b >> 6) as usize] |= 1 << (b & 63);
            }
            let cur = self.evalx(s, x);
            for (val, d) in groups.iter() {
                if *val != cur {
                    let mut o = s.clone();
                    o.forks += 1;
                    self.st.forks += 1;
                    self.set_dom(&mut o, v, *d);
                    o.model[v as usize] = dom_first(d);
                    if dom_count(d) > 1 {
                        Rc::make_mut(&mut o.subst).insert(x, *val);
                    }
                    self.work.push(o);
                }
            }
            let d = groups[idx[&cur]].1;
            self.set_dom(s, v, d);
            if dom_count(&d) > 1 {
                Rc::make_mut(&mut s.subst).insert(x, cur);
            }
            return Ok(cur);
        }
        if eff.count_ones() > 1 && self.complex(x, 60) {
            // hashes and the like: enumerate the inputs rather than solving for pre-images
            let mut m = eff;
            while m != 0 {
                let v = m.trailing_zeros();
                m &= m - 1;
                let vx = self.e.var(v);
                self.concretize(s, vx)?;
            }
            return Ok(self.evalx(s, x));
        }
        let cur = self.evalx(s, x);
        let c = self.e.eq_const(x, cur);
        if self.e.as_const(c).is_none() && !self.branch_to(s, c)? {
            return eng("concretize");
        }
        Rc::make_mut(&mut s.subst).insert(x, cur);
        Ok(cur)
    }

    /// like `branch`, but the current state always keeps the side its model is on
    fn branch_to(&mut self, s: &mut State, c: X) -> R<bool> {
        self.branch(s, c)
    }

    fn cv(&mut self, s: &mut State, v: &V) -> R<u128> {
        match v {
            V::I(k) => Ok(*k as u128),
            V::W(k) => Ok(**k),
            V::E(x) => self.concretize(s, *x),
            V::A(_) => eng("aggregate where scalar expected"),
        }
    }

    // ---------------------------------------------------------------- memory

    fn global(&mut self, id: u64) -> R<Rc<Obj>> {
        if let Some(o) = &self.globals[id as usize] {
            return Ok(o.clone());
        }
        let b = match self.m.global_init(id as u32 - 1) {
            Ok(b) => b,
            Err(e) => return eng(format!("global {}: {e}", self.m.globals[id as usize - 1].name)),
        };
        let o = Rc::new(Obj::from_bytes(b));
        self.globals[id as usize] = Some(o.clone());
        Ok(o)
    }

    fn obj(&mut self, s: &State, addr: u64, n: u64) -> R<Rc<Obj>> {
        let id = addr >> 32;
        let off = addr & 0xffff_ffff;
        let o = match s.mem.obj(id) {
            Some(o) => o.clone(),
            None if s.mem.is_global(id) => self.global(id)?,
            None => return eng(format!("invalid read of {n} bytes at {addr:#x}")),
        };
        if off + n > o.size {
            return eng(format!("out-of-bounds read of {n} bytes at {addr:#x} (object of {})", o.size));
        }
        Ok(o)
    }

    fn obj_mut<'a>(&mut self, s: &'a mut State, addr: u64, n: u64) -> R<&'a mut Obj> {
        let id = addr >> 32;
        let off = addr & 0xffff_ffff;
        if s.mem.obj(id).is_none() {
            if s.mem.is_global(id) {
                let o = self.global(id)?;
                s.mem.overlay(id, o);
            } else {
                return eng(format!("invalid write of {n} bytes at {addr:#x}"));
            }
        }
        let o = s.mem.obj_mut(id).unwrap();
        if off + n > o.size {
            return eng(format!("out-of-bounds write of {n} bytes at {addr:#x} (object of {})", o.size));
        }
        Ok(o)
    }

    fn load(&mut self, s: &State, addr: u64, w: u32) -> R<V> {
        let n = w.div_ceil(8) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        let id = addr >> 32;
        if let Some(o) = s.mem.obj(id) {
            if off + n <= o.size as usize {
                if let Some(v) = o.read(off, n) {
                    return Ok(V::k(v & mask(w)));
                }
            }
        }
        let o = self.obj(s, addr, n as u64)?;
        if let Some(v) = o.read(off, n) {
            return Ok(V::k(v & mask(w)));
        }
        let mut x: Option<X> = None;
        for i in (0..n).rev() {
            let (b, y) = o.byte(off + i);
            let bx = if y != 0 {
                if self.e.vars[y as usize] & !s.single == 0 {
                    let k = self.evalx(s, y);
                    self.e.konst(8, k)
                } else {
                    y
                }
            } else {
                self.e.konst(8, b as u128)
            };
            x = Some(match x {
                None => bx,
                Some(h) => self.e.concat(h, bx),
            });
        }
        let mut x = x.unwrap();
        if w % 8 != 0 {
            x = self.e.extract(x, 0, w);
        }
        Ok(self.v(x))
    }

    fn store(&mut self, s: &mut State, addr: u64, w: u32, v: &V) -> R<()> {
        let n = w.div_ceil(8) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        match Self::conc(v) {
            Some(k) => {
                let b = k.to_le_bytes();
                self.obj_mut(s, addr, n as u64)?.write(off, &b[..n]);
            }
            None => {
                let mut x = self.x(v, w);
                if w % 8 != 0 {
                    x = self.e.zext(x, n as u32 * 8);
                }
                let mut bytes = [(0u8, 0 as X); 16];
                for i in 0..n {
                    let b = self.e.extract(x, i as u32 * 8, 8);
                    bytes[i] = match self.e.as_const(b) {
                        Some(k) => (k as u8, 0),
                        None => (0, b),
                    };
                }
                let o = self.obj_mut(s, addr, n as u64)?;
                for i in 0..n {
                    o.set(off + i, bytes[i].0, bytes[i].1);
                }
            }
        }
        Ok(())
    }

    /// Load through a symbolic pointer.
    fn load_sym(&mut self, s: &mut State, p: X, w: u32) -> R<V> {
        let vs = self.e.vars[p as usize];
        let eff = vs & !s.single;
        if let Some(k) = s.subst.get(&p) {
            let k = *k as u64;
            return self.load(s, k, w);
        }
        if eff.count_ones() == 1 {
            let v = eff.trailing_zeros();
            let mut model = s.model.clone();
            let mut vals: Vec<(u8, u64)> = vec![];
            for b in dom_iter(&s.dom[v as usize]) {
                model[v as usize] = b;
                let mut memo = HashMap::default();
                vals.push((b, self.e.eval(p, &model, &mut memo) as u64));
            }
            let mut loaded: HashMap<u64, V> = HashMap::new();
            let mut ok = true;
            let mut allc = true;
            for (_, a) in &vals {
                if loaded.contains_key(a) {
                    continue;
                }
                match self.load(s, *a, w) {
                    Ok(r) => {
                        if Self::conc(&r).is_none() {
                            allc = false;
                        }
                        loaded.insert(*a, r);
                    }
                    Err(_) => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok && allc {
                let mut t = vec![0u128; 256];
                for (b, a) in &vals {
                    t[*b as usize] = Self::conc(&loaded[a]).unwrap();
                }
                let vx = self.e.var(v);
                let r = self.e.lut(vx, t, w);
                return Ok(self.v(r));
            }
            if ok && loaded.len() <= 32 {
                let mut it: Vec<(u64, V)> = loaded.into_iter().collect();
                it.sort_by_key(|x| x.0);
                let mut r = self.x(&it[0].1, w);
                for (a, l) in it.iter().skip(1) {
                    let c = self.e.eq_const(p, *a as u128);
                    let lx = self.x(l, w);
                    r = self.e.ite(c, lx, r);
                }
                return Ok(self.v(r));
            }
        } else {
            // base + small index into one object
            let n = self.e.nodes[p as usize];
            if n.op == Op::Add {
                if let Some(base) = self.e.as_const(n.b) {
                    let um = self.e.um(n.a);
                    let o = s.mem.obj((base as u64) >> 32).cloned().or_else(|| {
                        if s.mem.is_global((base as u64) >> 32) {
                            self.global((base as u64) >> 32).ok()
                        } else {
                            None
                        }
                    });
                    if let Some(o) = o {
                        let off = (base as u64 & 0xffff_ffff) as usize;
                        let nb = w.div_ceil(8) as usize;
                        if um < 4096 && off < o.size as usize {
                            let top = (um as usize).min((o.size as usize).saturating_sub(off + nb));
                            let mut t = Vec::with_capacity(top + 1);
                            let mut good = true;
                            for i in 0..=top {
                                match o.read(off + i, nb) {
                                    Some(k) => t.push(k & mask(w)),
                                    None => {
                                        good = false;
                                        break;
                                    }
                                }
                            }
                            // every feasible index must be inside the table
                            if good && top < um as usize {
                                let lim = self.e.konst(64, top as u128);
                                let c = self.e.bin(Op::Ule, n.a, lim);
                                good = matches!(self.sat(s, c, false), Ok(None));
                            }
                            if good {
                                let r = self.e.lut(n.a, t, w);
                                return Ok(self.v(r));
                            }
                        }
                    }
                }
            }
        }
        let a = self.concretize(s, p)? as u64;
        self.load(s, a, w)
    }

    fn bytes_of(&mut self, s: &State, addr: u64, n: usize) -> R<Vec<V>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let o = self.obj(s, addr, n as u64)?;
        let (b, y) = o.slice((addr & 0xffff_ffff) as usize, n);
        let mut r = Vec::with_capacity(n);
        for i in 0..n {
            let x = y.as_ref().map(|y| y[i]).unwrap_or(0);
            if x != 0 {
                r.push(self.simp(s, x));
            } else {
                r.push(V::I(b[i] as u64));
            }
        }
        Ok(r)
    }

    fn conc_str(&mut self, s: &mut State, addr: u64, n: usize) -> R<String> {
        let b = self.bytes_of(s, addr, n)?;
        let v: Vec<u8> = b.iter().map(|v| self.evalv(s, v) as u8).collect();
        Ok(String::from_utf8_lossy(&v).into_owned())
    }

    // ------------------------------------------------------------- operators

    fn bin(&mut self, s: &mut State, op: Bop, w: u32, a: V, b: V) -> R<V> {
        if let (V::I(x), V::I(y)) = (&a, &b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let sx = |v: u64| -> i64 { ((v << (64 - w)) as i64) >> (64 - w) };
                return Ok(V::I(match op {
                    Bop::Add => x.wrapping_add(y) & m,
                    Bop::Sub => x.wrapping_sub(y) & m,
                    Bop::Mul => x.wrapping_mul(y) & m,
                    Bop::And => x & y,
                    Bop::Or => x | y,
                    Bop::Xor => x ^ y,
                    Bop::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            (x << y) & m
                        }
                    }
                    Bop::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    Bop::AShr => (sx(x) >> y.min(w as u64 - 1).min(63)) as u64 & m,
                    _ => {
                        if y == 0 {
                            return eng("division by zero");
                        }
                        match op {
                            Bop::UDiv => x / y,
                            Bop::URem => x % y,
                            Bop::SDiv => sx(x).wrapping_div(sx(y)) as u64 & m,
                            _ => sx(x).wrapping_rem(sx(y)) as u64 & m,
                        }
                    }
                }));
            }
        }
        let o = match op {
            Bop::Add => Op::Add,
            Bop::Sub => Op::Sub,
            Bop::Mul => Op::Mul,
            Bop::UDiv => Op::UDiv,
            Bop::SDiv => Op::SDiv,
            Bop::URem => Op::URem,
            Bop::SRem => Op::SRem,
            Bop::And => Op::And,
            Bop::Or => Op::Or,
            Bop::Xor => Op::Xor,
            Bop::Shl => Op::Shl,
            Bop::LShr => Op::LShr,
            Bop::AShr => Op::AShr,
        };
        if let (Some(x), Some(y)) = (Self::conc(&a), Self::conc(&b)) {
            if matches!(op, Bop::UDiv | Bop::SDiv | Bop::URem | Bop::SRem) && y == 0 {
                return eng("division by zero");
            }
            return Ok(V::k(bin_eval(o, w, x, y)));
        }
        let (mut a, mut b) = (a, b);
        if op == Bop::Mul && w > 64 {
            // folded multiplication of hash functions: symbolic products of this width help nobody
            let both = Self::conc(&a).is_none() && Self::conc(&b).is_none();
            let xa = self.x(&a, w);
            let xb = self.x(&b, w);
            if both || self.e.um(xa) > mask(32) || self.e.um(xb) > mask(64) {
                let ka = self.cv(s, &a)?;
                a = V::k(ka);
                let kb = self.cv(s, &b)?;
                b = V::k(kb);
                return Ok(V::k(bin_eval(Op::Mul, w, ka, kb)));
            }
        }
        let xa = self.x(&a, w);
        let xb = self.x(&b, w);
        let r = self.e.bin(o, xa, xb);
        Ok(self.v(r))
    }

    fn icmp(&mut self, p: Pred, w: u32, a: V, b: V) -> V {
        if let (V::I(x), V::I(y)) = (&a, &b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let sx = |v: u64| -> i64 { ((v << (64 - w)) as i64) >> (64 - w) };
                return V::I(match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Slt => sx(x) < sx(y),
                    Pred::Sle => sx(x) <= sx(y),
                    Pred::Sgt => sx(x) > sx(y),
                    Pred::Sge => sx(x) >= sx(y),
                } as u64);
            }
        }
        let xa = self.x(&a, w);
        let xb = self.x(&b, w);
        let r = self.icmpx(p, xa, xb);
        self.v(r)
    }
    fn icmpx(&mut self, p: Pred, a: X, b: X) -> X {
        let e = &mut self.e;
        match p {
            Pred::Eq => e.bin(Op::Eq, a, b),
            Pred::Ne => {
                let r = e.bin(Op::Eq, a, b);
                e.not(r)
            }
            Pred::Ult => e.bin(Op::Ult, a, b),
            Pred::Ule => e.bin(Op::Ule, a, b),
            Pred::Ugt => e.bin(Op::Ult, b, a),
            Pred::Uge => e.bin(Op::Ule, b, a),
            Pred::Slt => e.bin(Op::Slt, a, b),
            Pred::Sle => e.bin(Op::Sle, a, b),
            Pred::Sgt => e.bin(Op::Slt, b, a),
            Pred::Sge => e.bin(Op::Sle, b, a),
        }
    }

    fn cast(&mut self, k: Cast, fw: u32, tw: u32, a: V) -> V {
        if let Some(v) = Self::conc(&a) {
            return V::k(match k {
                Cast::Trunc => v & mask(tw),
                Cast::ZExt => v,
                Cast::SExt => (sext128(v, fw) as u128) & mask(tw),
                Cast::FToUi => f_eval1(Op::FToUi, fw, tw, v),
                Cast::FToSi => f_eval1(Op::FToSi, fw, tw, v),
                Cast::UiToF => f_eval1(Op::UiToF, fw, tw, v),
                Cast::SiToF => f_eval1(Op::SiToF, fw, tw, v),
                Cast::FExt => f_eval1(Op::FExt, fw, tw, v),
                Cast::FTrunc => f_eval1(Op::FTrunc, fw, tw, v),
            });
        }
        let x = self.x(&a, fw);
        let r = match k {
            Cast::Trunc => self.e.extract(x, 0, tw),
            Cast::ZExt => self.e.zext(x, tw),
            Cast::SExt => self.e.sext(x, tw),
            Cast::FToUi => self.e.fun(Op::FToUi, x, tw),
            Cast::FToSi => self.e.fun(Op::FToSi, x, tw),
            Cast::UiToF => self.e.fun(Op::UiToF, x, tw),
            Cast::SiToF => self.e.fun(Op::SiToF, x, tw),
            Cast::FExt => self.e.fun(Op::FExt, x, tw),
            Cast::FTrunc => self.e.fun(Op::FTrunc, x, tw),
        };
        self.v(r)
    }

    fn lanes(&mut self, v: &V, n: u32, lw: u32) -> Vec<V> {
        match Self::conc(v) {
            Some(k) => (0..n).map(|i| V::k((k >> (i * lw)) & mask(lw))).collect(),
            None => {
                let x = self.x(v, n * lw);
                (0..n)
                    .map(|i| {
                        let r = self.e.extract(x, i * lw, lw);
                        self.v(r)
                    })
                    .collect()
            }
        }
    }
    fn join(&mut self, ls: &[V], lw: u32) -> V {
        if ls.iter().all(|v| Self::conc(v).is_some()) {
            let mut r = 0u128;
            for (i, v) in ls.iter().enumerate() {
                r |= Self::conc(v).unwrap() << (i as u32 * lw);
            }
            return V::k(r);
        }
        let mut x = self.x(&ls[ls.len() - 1], lw);
        for v in ls.iter().rev().skip(1) {
            let y = self.x(v, lw);
            x = self.e.concat(x, y);
        }
        self.v(x)
    }

    fn select(&mut self, w: u32, c: V, a: V, b: V) -> R<V> {
        match c {
            V::I(k) => Ok(if k & 1 == 1 { a } else { b }),
            V::E(x) => {
                if let (V::A(p), V::A(q)) = (&a, &b) {
                    let _ = (p, q);
                    return eng("select of aggregates on a symbolic condition");
                }
                let xa = self.x(&a, w);
                let xb = self.x(&b, w);
                let r = self.e.ite(x, xa, xb);
                Ok(self.v(r))
            }
            _ => eng("select condition"),
        }
    }

    fn fbin(&mut self, s: &mut State, o: Fop, w: u32, a: V, b: V) -> R<V> {
        let op = match o {
            Fop::Add => Op::FAdd,
            Fop::Sub => Op::FSub,
            Fop::Mul => Op::FMul,
            Fop::Div => Op::FDiv,
            Fop::Rem => {
                let x = self.cv(s, &a)?;
                let y = self.cv(s, &b)?;
                return Ok(V::k(if w == 32 {
                    (f32::from_bits(x as u32) % f32::from_bits(y as u32)).to_bits() as u128
                } else {
                    (f64::from_bits(x as u64) % f64::from_bits(y as u64)).to_bits() as u128
                }));
            }
        };
        if let (Some(x), Some(y)) = (Self::conc(&a), Self::conc(&b)) {
            return Ok(V::k(f_eval2(op, w, x, y)));
        }
        let xa = self.x(&a, w);
        let xb = self.x(&b, w);
        let r = self.e.fbin(op, xa, xb);
        Ok(self.v(r))
    }

    fn fcmp(&mut self, p: &str, w: u32, a: V, b: V) -> V {
        let a = self.x(&a, w);
        let b = self.x(&b, w);
        let e = &mut self.e;
        let na = e.fun(Op::FNan, a, 1);
        let nb = e.fun(Op::FNan, b, 1);
        let uno = e.bin(Op::Or, na, nb);
        let r = match p {
            "ord" => e.not(uno),
            "uno" => uno,
            _ => {
                let (ordered, q) = (p.as_bytes()[0] == b'o', &p[1..]);
                let (base, neg) = match q {
                    "eq" => (e.fbin(Op::FEq, a, b), false),
                    "ne" => (e.fbin(Op::FEq, a, b), true),
                    "lt" => (e.fbin(Op::FLt, a, b), false),
                    "le" => (e.fbin(Op::FLe, a, b), false),
                    "gt" => (e.fbin(Op::FLt, b, a), false),
                    _ => (e.fbin(Op::FLe, b, a), false),
                };
                // base is false when unordered
                if neg {
                    let n = e.not(base); // true when unordered
                    if ordered {
                        let o = e.not(uno);
                        e.bin(Op::And, n, o)
                    } else {
                        n
                    }
                } else if ordered {
                    base
                } else {
                    e.bin(Op::Or, base, uno)
                }
            }
        };
        self.v(r)
    }

    fn overflow(&mut self, s: &mut State, i: In, w: u32, a: V, b: V) -> R<V> {
        let (xa, xb) = (self.x(&a, w), self.x(&b, w));
        if let (Some(x), Some(y)) = (Self::conc(&a), Self::conc(&b)) {
            let (r, o) = match i {
                In::UAddO => {
                    let (r, c) = x.overflowing_add(y);
                    (r & mask(w), c || r > mask(w))
                }
                In::USubO => (x.wrapping_sub(y) & mask(w), x < y),
                In::UMulO => match x.checked_mul(y) {
                    Some(r) => (r & mask(w), r > mask(w)),
                    None => (x.wrapping_mul(y) & mask(w), true),
                },
                _ => {
                    let (p, q) = (sext128(x, w), sext128(y, w));
                    let r = match i {
                        In::SAddO => p.checked_add(q),
                        In::SSubO => p.checked_sub(q),
                        _ => p.checked_mul(q),
                    };
                    match r {
                        Some(r) => {
                            let t = (r as u128) & mask(w);
                            (t, sext128(t, w) != r)
                        }
                        None => {
                            let r = match i {
                                In::SAddO => p.wrapping_add(q),
                                In::SSubO => p.wrapping_sub(q),
                                _ => p.wrapping_mul(q),
                            };
                            (r as u128 & mask(w), true)
                        }
                    }
                }
            };
            return Ok(V::A(Rc::new(vec![V::k(r), V::I(o as u64)])));
        }
        let _ = s;
        let e = &mut self.e;
        let (r, o) = match i {
            In::UAddO => {
                let r = e.bin(Op::Add, xa, xb);
                let o = e.bin(Op::Ult, r, xa);
                // no overflow when the bounds say so
                let o = match e.um(xa).checked_add(e.um(xb)) {
                    Some(t) if t <= mask(w) => e.bool(false),
                    _ => o,
                };
                (r, o)
            }
            In::USubO => {
                let r = e.bin(Op::Sub, xa, xb);
                let o = e.bin(Op::Ult, xa, xb);
                (r, o)
            }
            In::UMulO => {
                let r = e.bin(Op::Mul, xa, xb);
                match e.um(xa).checked_mul(e.um(xb)) {
                    Some(t) if t <= mask(w) => (r, e.bool(false)),
                    _ => {
                        if let Some(k) = e.as_const(xb).or(e.as_const(xa)) {
                            let y = if e.as_const(xb).is_some() { xa } else { xb };
                            let o = if k == 0 {
                                e.bool(false)
                            } else {
                                let lim = e.konst(w, mask(w) / k);
                                e.bin(Op::Ult, lim, y)
                            };
                            (r, o)
                        } else if w <= 64 {
                            let p = e.zext(xa, 2 * w);
                            let q = e.zext(xb, 2 * w);
                            let t = e.bin(Op::Mul, p, q);
                            let h = e.extract(t, w, w);
                            let z = e.eq_const(h, 0);
                            (r, e.not(z))
                        } else {
                            return eng("wide umul overflow");
                        }
                    }
                }
            }
            _ => {
                if w > 64 {
                    return eng("wide signed overflow");
                }
                let op = match i {
                    In::SAddO => Op::Add,
                    In::SSubO => Op::Sub,
                    _ => Op::Mul,
                };
                let r = e.bin(op, xa, xb);
                let k = if op == Op::Mul { 2 * w } else { w + 1 };
                let p = e.sext(xa, k);
                let q = e.sext(xb, k);
                let t = e.bin(op, p, q);
                let back = e.sext(r, k);
                let eq = e.bin(Op::Eq, t, back);
                (r, e.not(eq))
            }
        };
        let (r, o) = (self.v(r), self.v(o));
        Ok(V::A(Rc::new(vec![r, o])))
    }

    // ------------------------------------------------------------------ run

    fn take(&mut self, s: &mut State, e: &Edge) {
        match e.moves.len() {
            0 => {}
            1 => {
                let v = self.get(s, &e.moves[0].1);
                s.top.regs[e.moves[0].0 as usize] = v;
            }
            _ => {
                let vals: Vec<V> = e.moves.iter().map(|(_, o)| self.get(s, o)).collect();
                for ((r, _), v) in e.moves.iter().zip(vals) {
                    s.top.regs[*r as usize] = v;
                }
            }
        }
        s.top.pc = e.pc;
    }

    pub fn run(&mut self, s: &mut State) -> End {
        loop {
            match self.frame(s) {
                Ok(()) => {}
                Err(e) => return e,
            }
        }
    }

    /// Execute instructions of the top frame until it changes.
    fn frame(&mut self, s: &mut State) -> R<()> {
        let code = s.top.code.clone();
        let depth = s.rest.len();
        let mut budget = 0u64;
        loop {
            let inst = &code.insts[s.top.pc as usize];
            if self.trace && std::env::var("SYMX_TRACE").is_ok() { eprintln!("{} {}: {:?}", self.m.funcs[s.top.fid as usize].name, s.top.pc, inst); }
            budget += 1;
            s.instrs += 1;
            if s.instrs > self.opts.max_instrs {
                return Err(End::Limit(self.m.funcs[s.top.fid as usize].name.clone()));
            }
            let next = s.top.pc + 1;
            macro_rules! g {
                ($o:expr) => {
                    self.get(s, $o)
                };
            }
            macro_rules! k {
                ($o:expr) => {
                    match $o {
                        Opd::R(r) => match &s.top.regs[*r as usize] {
                            V::I(x) => Some(*x),
                            _ => None,
                        },
                        Opd::K(V::I(x)) => Some(*x),
                        _ => None,
                    }
                };
            }
            macro_rules! seti {
                ($d:expr, $v:expr) => {{
                    let v: u64 = $v;
                    let r = &mut s.top.regs[*$d as usize];
                    if let V::I(x) = r {
                        *x = v;
                    } else {
                        *r = V::I(v);
                    }
                }};
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    s.top.regs[*$d as usize] = v;
                }};
            }
            match inst {
                Inst::Bin(op, w, d, a, b) => {
                    if *w <= 64 {
                        if let (Some(x), Some(y)) = (k!(a), k!(b)) {
                            let m = u64::MAX >> (64 - *w);
                            let r = match op {
                                Bop::Add => Some(x.wrapping_add(y) & m),
                                Bop::Sub => Some(x.wrapping_sub(y) & m),
                                Bop::Mul => Some(x.wrapping_mul(y) & m),
                                Bop::And => Some(x & y),
                                Bop::Or => Some(x | y),
                                Bop::Xor => Some(x ^ y),
                                Bop::Shl if y < *w as u64 => Some((x << y) & m),
                                Bop::LShr if y < *w as u64 => Some(x >> y),
                                Bop::UDiv if y != 0 => Some(x / y),
                                Bop::URem if y != 0 => Some(x % y),
                                _ => None,
                            };
                            if let Some(r) = r {
                                seti!(d, r);
                                s.top.pc = next;
                                continue;
                            }
                        }
                    }
                    let (a, b) = (g!(a), g!(b));
                    set!(d, self.bin(s, *op, *w, a, b)?);
                }
                Inst::Icmp(p, w, d, a, b) => {
                    if *w <= 64 {
                        if let (Some(x), Some(y)) = (k!(a), k!(b)) {
                            let sx = |v: u64| -> i64 { ((v << (64 - *w)) as i64) >> (64 - *w) };
                            let r = match p {
                                Pred::Eq => x == y,
                                Pred::Ne => x != y,
                                Pred::Ult => x < y,
                                Pred::Ule => x <= y,
                                Pred::Ugt => x > y,
                                Pred::Uge => x >= y,
                                Pred::Slt => sx(x) < sx(y),
                                Pred::Sle => sx(x) <= sx(y),
                                Pred::Sgt => sx(x) > sx(y),
                                Pred::Sge => sx(x) >= sx(y),
                            };
                            seti!(d, r as u64);
                            s.top.pc = next;
                            continue;
                        }
                    }
                    let (a, b) = (g!(a), g!(b));
                    set!(d, self.icmp(*p, *w, a, b));
                }
                Inst::Mov(d, a) => {
                    if !matches!(a, Opd::R(r) if *r == *d) {
                        set!(d, g!(a));
                    }
                }
                Inst::Cast(k, f, t, d, a) => {
                    let a = g!(a);
                    set!(d, self.cast(*k, *f, *t, a));
                }
                Inst::Gep(d, b, i, iw, sc) => {
                    if let (64, Some(x), Some(y)) = (*iw, k!(b), k!(i)) {
                        seti!(d, x.wrapping_add(y.wrapping_mul(*sc)));
                        s.top.pc = next;
                        continue;
                    }
                    let (b, i) = (g!(b), g!(i));
                    let v = match (&b, &i) {
                        (V::I(p), V::I(k)) => {
                            let k = sext128(*k as u128, *iw) as i64;
                            V::I(p.wrapping_add(k.wrapping_mul(*sc as i64) as u64))
                        }
                        _ => {
                            let p = self.x(&b, 64);
                            let k = self.x(&i, *iw);
                            let k = self.e.sext(k, 64);
                            let m = self.e.konst(64, *sc as u128);
                            let o = self.e.bin(Op::Mul, k, m);
                            let r = self.e.bin(Op::Add, p, o);
                            self.v(r)
                        }
                    };
                    set!(d, v);
                }
                Inst::Load(w, d, p) => {
                    if let Some(a) = k!(p) {
                        if *w <= 64 {
                            if let Some(o) = s.mem.obj(a >> 32) {
                                let off = a as u32 as usize;
                                let n = w.div_ceil(8) as usize;
                                if let Data::Flat(b, None) = &o.data {
                                    if off + n <= b.len() {
                                        let mut r = [0u8; 8];
                                        match n {
                                            8 => r.copy_from_slice(&b[off..off + 8]),
                                            1 => r[0] = b[off],
                                            _ => r[..n].copy_from_slice(&b[off..off + n]),
                                        }
                                        let v = u64::from_le_bytes(r) & (u64::MAX >> (64 - *w));
                                        seti!(d, v);
                                        s.top.pc = next;
                                        continue;
                                    }
                                }
                            }
                        }
                    }
                    let p = g!(p);
                    let v = match p {
                        V::I(a) => self.load(s, a, *w)?,
                        V::E(x) => self.load_sym(s, x, *w)?,
                        _ => return eng("load address"),
                    };
                    set!(d, v);
                }
                Inst::Store(w, v, p) => {
                    if let (Some(a), Some(x)) = (k!(p), k!(v)) {
                        if *w <= 64 {
                            if let Some(o) = s.mem.obj_mut(a >> 32) {
                                let off = a as u32 as usize;
                                let n = w.div_ceil(8) as usize;
                                if let Data::Flat(b, None) = &mut o.data {
                                    if off + n <= b.len() {
                                        let r = x.to_le_bytes();
                                        match n {
                                            8 => b[off..off + 8].copy_from_slice(&r),
                                            1 => b[off] = r[0],
                                            _ => b[off..off + n].copy_from_slice(&r[..n]),
                                        }
                                        s.top.pc = next;
                                        continue;
                                    }
                                }
                            }
                        }
                    }
                    let (v, p) = (g!(v), g!(p));
                    let a = self.cv(s, &p)? as u64;
                    self.store(s, a, *w, &v)?;
                }
                Inst::Br(e) => {
                    self.take(s, e);
                    continue;
                }
                Inst::CondBr(c, t, f) => {
                    if let Some(k) = k!(c) {
                        self.take(s, if k & 1 == 1 { t } else { f });
                        continue;
                    }
                    let b = match g!(c) {
                        V::I(k) => k & 1 == 1,
                        V::E(x) => self.branch(s, x)?,
                        _ => return eng("branch condition"),
                    };
                    self.take(s, if b { t } else { f });
                    continue;
                }
                Inst::Switch(w, v, cases, edges) => {
                    let v = g!(v);
                    let k = match Self::conc(&v) {
                        Some(k) => match cases.binary_search_by_key(&k, |c| c.0) {
                            Ok(i) => cases[i].1,
                            Err(_) => 0,
                        },
                        None => {
                            let x = self.x(&v, *w);
                            self.switch(s, x, cases)?
                        }
                    };
                    self.take(s, &edges[k as usize]);
                    continue;
                }
                Inst::Select(w, d, c, a, b) => {
                    let (mut c, a, b) = (g!(c), g!(a), g!(b));
                    if let (V::E(_), V::A(_)) = (&c, &a) {
                        let k = self.cv(s, &c)?;
                        c = V::I(k as u64 & 1);
                    }
                    set!(d, self.select(*w, c, a, b)?);
                }
                Inst::Alloca(d, off) => {
                    set!(d, V::I(s.top.stack + *off as u64));
                }
                Inst::Extract(d, a, ix) => {
                    let mut v = g!(a);
                    for i in ix.iter() {
                        v = match &v {
                            V::A(l) => l[*i as usize].clone(),
                            _ => V::I(0),
                        };
                    }
                    if let V::E(x) = v {
                        v = self.simp(s, x);
                    }
                    set!(d, v);
                }
                Inst::Insert(d, a, v, ix) => {
                    let (a, v) = (g!(a), g!(v));
                    fn put(a: &V, v: V, ix: &[u32]) -> V {
                        if ix.is_empty() {
                            return v;
                        }
                        let mut l = match a {
                            V::A(l) => (**l).clone(),
                            _ => vec![V::I(0); ix[0] as usize + 1],
                        };
                        while l.len() <= ix[0] as usize {
                            l.push(V::I(0));
                        }
                        l[ix[0] as usize] = put(&l[ix[0] as usize].clone(), v, &ix[1..]);
                        V::A(Rc::new(l))
                    }
                    set!(d, put(&a, v, ix));
                }
                Inst::Ret(o) => {
                    let v = o.as_ref().map(|o| g!(o));
                    if s.top.stack != 0 {
                        if let Err(e) = s.mem.free(s.top.stack) {
                            return eng(e);
                        }
                    }
                    match s.rest.pop() {
                        None => return Err(End::Done),
                        Some(f) => {
                            let f = Rc::try_unwrap(f).unwrap_or_else(|f| (*f).clone());
                            let ret = s.top.ret;
                            s.top = f;
                            if let Some(r) = ret {
                                s.top.regs[r as usize] = v.unwrap_or(V::I(0));
                            }
                        }
                    }
                    return Ok(());
                }
                Inst::Call(d, callee, args, rw) => {
                    let mut fid = None;
                    match callee {
                        Callee::Fn(f) => fid = Some(*f),
                        Callee::In(i, rw, aw) => {
                            let r = self.intrinsic(s, *i, *rw, *aw, args)?;
                            if let Some(d) = d {
                                set!(d, r);
                            }
                        }
                        Callee::Ext(x) => {
                            let r = self.external(s, *x, args)?;
                            if let Some(d) = d {
                                set!(d, r);
                            }
                        }
                        Callee::Ind(o) => {
                            let a = g!(o);
                            let a = self.cv(s, &a)? as u64;
                            if a >= EXT_BASE {
                                let r = self.external(s, ((a - EXT_BASE) / 16) as u32, args)?;
                                if let Some(d) = d {
                                    set!(d, r);
                                }
                            } else if a >= FN_BASE {
                                fid = Some(((a - FN_BASE) / 16) as u32);
                            } else {
                                return eng(format!("indirect call to {a:#x}"));
                            }
                        }
                        Callee::Asm => {
                            // cpuid and friends: report no features
                            let _ = rw;
                            if let Some(d) = d {
                                set!(d, V::A(Rc::new(vec![V::I(0); 8])));
                            }
                        }
                    }
                    if let Some(f) = fid {
                        if self.m.funcs[f as usize].noreturn {
                            return Err(End::Panic(self.m.funcs[f as usize].name.clone()));
                        }
                        if self.phf[f as usize] && args.len() == 3 {
                            let a: Vec<V> = args.iter().map(|o| self.get(s, o)).collect();
                            if self.phf_miss(s, &a)? {
                                if let Some(d) = d {
                                    set!(d, V::A(Rc::new(vec![V::I(0), V::I(0)])));
                                }
                                s.top.pc = next;
                                continue;
                            }
                        }
                        if depth > self.opts.max_depth {
                            return Err(End::Limit(format!("recursion:{}", self.m.funcs[f as usize].name)));
                        }
                        let code = match self.m.code(f) {
                            Ok(c) => c,
                            Err(e) => return eng(e),
                        };
                        self.executed[f as usize] = true;
                        let mut regs = Vec::with_capacity(code.nregs as usize);
                        for a in args.iter().take(code.nparams as usize) {
                            regs.push(g!(a));
                        }
                        regs.resize(code.nregs as usize, V::I(0));
                        let stack =
                            if code.frame > 0 { s.mem.alloc(Obj::zeroed(code.frame as u64)) } else { 0 };
                        let nf = Frame { code, fid: f, regs, pc: 0, stack, ret: *d };
                        s.top.pc = next;
                        let old = std::mem::replace(&mut s.top, nf);
                        s.rest.push(Rc::new(old));
                        return Ok(());
                    }
                }
                Inst::VBin(op, n, lw, d, a, b) => {
                    let (a, b) = (g!(a), g!(b));
                    let (la, lb) = (self.lanes(&a, *n, *lw), self.lanes(&b, *n, *lw));
                    let mut r = vec![];
                    for (x, y) in la.into_iter().zip(lb) {
                        r.push(self.bin(s, *op, *lw, x, y)?);
                    }
                    set!(d, self.join(&r, *lw));
                }
                Inst::VIcmp(p, n, lw, d, a, b) => {
                    let (a, b) = (g!(a), g!(b));
                    if let (Some(x), Some(y), 8, Pred::Eq) = (Self::conc(&a), Self::conc(&b), *lw, *p) {
                        let (x, y) = (x.to_le_bytes(), y.to_le_bytes());
                        let mut r = 0u64;
                        for i in 0..*n as usize {
                            r |= ((x[i] == y[i]) as u64) << i;
                        }
                        set!(d, V::I(r));
                    } else {
                        let (la, lb) = (self.lanes(&a, *n, *lw), self.lanes(&b, *n, *lw));
                        let r: Vec<V> = la.into_iter().zip(lb).map(|(x, y)| self.icmp(*p, *lw, x, y)).collect();
                        set!(d, self.join(&r, 1));
                    }
                }
                Inst::VCast(k, n, f, t, d, a) => {
                    let a = g!(a);
                    let la = self.lanes(&a, *n, *f);
                    let r: Vec<V> = la.into_iter().map(|x| self.cast(*k, *f, *t, x)).collect();
                    set!(d, self.join(&r, *t));
                }
                Inst::VSelect(n, lw, d, c, a, b) => {
                    let (c, a, b) = (g!(c), g!(a), g!(b));
                    let (lc, la, lb) = (self.lanes(&c, *n, 1), self.lanes(&a, *n, *lw), self.lanes(&b, *n, *lw));
                    let mut r = vec![];
                    for ((c, x), y) in lc.into_iter().zip(la).zip(lb) {
                        r.push(self.select(*lw, c, x, y)?);
                    }
                    set!(d, self.join(&r, *lw));
                }
                Inst::ExtElt(n, lw, d, v, i) => {
                    let (v, i) = (g!(v), g!(i));
                    let i = self.cv(s, &i)? as usize;
                    let l = self.lanes(&v, *n, *lw);
                    set!(d, l[i].clone());
                }
                Inst::InsElt(n, lw, d, v, x, i) => {
                    let (v, x, i) = (g!(v), g!(x), g!(i));
                    let i = self.cv(s, &i)? as usize;
                    let mut l = self.lanes(&v, *n, *lw);
                    l[i] = x;
                    set!(d, self.join(&l, *lw));
                }
                Inst::Shuffle(n, lw, d, a, b, m) => {
                    let (a, b) = (g!(a), g!(b));
                    let mut l = self.lanes(&a, *n, *lw);
                    l.extend(self.lanes(&b, *n, *lw));
                    let r: Vec<V> = m.iter().map(|i| l[*i as usize].clone()).collect();
                    set!(d, self.join(&r, *lw));
                }
                Inst::FBin(o, w, d, a, b) => {
                    let (a, b) = (g!(a), g!(b));
                    set!(d, self.fbin(s, *o, *w, a, b)?);
                }
                Inst::FNeg(w, d, a) => {
                    let a = g!(a);
                    let v = self.bin(s, Bop::Xor, *w, a, V::I(1u64 << (*w - 1)))?;
                    set!(d, v);
                }
                Inst::FCmp(p, w, d, a, b) => {
                    let (a, b) = (g!(a), g!(b));
                    set!(d, self.fcmp(p, *w, a, b));
                }
                Inst::Rmw(op, w, d, p, v) => {
                    let (p, v) = (g!(p), g!(v));
                    let a = self.cv(s, &p)? as u64;
                    let old = self.load(s, a, *w)?;
                    let nv = match op {
                        0 => v,
                        1 => self.bin(s, Bop::Add, *w, old.clone(), v)?,
                        2 => self.bin(s, Bop::Sub, *w, old.clone(), v)?,
                        3 => self.bin(s, Bop::And, *w, old.clone(), v)?,
                        _ => self.bin(s, Bop::Or, *w, old.clone(), v)?,
                    };
                    self.store(s, a, *w, &nv)?;
                    set!(d, old);
                }
                Inst::CmpXchg(w, d, p, c, n) => {
                    let (p, c, n) = (g!(p), g!(c), g!(n));
                    let a = self.cv(s, &p)? as u64;
                    let old = self.load(s, a, *w)?;
                    let ok = match self.icmp(Pred::Eq, *w, old.clone(), c) {
                        V::I(k) => k == 1,
                        V::E(x) => self.branch(s, x)?,
                        _ => false,
                    };
                    if ok {
                        self.store(s, a, *w, &n)?;
                    }
                    set!(d, V::A(Rc::new(vec![old, V::I(ok as u64)])));
                }
                Inst::Unreachable => return eng("unreachable executed"),
                Inst::Unsup(e) => return eng(format!("unsupported: {e}")),
            }
            s.top.pc = next;
            if budget > 1_000_000 {
                return Ok(());
            }
        }
    }

    /// phf::Map::get_entry with a symbolic key.  The hash is not inverted; instead the path is split on
    /// "key equals entry i" for the entries actually stored in the map.  An equal key is concrete and goes
    /// through the real function; a key equal to no entry is a miss (returns true here).
    fn phf_miss(&mut self, s: &mut State, a: &[V]) -> R<bool> {
        let map = self.cv(s, &a[0])? as u64;
        let kp = self.cv(s, &a[1])? as u64;
        let kn = self.cv(s, &a[2])? as usize;
        let key = self.bytes_of(s, kp, kn)?;
        if key.iter().all(|v| Self::conc(v).is_some()) {
            return Ok(false);
        }
        let ep = self.load(s, map + 16, 64)?;
        let en = self.load(s, map + 24, 64)?;
        let (V::I(ep), V::I(en)) = (ep, en) else { return eng("phf layout") };
        let o = self.obj(s, ep, 0)?;
        if en == 0 || o.size % en != 0 {
            return eng("phf layout");
        }
        let stride = o.size / en;
        drop(o);
        for i in 0..en {
            let p = self.load(s, ep + i * stride, 64)?;
            let n = self.load(s, ep + i * stride + 8, 64)?;
            let (V::I(p), V::I(n)) = (p, n) else { return eng("phf layout") };
            if n as usize != kn {
                continue;
            }
            let w = self.bytes_of(s, p, kn)?;
            let mut c = self.e.bool(true);
            for j in 0..kn {
                let (x, y) = (self.x(&key[j], 8), self.x(&w[j], 8));
                let t = self.e.bin(Op::Eq, x, y);
                c = self.e.bin(Op::And, c, t);
                if self.e.as_const(c) == Some(0) {
                    break;
                }
            }
            let hit = match self.e.as_const(c) {
                Some(k) => k == 1,
                None => {
                    // cheap refutation byte by byte before asking the solver
                    let mut possible = true;
                    for j in 0..kn {
                        if let V::E(x) = key[j] {
                            let n = self.e.nodes[x as usize];
                            if n.op == Op::Var {
                                let V::I(k) = w[j] else { continue };
                                if !dom_has(&s.dom[n.imm as usize], k as u8) {
                                    possible = false;
                                    break;
                                }
                            }
                        }
                    }
                    possible && self.branch(s, c)?
                }
            };
            if hit {
                // make the bytes concrete
                for v in &key {
                    self.cv(s, v)?;
                }
                return Ok(false);
            }
        }
        Ok(true)
    }

    fn complex(&self, x: X, limit: usize) -> bool {
        let mut seen = HashSet::new();
        let mut st = vec![x];
        while let Some(y) = st.pop() {
            if y == 0 || !seen.insert(y) {
                continue;
            }
            if seen.len() > limit {
                return true;
            }
            let n = &self.e.nodes[y as usize];
            if matches!(n.op, Op::Const | Op::Var) {
                continue;
            }
            st.push(n.a);
            st.push(n.b);
            st.push(n.c);
        }
        false
    }

    fn switch(&mut self, s: &mut State, x: X, cases: &[(u128, u32)]) -> R<u32> {
        let vs = self.e.vars[x as usize];
        let eff = vs & !s.single;
        let find = |k: u128| match cases.binary_search_by_key(&k, |c| c.0) {
            Ok(i) => cases[i].1,
            Err(_) => 0,
        };
        if let Some(k) = s.subst.get(&x) {
            return Ok(find(*k));
        }
        if eff.count_ones() == 1 && s.entangled & eff == 0 {
            let v = eff.trailing_zeros();
            let mut groups: Vec<(u32, Dom)> = vec![];
            let mut model = s.model.clone();
            for b in dom_iter(&s.dom[v as usize]) {
                model[v as usize] = b;
                let mut memo = HashMap::default();
                let t = find(self.e.eval(x, &model, &mut memo));
                match groups.iter_mut().find(|(k, _)| *k == t) {
                    Some((_, d)) => d[(b >> 6) as usize] |= 1 << (b & 63),
                    None => {
                        let mut d = [0; 4];
                        d[(b >> 6) as usize] |= 1 << (b & 63);
                        groups.push((t, d));
                    }
                }
            }
            self.st.table_decisions += 1;
            let cur = find(self.evalx(s, x));
            let mut mine = FULL;
            for (t, d) in groups {
                if t == cur {
                    mine = d;
                    continue;
                }
                let mut o = s.clone();
                o.forks += 1;
                self.st.forks += 1;
                self.set_dom(&mut o, v, d);
                o.model[v as usize] = dom_first(&d);
                self.work.push(o);
            }
            self.set_dom(s, v, mine);
            return Ok(cur);
        }
        // condition "goes to the target the model picks"
        let cur = find(self.evalx(s, x));
        let w = self.e.w(x);
        let mut c = self.e.bool(false);
        for (k, t) in cases {
            if (*t == cur) == (cur != 0) {
                let kk = self.e.konst(w, *k);
                let q = self.e.bin(Op::Eq, x, kk);
                c = self.e.bin(Op::Or, c, q);
            }
        }
        if cur == 0 {
            // default: none of the cases with another target
            let mut any = self.e.bool(false);
            for (k, t) in cases {
                if *t != 0 {
                    let kk = self.e.konst(w, *k);
                    let q = self.e.bin(Op::Eq, x, kk);
                    any = self.e.bin(Op::Or, any, q);
                }
            }
            c = self.e.not(any);
        }
        if self.e.as_const(c).is_none() && !self.branch(s, c)? {
            return eng("switch");
        }
        Ok(cur)
    }

    fn minmax(&mut self, p: Pred, w: u32, a: V, b: V) -> R<V> {
        let c = self.icmp(p, w, a.clone(), b.clone());
        self.select(w, c, a, b)
    }

    fn intrinsic(&mut self, s: &mut State, i: In, rw: u32, aw: u32, args: &[Opd]) -> R<V> {
        let a: Vec<V> = args.iter().map(|o| self.get(s, o)).collect();
        Ok(match i {
            In::Nop => V::I(0),
            In::Assume => V::I(0),
            In::Tls | In::Expect => a[0].clone(),
            In::IsConst => V::I(0),
            In::Memcpy => {
                let n = self.cv(s, &a[2])? as u64;
                if n == 0 {
                    return Ok(V::I(0));
                }
                let d = self.cv(s, &a[0])? as u64;
                let p = self.cv(s, &a[1])? as u64;
                let o = self.obj(s, p, n)?;
                let (b, y) = o.slice((p & 0xffff_ffff) as usize, n as usize);
                drop(o);
                self.obj_mut(s, d, n)?.put((d & 0xffff_ffff) as usize, &b, &y);
                V::I(0)
            }
            In::Memset => {
                let n = self.cv(s, &a[2])? as u64;
                if n == 0 {
                    return Ok(V::I(0));
                }
                let d = self.cv(s, &a[0])? as u64;
                let off = (d & 0xffff_ffff) as usize;
                match Self::conc(&a[1]) {
                    Some(k) => {
                        let o = self.obj_mut(s, d, n)?;
                        if k == 0 && off == 0 && n == o.size {
                            *o = Obj::zeroed(n);
                        } else {
                            o.write(off, &vec![k as u8; n as usize]);
                        }
                    }
                    None => {
                        let x = self.x(&a[1], 8);
                        let o = self.obj_mut(s, d, n)?;
                        for k in 0..n as usize {
                            o.set(off + k, 0, x);
                        }
                    }
                }
                V::I(0)
            }
            In::UMin => self.minmax(Pred::Ult, rw, a[0].clone(), a[1].clone())?,
            In::UMax => self.minmax(Pred::Ugt, rw, a[0].clone(), a[1].clone())?,
            In::SMin => self.minmax(Pred::Slt, rw, a[0].clone(), a[1].clone())?,
            In::SMax => self.minmax(Pred::Sgt, rw, a[0].clone(), a[1].clone())?,
            In::FshL | In::FshR => {
                let k = self.cv(s, &a[2])? as u32 % rw;
                if let (Some(h), Some(l)) = (Self::conc(&a[0]), Self::conc(&a[1])) {
                    let r = if i == In::FshL {
                        if k == 0 {
                            h
                        } else {
                            (h << k) | (l >> (rw - k))
                        }
                    } else if k == 0 {
                        l
                    } else {
                        (h << (rw - k)) | (l >> k)
                    };
                    return Ok(V::k(r & mask(rw)));
                }
                let (h, l) = (self.x(&a[0], rw), self.x(&a[1], rw));
                let k = if i == In::FshL { k } else { (rw - k) % rw };
                if k == 0 {
                    return Ok(if i == In::FshL { a[0].clone() } else { a[1].clone() });
                }
                let hp = self.e.extract(h, 0, rw - k);
                let lp = self.e.extract(l, rw - k, k);
                let r = self.e.concat(hp, lp);
                self.v(r)
            }
            In::Cttz | In::Ctlz | In::Ctpop => {
                let w = rw;
                if let Some(k) = Self::conc(&a[0]) {
                    return Ok(V::I(match i {
                        In::Cttz => {
                            if k == 0 {
                                w
                            } else {
                                k.trailing_zeros()
                            }
                        }
                        In::Ctlz => {
                            if k == 0 {
                                w
                            } else {
                                k.leading_zeros() - (128 - w)
                            }
                        }
                        _ => k.count_ones(),
                    } as u64));
                }
                let x = self.x(&a[0], w);
                let mut r = self.e.konst(w, if i == In::Ctpop { 0 } else { w as u128 });
                for b in 0..w {
                    let pos = if i == In::Cttz { w - 1 - b } else { b };
                    let bit = self.e.extract(x, pos, 1);
                    if i == In::Ctpop {
                        let z = self.e.zext(bit, w);
                        r = self.e.bin(Op::Add, r, z);
                    } else {
                        let k = if i == In::Cttz { pos } else { w - 1 - pos };
                        let kx = self.e.konst(w, k as u128);
                        r = self.e.ite(bit, kx, r);
                    }
                }
                self.v(r)
            }
            In::Bswap => {
                let n = rw / 8;
                let l = self.lanes(&a[0], n, 8);
                let r: Vec<V> = l.into_iter().rev().collect();
                self.join(&r, 8)
            }
            In::Bitrev => {
                let l = self.lanes(&a[0], rw, 1);
                let r: Vec<V> = l.into_iter().rev().collect();
                self.join(&r, 1)
            }
            In::UAddO | In::USubO | In::UMulO | In::SAddO | In::SSubO | In::SMulO => {
                self.overflow(s, i, rw, a[0].clone(), a[1].clone())?
            }
            In::USubSat => {
                let c = self.icmp(Pred::Ult, rw, a[0].clone(), a[1].clone());
                let d = self.bin(s, Bop::Sub, rw, a[0].clone(), a[1].clone())?;
                self.select(rw, c, V::I(0), d)?
            }
            In::UAddSat => {
                let o = self.overflow(s, In::UAddO, rw, a[0].clone(), a[1].clone())?;
                let V::A(o) = o else { return eng("sat") };
                self.select(rw, o[1].clone(), V::k(mask(rw)), o[0].clone())?
            }
            In::SAddSat | In::SSubSat => {
                let k = if i == In::SAddSat { In::SAddO } else { In::SSubO };
                let o = self.overflow(s, k, rw, a[0].clone(), a[1].clone())?;
                let V::A(o) = o else { return eng("sat") };
                let neg = self.icmp(Pred::Slt, rw, a[0].clone(), V::I(0));
                let lim = self.select(rw, neg, V::k(1u128 << (rw - 1)), V::k(mask(rw) >> 1))?;
                self.select(rw, o[1].clone(), lim, o[0].clone())?
            }
            In::Ucmp | In::Scmp => {
                let (lt, gt) =
                    if i == In::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, aw, a[0].clone(), a[1].clone());
                let g = self.icmp(gt, aw, a[0].clone(), a[1].clone());
                let r = self.select(rw, g, V::I(1), V::I(0))?;
                self.select(rw, l, V::k(mask(rw)), r)?
            }
            In::FToUiSat => self.cast(Cast::FToUi, aw, rw, a[0].clone()),
            In::FToSiSat => self.cast(Cast::FToSi, aw, rw, a[0].clone()),
            In::Abs => {
                let neg = self.icmp(Pred::Slt, rw, a[0].clone(), V::I(0));
                let m = self.bin(s, Bop::Sub, rw, V::I(0), a[0].clone())?;
                self.select(rw, neg, m, a[0].clone())?
            }
            In::Fabs => self.bin(s, Bop::And, rw, a[0].clone(), V::k(mask(rw) >> 1))?,
            In::Copysign => {
                let m = self.bin(s, Bop::And, rw, a[0].clone(), V::k(mask(rw) >> 1))?;
                let g = self.bin(s, Bop::And, rw, a[1].clone(), V::k(1u128 << (rw - 1)))?;
                self.bin(s, Bop::Or, rw, m, g)?
            }
            In::MinNum | In::MaxNum => {
                let p = if i == In::MinNum { "olt" } else { "ogt" };
                let c = self.fcmp(p, rw, a[0].clone(), a[1].clone());
                let nb = self.fcmp("uno", rw, a[1].clone(), a[1].clone());
                let r = self.select(rw, c, a[0].clone(), a[1].clone())?;
                self.select(rw, nb, a[0].clone(), r)?
            }
            In::Round | In::Floor | In::Ceil | In::FTruncI | In::RoundEven | In::Sqrt => {
                let op = match i {
                    In::Round => Op::FRoundAway,
                    In::Floor => Op::FFloor,
                    In::Ceil => Op::FCeil,
                    In::FTruncI => Op::FTruncI,
                    In::RoundEven => Op::FRoundEven,
                    _ => Op::FSqrt,
                };
                let x = self.x(&a[0], rw);
                let r = self.e.fun(op, x, rw);
                self.v(r)
            }
            In::Libm1(k) => {
                let v = self.cv(s, &a[0])?;
                V::k(libm1(k, rw, v))
            }
            In::Libm2(k) => {
                let x = self.cv(s, &a[0])?;
                let y = self.cv(s, &a[1])?;
                V::k(unsafe {
                    if k == 1 {
                        let n = y as u32 as i32;
                        if rw == 32 {
                            f32::from_bits(x as u32).powi(n).to_bits() as u128
                        } else {
                            f64::from_bits(x as u64).powi(n).to_bits() as u128
                        }
                    } else if rw == 32 {
                        powf(f32::from_bits(x as u32), f32::from_bits(y as u32)).to_bits() as u128
                    } else {
                        pow(f64::from_bits(x as u64), f64::from_bits(y as u64)).to_bits() as u128
                    }
                })
            }
            In::Fma => {
                let (x, y, z) = (self.cv(s, &a[0])?, self.cv(s, &a[1])?, self.cv(s, &a[2])?);
                V::k(if rw == 32 {
                    f32::from_bits(x as u32).mul_add(f32::from_bits(y as u32), f32::from_bits(z as u32)).to_bits() as u128
                } else {
                    f64::from_bits(x as u64).mul_add(f64::from_bits(y as u64), f64::from_bits(z as u64)).to_bits() as u128
                })
            }
            In::Trap => return Err(End::Panic("llvm.trap".into())),
            In::VReduceOr => {
                let n = aw / rw;
                let l = self.lanes(&a[0], n, rw);
                let mut r = l[0].clone();
                for v in l.into_iter().skip(1) {
                    r = self.bin(s, Bop::Or, rw, r, v)?;
                }
                r
            }
        })
    }

    fn fresh(&mut self, s: &mut State) -> R<X> {
        if s.nvars >= 128 {
            return eng("more than 128 symbolic bytes");
        }
        let v = s.nvars;
        s.nvars += 1;
        Rc::make_mut(&mut s.dom).push(FULL);
        s.model.push(0);
        Ok(self.e.var(v))
    }

    fn malloc(&mut self, s: &mut State, n: u64) -> R<u64> {
        if n > (1 << 30) {
            return eng(format!("allocation of {n} bytes"));
        }
        Ok(s.mem.alloc(Obj::zeroed(n.max(1))))
    }

    fn external(&mut self, s: &mut State, x: u32, args: &[Opd]) -> R<V> {
        let a: Vec<V> = args.iter().map(|o| self.get(s, o)).collect();
        let k = self.ext_kind[x as usize];
        Ok(match k {
            1 => {
                // symx_bytes(ptr, n)
                let p = self.cv(s, &a[0])? as u64;
                let n = self.cv(s, &a[1])? as u64;
                for i in 0..n {
                    let v = self.fresh(s)?;
                    self.obj_mut(s, p + i, 1)?.set(((p + i) & 0xffff_ffff) as usize, 0, v);
                }
                V::I(0)
            }
            2 => {
                // symx_assume(bool)
                match &a[0] {
                    V::I(k) => {
                        if k & 1 == 0 {
                            return Err(End::Pruned);
                        }
                    }
                    V::E(x) => {
                        let c = self.e.extract(*x, 0, 1);
                        match self.e.as_const(c) {
                            Some(0) => return Err(End::Pruned),
                            Some(_) => {}
                            None => self.assume(s, c)?,
                        }
                    }
                    _ => return eng("assume"),
                }
                V::I(0)
            }
            3 => {
                // symx_check(bool, id ptr, id len)
                let p = self.cv(s, &a[1])? as u64;
                let n = self.cv(s, &a[2])? as usize;
                let id = self.conc_str(s, p, n)?;
                match &a[0] {
                    V::I(k) => {
                        if k & 1 == 0 {
                            self.st.checks.entry(id.clone()).or_default()[2] += 1;
                            return Err(End::Fail(id));
                        }
                        self.st.checks.entry(id).or_default()[0] += 1;
                    }
                    V::E(x) => {
                        let c = self.e.extract(*x, 0, 1);
                        match self.e.as_const(c) {
                            Some(0) => {
                                self.st.checks.entry(id.clone()).or_default()[2] += 1;
                                return Err(End::Fail(id));
                            }
                            Some(_) => self.st.checks.entry(id).or_default()[0] += 1,
                            None => self.obligation(s, c, id)?,
                        }
                    }
                    _ => return eng("check"),
                }
                V::I(0)
            }
            4 => {
                Rc::make_mut(&mut s.log).push(a[0].clone());
                V::I(0)
            }
            5 => {
                // symx_reach(id ptr, len)
                let p = self.cv(s, &a[0])? as u64;
                let n = self.cv(s, &a[1])? as usize;
                let id = self.conc_str(s, p, n)?;
                *self.st.reach.entry(id).or_insert(0) += 1;
                V::I(0)
            }
            6 => {
                let v = self.cv(s, &a[0])?;
                V::k(v)
            }
            7 => V::I(0), // symx_native
            8 => {
                // symx_note(ptr, len)
                let p = self.cv(s, &a[0])? as u64;
                let n = self.cv(s, &a[1])? as usize;
                let b = self.bytes_of(s, p, n)?;
                Rc::make_mut(&mut s.notes).push(b);
                V::I(0)
            }
            9 => {
                // symx_param(i)
                let i = self.cv(s, &a[0])? as usize;
                V::I(self.opts.params.get(i).copied().unwrap_or(0))
            }
            20 => {
                let n = self.cv(s, &a[0])? as u64;
                V::I(self.malloc(s, n)?)
            }
            21 => {
                let n = self.cv(s, &a[0])? as u64;
                let m = self.cv(s, &a[1])? as u64;
                V::I(self.malloc(s, n * m)?)
            }
            22 => {
                let p = self.cv(s, &a[0])? as u64;
                let n = self.cv(s, &a[1])? as u64;
                let q = self.malloc(s, n)?;
                if p != 0 {
                    let o = self.obj(s, p, 0)?;
                    let m = o.size.min(n) as usize;
                    let (b, y) = o.slice(0, m);
                    drop(o);
                    self.obj_mut(s, q, m as u64)?.put(0, &b, &y);
                    if let Err(e) = s.mem.free(p) {
                        return eng(e);
                    }
                }
                V::I(q)
            }
            23 => {
                let p = self.cv(s, &a[0])? as u64;
                if p != 0 {
                    if let Err(e) = s.mem.free(p) {
                        return eng(e);
                    }
                }
                V::I(0)
            }
            24 => {
                let p = self.cv(s, &a[0])? as u64;
                let n = self.cv(s, &a[2])? as u64;
                let q = self.malloc(s, n)?;
                self.store(s, p, 64, &V::I(q))?;
                V::I(0)
            }
            25 | 26 => {
                // bcmp / memcmp
                let n = self.cv(s, &a[2])? as usize;
                if n == 0 {
                    return Ok(V::I(0));
                }
                let p = self.cv(s, &a[0])? as u64;
                let q = self.cv(s, &a[1])? as u64;
                let (b, c) = (self.bytes_of(s, p, n)?, self.bytes_of(s, q, n)?);
                if b.iter().chain(c.iter()).all(|v| matches!(v, V::I(_))) {
                    for i in 0..n {
                        let (V::I(x), V::I(y)) = (&b[i], &c[i]) else { unreachable!() };
                        if x != y {
                            return Ok(V::I(if x < y { 0xffff_ffff } else { 1 }));
                        }
                    }
                    return Ok(V::I(0));
                }
                let mut r = self.e.konst(32, 0);
                let one = self.e.konst(32, 1);
                let neg = self.e.konst(32, 0xffff_ffff);
                if k == 25 {
                    let mut eq = self.e.bool(true);
                    for i in 0..n {
                        let (x, y) = (self.x(&b[i], 8), self.x(&c[i], 8));
                        let t = self.e.bin(Op::Eq, x, y);
                        eq = self.e.bin(Op::And, eq, t);
                        if self.e.as_const(eq) == Some(0) {
                            break;
                        }
                    }
                    r = self.e.ite(eq, r, one);
                } else {
                    for i in (0..n).rev() {
                        let (x, y) = (self.x(&b[i], 8), self.x(&c[i], 8));
                        let t = self.e.bin(Op::Eq, x, y);
                        let l = self.e.bin(Op::Ult, x, y);
                        let d = self.e.ite(l, neg, one);
                        r = self.e.ite(t, r, d);
                    }
                }
                self.v(r)
            }
            27 => {
                let p = self.cv(s, &a[0])? as u64;
                let mut n = 0;
                loop {
                    let v = self.load(s, p + n, 8)?;
                    if self.cv(s, &v)? == 0 {
                        break;
                    }
                    n += 1;
                }
                V::I(n)
            }
            30 => {
                // write(fd, buf, n): pretend everything was written
                let n = self.cv(s, &a[2])?;
                V::k(n)
            }
            31 => V::I(0),
            32 => V::I(self.errno),
            10 => {
                // symx_file(ptr, len): what the next file opened contains
                let p = self.cv(s, &a[0])? as u64;
                let n = self.cv(s, &a[1])? as u64;
                s.file = Some((p, n, 0));
                V::I(0)
            }
            36 => V::k(match s.file {
                Some((p, n, _)) => {
                    s.file = Some((p, n, 0));
                    3
                }
                None => 0xffff_ffff,
            }),
            // the file exists; the buffer stays zeroed (size hint 0)
            38 => V::k(if s.file.is_some() { 0 } else { 0xffff_ffff }),
            37 => {
                let fd = self.cv(s, &a[0])? as u32;
                let q = self.cv(s, &a[1])? as u64;
                let n = self.cv(s, &a[2])? as u64;
                match s.file {
                    Some((p, len, pos)) if fd == 3 => {
                        let m = n.min(len - pos);
                        if m > 0 {
                            let o = self.obj(s, p + pos, m)?;
                            let off = ((p + pos) & 0xffff_ffff) as usize;
                            let (b, y) = o.slice(off, m as usize);
                            drop(o);
                            self.obj_mut(s, q, m)?.put((q & 0xffff_ffff) as usize, &b, &y);
                        }
                        s.file = Some((p, len, pos + m));
                        V::I(m)
                    }
                    _ => V::I(u64::MAX),
                }
            }
            33 => V::I(u64::MAX),
            34 => {
                // getrandom-like: fixed bytes
                let p = self.cv(s, &a[0])? as u64;
                let n = self.cv(s, &a[1])? as u64;
                for i in 0..n {
                    let b = (i as u8).wrapping_mul(37).wrapping_add(11);
                    self.obj_mut(s, p + i, 1)?.set(((p + i) & 0xffff_ffff) as usize, b, 0);
                }
                V::I(n)
            }
            35 => {
                // syscall: only getrandom (318) is expected
                let nr = self.cv(s, &a[0])?;
                if nr == 332 {
                    // statx: the file exists; the buffer stays zeroed (size hint 0)
                    return Ok(V::k(if s.file.is_some() { 0 } else { u64::MAX as _ }));
                }
                if nr != 318 {
                    return eng(format!("system call {nr}"));
                }
                let p = self.cv(s, &a[1])? as u64;
                let n = self.cv(s, &a[2])? as u64;
                for i in 0..n {
                    let b = (i as u8).wrapping_mul(37).wrapping_add(11);
                    self.obj_mut(s, p + i, 1)?.set(((p + i) & 0xffff_ffff) as usize, b, 0);
                }
                V::I(n)
            }
            40..=49 => {
                let v = self.cv(s, &a[0])?;
                V::k(libm1(k - 40, 32, v))
            }
            50 => {
                let x = self.cv(s, &a[0])?;
                let y = self.cv(s, &a[1])?;
                V::k(unsafe { powf(f32::from_bits(x as u32), f32::from_bits(y as u32)).to_bits() as u128 })
            }
            51..=54 => {
                let x = f32::from_bits(self.cv(s, &a[0])? as u32);
                let y = f32::from_bits(self.cv(s, &a[1])? as u32);
                V::k(match k {
                    51 => x % y,
                    52 => x.atan2(y),
                    53 => x.hypot(y),
                    _ => x.powf(y),
                }
                .to_bits() as u128)
            }
            55..=58 => {
                let x = f64::from_bits(self.cv(s, &a[0])? as u64);
                let y = f64::from_bits(self.cv(s, &a[1])? as u64);
                V::k(match k {
                    55 => x % y,
                    56 => x.atan2(y),
                    57 => x.hypot(y),
                    _ => x.powf(y),
                }
                .to_bits() as u128)
            }
            70..=79 => {
                let v = self.cv(s, &a[0])?;
                V::k(libm1(k - 60, 32, v))
            }
            60..=69 => {
                let v = self.cv(s, &a[0])?;
                V::k(libm1(k - 60, 64, v))
            }
            99 => return Err(End::Panic(self.m.externs[x as usize].clone())),
            _ => return eng(format!("external function {}", self.m.externs[x as usize])),
        })
    }

    /// Keep only the values for which `c` holds.
    fn assume(&mut self, s: &mut State, c: X) -> R<()> {
        let vs = self.e.vars[c as usize];
        let eff = vs & !s.single;
        if eff == 0 {
            return if self.evalx(s, c) == 1 { Ok(()) } else { Err(End::Pruned) };
        }
        if eff.count_ones() == 1 && s.entangled & eff == 0 {
            let v = eff.trailing_zeros();
            let t = self.table(s, c, v);
            let d = dom_and(&s.dom[v as usize], &t);
            if dom_count(&d) == 0 {
                return Err(End::Pruned);
            }
            self.set_dom(s, v, d);
            if !dom_has(&d, s.model[v as usize]) {
                s.model[v as usize] = dom_first(&d);
            }
            return Ok(());
        }
        if self.evalx(s, c) == 1 {
            self.add(s, c, true, None);
            return Ok(());
        }
        match self.sat(s, c, true) {
            Ok(Some(m)) => {
                self.add(s, c, true, Some(m));
                Ok(())
            }
            Ok(None) => Err(End::Pruned),
            Err(()) => {
                s.unknown = true;
                Err(End::Pruned)
            }
        }
    }

    /// A proof obligation: the solver must show that `c` holds on this path.
    fn obligation(&mut self, s: &mut State, c: X, id: String) -> R<()> {
        let (mut gs, vs) = self.full_guards(s);
        gs.push(Guard::NotExpr(c));
        let mut m = s.model.clone();
        match self.z.check(&self.e, &gs, vs | self.e.vars[c as usize], Some(&mut m)) {
            Answer::Unsat => {
                self.st.checks.entry(id).or_default()[1] += 1;
                Ok(())
            }
            Answer::Unknown => {
                s.unknown = true;
                Ok(())
            }
            Answer::Sat => {
                self.st.checks.entry(id.clone()).or_default()[2] += 1;
                let mut t = s.clone();
                t.model = m;
                self.record(&t, "check", id);
                self.assume(s, c)
            }
        }
    }
}

fn ext_kind(n: &str) -> u8 {
    match n {
        "symx_bytes" => 1,
        "symx_assume" => 2,
        "symx_check" => 3,
        "symx_log" => 4,
        "symx_reach" => 5,
        "symx_concrete" => 6,
        "symx_native" => 7,
        "symx_note" => 8,
        "symx_param" => 9,
        "symx_file" => 10,
        "lseek64" | "statx" | "open" => 33,
        "fstat64" | "stat64" => 38,
        "malloc" => 20,
        "calloc" => 21,
        "realloc" => 22,
        "free" => 23,
        "posix_memalign" => 24,
        "bcmp" => 25,
        "memcmp" => 26,
        "strlen" => 27,
        "write" => 30,
        "getenv" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" | "pthread_self"
        | "clock_gettime" | "pthread_key_delete" | "sched_yield" | "__cxa_atexit" | "isatty" => 31,
        "__errno_location" => 32,
        "open64" => 36,
        "read" => 37,
        "close" | "fcntl" | "writev" => 33,
        "getrandom" => 34,
        "syscall" => 35,
        "sinf" => 40,
        "cosf" => 41,
        "log10f" => 42,
        "log2f" => 43,
        "logf" => 44,
        "expf" => 45,
        "tanf" => 46,
        "acosf" => 47,
        "asinf" => 48,
        "atanf" => 49,
        "powf" => 50,
        "sin" => 60,
        "cos" => 61,
        "log10" => 62,
        "log2" => 63,
        "log" => 64,
        "exp" => 65,
        "tan" => 66,
        "acos" => 67,
        "asin" => 68,
        "atan" => 69,
        "exp2f" => 70,
        "cbrtf" => 71,
        "sinhf" => 72,
        "coshf" => 73,
        "tanhf" => 74,
        "fmodf" => 51,
        "atan2f" => 52,
        "hypotf" => 53,
        "fmod" => 55,
        "atan2" => 56,
        "hypot" => 57,
        "pow" => 58,
        "abort" | "_Unwind_Resume" | "_Unwind_RaiseException" | "exit" | "__rust_start_panic" => 99,
        _ => 0,
    }
}
