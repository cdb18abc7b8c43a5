//! One execution of a circuit on a fresh constraint system, observed: outcome, satisfaction, shape, and every
//! allocation of a witness by the code under test ("site"). `attack` replays the execution with chosen sites
//! replaced, everything computed afterwards following honestly from them, and looks for a satisfied system whose
//! result the oracle rejects. When a replacement leaves constraints unsatisfied, further sites are solved for
//! (as a dishonest prover would) up to a depth.
pub mod points;
use ark_bls12_377::{G1Affine, G2Affine};
use ark_ff::PrimeField;
use ark_relations::r1cs::{fault, ConstraintSystem, ConstraintSystemRef, SynthesisError, SynthesisMode};
use mon::{catch, rand::seq::SliceRandom, rand::Rng, Rng8, Run};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Val<F> { F(F), I(F), P1(G1Affine), P2(G2Affine) }
#[derive(Clone, Copy, Debug)]
pub struct Site<F> { pub var: Option<usize>, pub val: Val<F> }
pub type Plan<F> = BTreeMap<usize, Val<F>>;
pub struct Exec<F: PrimeField, T> {
    /// Err: panicked
    pub out: Result<Result<T, SynthesisError>, String>,
    pub sat: bool,
    pub sites: Vec<Site<F>>,
    pub cs: ConstraintSystemRef<F>,
}
impl<F: PrimeField, T> Exec<F, T> {
    pub fn ok(&self) -> Option<&T> { match (&self.out, self.sat) { (Ok(Ok(v)), true) => Some(v), _ => None } }
    /// public inputs allocated by the code under test (those of the harness not counted)
    pub fn public(&self) -> usize { self.sites.iter().filter(|s| matches!(s.val, Val::I(_))).count() }
    /// what the system looks like apart from the assignment
    pub fn shape(&self) -> u64 { shape(&self.cs) }
    pub fn describe(&self) -> String {
        match &self.out { Ok(Ok(_)) => format!("{}, {} constraints", if self.sat { "satisfied" } else { "unsatisfied" }, self.cs.num_constraints()), Ok(Err(e)) => format!("error {:?}", e), Err(p) => format!("panic: {}", p) }
    }
}
pub fn shape<F: PrimeField>(cs: &ConstraintSystemRef<F>) -> u64 { cs.borrow().map_or(0, |c| c.fingerprint()) }
pub fn exec<F: PrimeField, T>(plan: &Plan<F>, body: impl FnOnce(ConstraintSystemRef<F>) -> Result<T, SynthesisError>) -> Exec<F, T> {
    let cs = ConstraintSystem::<F>::new_ref();
    let sites = Rc::new(RefCell::new(vec![]));
    let (s2, p2) = (sites.clone(), plan.clone());
    let c2 = cs.clone();
    let out = catch(|| fault::with_plan(move |site| {
        let mut s = s2.borrow_mut();
        let n = s.len();
        match site {
            fault::Site::Field(i, v) => if let Some(f) = v.downcast_mut::<F>() {
                if let Some(Val::F(x)) = p2.get(&n) { *f = *x; }
                s.push(Site { var: Some(i), val: Val::F(*f) });
            },
            fault::Site::Input(_, v) => if let Some(f) = v.downcast_mut::<F>() {
                if let Some(Val::I(x)) = p2.get(&n) { *f = *x; }
                s.push(Site { var: None, val: Val::I(*f) });
            },
            fault::Site::Point(v) => {
                if let Some(p) = v.downcast_mut::<G1Affine>() { if let Some(Val::P1(x)) = p2.get(&n) { *p = *x; } s.push(Site { var: None, val: Val::P1(*p) }); }
                else if let Some(p) = v.downcast_mut::<G2Affine>() { if let Some(Val::P2(x)) = p2.get(&n) { *p = *x; } s.push(Site { var: None, val: Val::P2(*p) }); }
            }
        }
    }, || body(c2)));
    let sat = match &out { Ok(Ok(_)) => cs.is_satisfied().unwrap_or(false), _ => false };
    let sites = sites.borrow().clone();
    Exec { out, sat, sites, cs }
}
pub fn honest<F: PrimeField, T>(body: impl FnOnce(ConstraintSystemRef<F>) -> Result<T, SynthesisError>) -> Exec<F, T> { exec(&Plan::new(), body) }
/// the shape of the circuit when it is set up, without values
pub fn setup_shape<F: PrimeField, T>(body: impl FnOnce(ConstraintSystemRef<F>) -> Result<T, SynthesisError>) -> Result<u64, String> {
    let cs = ConstraintSystem::<F>::new_ref();
    cs.set_mode(SynthesisMode::Setup);
    let c2 = cs.clone();
    match catch(|| body(c2)) { Ok(Ok(_)) => Ok(shape(&cs)), Ok(Err(e)) => Err(format!("error {:?}", e)), Err(p) => Err(format!("panic: {}", p)) }
}
/// allocations of the harness itself: never tampered with
pub fn given<T>(f: impl FnOnce() -> T) -> T { fault::trusted(f) }

#[derive(Clone, Debug)]
pub struct Budget { pub sites: usize, pub per_site: usize, pub pairs: usize, pub repair: usize, pub runs: usize }
fn muts<F: PrimeField>(v: &F, r: &mut Rng8) -> Vec<F> {
    let half = F::from_repr(F::modulus_minus_one_div_two()).unwrap();
    let mut out = if v.is_zero() || v.is_one() { vec![F::one() - v] } else { vec![-*v, F::zero(), F::one()] };
    out.extend([*v + F::one(), *v - F::one()]);
    let mut rest = vec![v.double(), half, half + F::one(), F::rand(r), -F::one(), *v + F::from(2u64).pow([r.gen_range(1u64, 300)]), F::from(2u64).pow([r.gen_range(1u64, 300)]), v.inverse().unwrap_or_else(F::one), F::from(r.gen_range(2u64, 300)), *v - half, *v + half];
    rest.shuffle(r);
    out.extend(rest);
    out.retain(|x| x != v);
    let mut seen = HashSet::new();
    out.retain(|x| seen.insert(*x));
    out
}
fn val_muts<F: PrimeField>(v: &Val<F>, r: &mut Rng8, pool1: &[G1Affine], pool2: &[G2Affine]) -> Vec<Val<F>> {
    match v {
        Val::F(f) => muts(f, r).into_iter().map(Val::F).collect(),
        // what is public is the verifier's: changed only where a monitor asks for it
        Val::I(_) => vec![],
        Val::P1(p) => std::iter::once(-*p).chain(pool1.iter().copied()).filter(|x| x != p).map(Val::P1).collect(),
        Val::P2(p) => std::iter::once(-*p).chain(pool2.iter().copied()).filter(|x| x != p).map(Val::P2).collect(),
    }
}
pub struct Attack<'a, F: PrimeField, T> {
    pub run: &'a Run,
    pub key: &'a str,
    pub body: &'a dyn Fn(ConstraintSystemRef<F>) -> Result<T, SynthesisError>,
    pub budget: Budget,
    pub pool1: &'a [G1Affine],
    pub pool2: &'a [G2Affine],
    /// whether a satisfied execution with this result is wrong; receives the result
    pub wrong: &'a dyn Fn(&T) -> Option<String>,
}
impl<'a, F: PrimeField, T> Attack<'a, F, T> {
    /// returns the number of tampered executions
    pub fn go(&self, h: &Exec<F, T>, r: &mut Rng8) -> usize {
        let n = h.sites.len();
        let mut order: Vec<usize> = (0..n).collect();
        if n > self.budget.sites {
            // keep the first and the last of them, draw the rest
            let keep = self.budget.sites / 4;
            let mut mid: Vec<usize> = (keep..n - keep).collect();
            mid.shuffle(r);
            order = (0..keep).chain(n - keep..n).chain(mid.into_iter().take(self.budget.sites - 2 * keep)).collect();
        }
        order.shuffle(r);
        let mut st = St { runs: 0, seen: HashSet::new() };
        for s in &order {
            for v in val_muts(&h.sites[*s].val, r, self.pool1, self.pool2).into_iter().take(self.budget.per_site) {
                if st.runs >= self.budget.runs || self.run.stopped() { return st.runs; }
                let mut p = Plan::new();
                p.insert(*s, v);
                self.one(&p, self.budget.repair, &mut st);
            }
        }
        for _ in 0..self.budget.pairs {
            if n < 2 || st.runs >= self.budget.runs || self.run.stopped() { return st.runs; }
            let k = 2 + r.gen_range(0, 2.min(n - 1));
            let mut p = Plan::new();
            for _ in 0..k { let s = *order.choose(r).unwrap(); let m = val_muts(&h.sites[s].val, r, self.pool1, self.pool2); if let Some(v) = m.choose(r) { p.insert(s, *v); } }
            self.one(&p, self.budget.repair, &mut st);
        }
        st.runs
    }
    fn one(&self, p: &Plan<F>, depth: usize, st: &mut St) {
        if st.runs >= self.budget.runs { return; }
        let mut hs = std::collections::hash_map::DefaultHasher::new();
        format!("{:?}", p).hash(&mut hs);
        if !st.seen.insert(hs.finish()) { return; }
        st.runs += 1;
        let e = exec(p, |cs| (self.body)(cs));
        self.run.count("tampered_executions", 1);
        match &e.out {
            Err(_) | Ok(Err(_)) => { self.run.count("tampered_refused_by_synthesis", 1); return; }
            Ok(Ok(v)) if e.sat => {
                self.run.count("tampered_satisfied", 1);
                if let Some(t) = (self.wrong)(v) {
                    // "@key text": a violation of another kind than this attack's
                    let (key, t) = match t.strip_prefix('@').and_then(|t| t.split_once(' ')) { Some((k, t)) => (k, t), None => (self.key, &t[..]) };
                    self.run.violation(key, format!("{}; with the helper variables {:?} replaced", t, p));
                }
                return;
            }
            _ => self.run.count("tampered_unsatisfied", 1),
        }
        if depth == 0 { return; }
        // solve another site for one of the violated constraints
        let (mut next, cs) = (vec![], e.cs.borrow().unwrap());
        let bad = cs.unsatisfied(6).unwrap_or_default();
        let free: Vec<(usize, usize)> = e.sites.iter().enumerate().filter(|(i, _)| !p.contains_key(i)).filter_map(|(i, s)| s.var.map(|v| (i, v))).collect();
        let vars: Vec<usize> = free.iter().map(|x| x.1).collect();
        if vars.len() <= 400 {
            for c in bad {
                for (w, v) in cs.solutions(c, &vars) {
                    let site = free.iter().find(|x| x.1 == w).unwrap().0;
                    next.push((site, v));
                }
            }
        }
        drop(cs);
        next.sort_by_key(|x| x.0);
        next.dedup();
        for (site, v) in next.into_iter().take(6) {
            let mut q = p.clone();
            q.insert(site, Val::F(v));
            self.run.count("solved_for_a_site", 1);
            self.one(&q, depth - 1, st);
        }
    }
}
struct St { runs: usize, seen: HashSet<u64> }
