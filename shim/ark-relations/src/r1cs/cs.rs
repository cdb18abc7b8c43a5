use super::{fault, LcIndex, LinearCombination, Result, SynthesisError, Variable};
use ark_ff::Field;
use std::cell::{Ref, RefCell, RefMut};
use std::rc::Rc;

pub trait ConstraintSynthesizer<F: Field> {
    fn generate_constraints(self, cs: ConstraintSystemRef<F>) -> Result<()>;
}
pub type Matrix<F> = Vec<Vec<(F, usize)>>;
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ConstraintMatrices<F: Field> {
    pub num_instance_variables: usize,
    pub num_witness_variables: usize,
    pub num_constraints: usize,
    pub a_num_non_zero: usize,
    pub b_num_non_zero: usize,
    pub c_num_non_zero: usize,
    pub a: Matrix<F>,
    pub b: Matrix<F>,
    pub c: Matrix<F>,
}
#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum SynthesisMode { Setup, Prove { construct_matrices: bool } }
#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum OptimizationGoal { None, Constraints, Weight }

#[derive(Debug, Clone)]
pub struct ConstraintSystem<F: Field> {
    pub mode: SynthesisMode,
    pub num_instance_variables: usize,
    pub num_witness_variables: usize,
    pub num_constraints: usize,
    pub num_linear_combinations: usize,
    pub instance_assignment: Vec<F>,
    pub witness_assignment: Vec<F>,
    lcs: Vec<LinearCombination<F>>,
    lc_values: RefCell<Vec<Option<F>>>,
    pub a_constraints: Vec<LcIndex>,
    pub b_constraints: Vec<LcIndex>,
    pub c_constraints: Vec<LcIndex>,
}
impl<F: Field> Default for ConstraintSystem<F> { fn default() -> Self { Self::new() } }
impl<F: Field> ConstraintSystem<F> {
    pub fn new() -> Self {
        ConstraintSystem {
            mode: SynthesisMode::Prove { construct_matrices: true },
            num_instance_variables: 1, num_witness_variables: 0, num_constraints: 0, num_linear_combinations: 0,
            instance_assignment: vec![F::one()], witness_assignment: vec![],
            lcs: vec![], lc_values: RefCell::new(vec![]),
            a_constraints: vec![], b_constraints: vec![], c_constraints: vec![],
        }
    }
    pub fn new_ref() -> ConstraintSystemRef<F> { ConstraintSystemRef::new(Self::new()) }
    pub fn set_mode(&mut self, mode: SynthesisMode) { self.mode = mode; }
    pub fn is_in_setup_mode(&self) -> bool { self.mode == SynthesisMode::Setup }
    pub fn should_construct_matrices(&self) -> bool {
        match self.mode { SynthesisMode::Setup => true, SynthesisMode::Prove { construct_matrices } => construct_matrices }
    }
    pub fn new_input_variable<Func: FnOnce() -> Result<F>>(&mut self, f: Func) -> Result<Variable> {
        let index = self.num_instance_variables;
        self.num_instance_variables += 1;
        if !self.is_in_setup_mode() {
            let mut v = f()?;
            fault::apply_input(index, &mut v);
            self.instance_assignment.push(v);
        }
        Ok(Variable::Instance(index))
    }
    pub fn new_witness_variable<Func: FnOnce() -> Result<F>>(&mut self, f: Func) -> Result<Variable> {
        let index = self.num_witness_variables;
        self.num_witness_variables += 1;
        if !self.is_in_setup_mode() {
            let mut v = f()?;
            fault::apply(index, &mut v);
            self.witness_assignment.push(v);
        }
        Ok(Variable::Witness(index))
    }
    pub fn new_lc(&mut self, lc: LinearCombination<F>) -> Result<Variable> {
        let i = LcIndex(self.lcs.len());
        self.lcs.push(lc);
        self.lc_values.borrow_mut().push(None);
        self.num_linear_combinations += 1;
        Ok(Variable::SymbolicLc(i))
    }
    pub fn enforce_constraint(&mut self, a: LinearCombination<F>, b: LinearCombination<F>, c: LinearCombination<F>) -> Result<()> {
        for (lc, which) in vec![(a, 0), (b, 1), (c, 2)] {
            let i = match self.new_lc(lc)? { Variable::SymbolicLc(i) => i, _ => unreachable!() };
            match which { 0 => self.a_constraints.push(i), 1 => self.b_constraints.push(i), _ => self.c_constraints.push(i) }
        }
        self.num_constraints += 1;
        Ok(())
    }
    pub fn assigned_value(&self, v: Variable) -> Option<F> {
        match v {
            Variable::One => Some(F::one()),
            Variable::Zero => Some(F::zero()),
            Variable::Witness(i) => self.witness_assignment.get(i).copied(),
            Variable::Instance(i) => self.instance_assignment.get(i).copied(),
            Variable::SymbolicLc(i) => self.lc_value(i),
        }
    }
    fn lc_value(&self, i: LcIndex) -> Option<F> {
        if let Some(v) = self.lc_values.borrow()[i.0] { return Some(v); }
        let mut acc = F::zero();
        for (c, v) in self.lcs[i.0].iter() { let x = self.assigned_value(*v)?; acc += if c.is_one() || x.is_zero() { x } else if x.is_one() { *c } else { *c * x }; }
        self.lc_values.borrow_mut()[i.0] = Some(acc);
        Some(acc)
    }
    /// forgets cached values after an assignment was changed
    pub fn invalidate_values(&mut self) { for v in self.lc_values.borrow_mut().iter_mut() { *v = None; } }
    fn first_unsatisfied(&self) -> Result<Option<usize>> { Ok(self.unsatisfied(1)?.first().copied()) }
    /// not upstream: the first `limit` violated constraints
    pub fn unsatisfied(&self, limit: usize) -> Result<Vec<usize>> {
        if self.is_in_setup_mode() { return Err(SynthesisError::AssignmentMissing); }
        // fresh evaluation in index order (lcs only refer to earlier ones)
        let mut vals: Vec<F> = Vec::with_capacity(self.lcs.len());
        for lc in &self.lcs {
            let mut acc = F::zero();
            for (c, v) in lc.iter() {
                let x = match v {
                    Variable::One => F::one(),
                    Variable::Zero => F::zero(),
                    Variable::Witness(i) => *self.witness_assignment.get(*i).ok_or(SynthesisError::AssignmentMissing)?,
                    Variable::Instance(i) => *self.instance_assignment.get(*i).ok_or(SynthesisError::AssignmentMissing)?,
                    Variable::SymbolicLc(i) => vals[i.0],
                };
                acc += if c.is_one() || x.is_zero() { x } else if x.is_one() { *c } else { *c * x };
            }
            vals.push(acc);
        }
        let mut out = vec![];
        for i in 0..self.num_constraints {
            if vals[self.a_constraints[i].0] * vals[self.b_constraints[i].0] != vals[self.c_constraints[i].0] {
                out.push(i);
                if out.len() >= limit { break; }
            }
        }
        Ok(out)
    }
    /// not upstream: a digest of the constraints as polynomials in the instance and witness variables, whatever their
    /// assignment: every variable gets a fixed pseudo-random value and the three values of each constraint are hashed.
    /// Equal constraints agree; different ones differ except with negligible probability
    pub fn fingerprint(&self) -> u64 where F: Field {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (self.num_instance_variables, self.num_witness_variables, self.num_constraints).hash(&mut h);
        // multiples of two unrelated elements of large order
        let (a, b) = (F::from(0x9e37_79b9_7f4a_7c15u64).pow([0xdead_beef_1234_5678u64, 3]), F::from(0xc2b2_ae3d_27d4_eb4fu64).pow([0x1357_9bdf_0246_8aceu64, 5]));
        let mix = |x: u64| { let mut z = x.wrapping_add(0x9e37_79b9_7f4a_7c15); z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb); z ^ (z >> 31) };
        let value = |k: u64| a * F::from(mix(k)) + b * F::from(mix(!k));
        let inst: Vec<F> = (0..self.num_instance_variables as u64).map(|i| value(2 * i + 1)).collect();
        let wit: Vec<F> = (0..self.num_witness_variables as u64).map(|i| value(2 * i)).collect();
        let mut vals: Vec<F> = Vec::with_capacity(self.lcs.len());
        for lc in &self.lcs {
            let mut acc = F::zero();
            for (c, v) in lc.iter() {
                let x = match v { Variable::One => inst[0], Variable::Zero => F::zero(), Variable::Witness(i) => wit[*i], Variable::Instance(i) => inst[*i], Variable::SymbolicLc(i) => vals[i.0] };
                acc += if c.is_one() || x.is_zero() { x } else if x.is_one() { *c } else { *c * x };
            }
            vals.push(acc);
        }
        for i in 0..self.num_constraints { for x in [&self.a_constraints, &self.b_constraints, &self.c_constraints] { vals[x[i].0].hash(&mut h); } }
        h.finish()
    }
    /// not upstream: (constant part, coefficient of each of `ws`) of a linear combination under the current assignment
    fn affine(&self, i: LcIndex, ws: &[usize], memo: &mut std::collections::HashMap<usize, (F, Vec<F>)>) -> (F, Vec<F>) {
        if let Some(r) = memo.get(&i.0) { return r.clone(); }
        let (mut k, mut d) = (F::zero(), vec![F::zero(); ws.len()]);
        for (c, v) in self.lcs[i.0].iter() {
            match v {
                Variable::Witness(w) if ws.contains(w) => { let j = ws.iter().position(|x| x == w).unwrap(); d[j] += c; }
                Variable::SymbolicLc(l) => { let (a, b) = self.affine(*l, ws, memo); k += *c * a; for (x, y) in d.iter_mut().zip(b) { *x += *c * y; } }
                v => k += *c * self.assigned_value(*v).unwrap_or_else(F::zero),
            }
        }
        memo.insert(i.0, (k, d.clone()));
        (k, d)
    }
    /// not upstream: for a constraint, the values of single witness variables out of `ws` that would make it hold
    /// (everything else unchanged), where it is linear in that variable
    pub fn solutions(&self, constraint: usize, ws: &[usize]) -> Vec<(usize, F)> {
        let mut memo = Default::default();
        let (a, da) = self.affine(self.a_constraints[constraint], ws, &mut memo);
        let (b, db) = self.affine(self.b_constraints[constraint], ws, &mut memo);
        let (c, dc) = self.affine(self.c_constraints[constraint], ws, &mut memo);
        let val = |w: usize| self.witness_assignment[w];
        let full = |k: F, d: &[F]| { let mut k = k; for (i, w) in ws.iter().enumerate() { k += d[i] * val(*w); } k };
        let (fa, fb, fc) = (full(a, &da), full(b, &db), full(c, &dc));
        let mut out = vec![];
        for (j, w) in ws.iter().enumerate() {
            let (a1, b1, c1) = (da[j], db[j], dc[j]);
            if !(a1 * b1).is_zero() { continue; }
            let (a0, b0, c0) = (fa - a1 * val(*w), fb - b1 * val(*w), fc - c1 * val(*w));
            let k = a0 * b1 + a1 * b0 - c1;
            if let Some(i) = k.inverse() { out.push((*w, (c0 - a0 * b0) * i)); }
        }
        out
    }
    pub fn is_satisfied(&self) -> Result<bool> { self.first_unsatisfied().map(|s| s.is_none()) }
    pub fn which_is_unsatisfied(&self) -> Result<Option<String>> { Ok(self.first_unsatisfied()?.map(|i| i.to_string())) }
    /// every linear combination in terms of instance and witness variables only
    fn flat_lcs(&self) -> Vec<LinearCombination<F>> {
        let mut out: Vec<LinearCombination<F>> = Vec::with_capacity(self.lcs.len());
        for lc in &self.lcs {
            let mut r = LinearCombination::zero();
            let mut plain = vec![];
            for (c, v) in lc.iter() {
                match v { Variable::SymbolicLc(i) => r += (*c, &out[i.0]), v => plain.push((*c, *v)) }
            }
            let mut p = LinearCombination(plain);
            p.compactify();
            r += &p;
            r.0.retain(|t| !t.0.is_zero());
            out.push(r);
        }
        out
    }
    pub fn inline_all_lcs(&mut self) { let f = self.flat_lcs(); self.lcs = f; self.invalidate_values(); }
    pub fn finalize(&mut self) { self.inline_all_lcs() }
    pub fn outline_lcs(&mut self) {}
    pub fn to_matrices(&self) -> Option<ConstraintMatrices<F>> {
        if !self.should_construct_matrices() { return None; }
        let flat = self.flat_lcs();
        let row = |i: &LcIndex| -> Vec<(F, usize)> {
            flat[i.0].iter().map(|(c, v)| (*c, match v {
                Variable::One => 0,
                Variable::Instance(i) => *i,
                Variable::Witness(i) => self.num_instance_variables + i,
                _ => unreachable!(),
            })).collect()
        };
        let a: Matrix<F> = self.a_constraints.iter().map(row).collect();
        let b: Matrix<F> = self.b_constraints.iter().map(row).collect();
        let c: Matrix<F> = self.c_constraints.iter().map(row).collect();
        let nz = |m: &Matrix<F>| m.iter().map(|r| r.len()).sum();
        Some(ConstraintMatrices {
            num_instance_variables: self.num_instance_variables, num_witness_variables: self.num_witness_variables, num_constraints: self.num_constraints,
            a_num_non_zero: nz(&a), b_num_non_zero: nz(&b), c_num_non_zero: nz(&c), a, b, c,
        })
    }
    pub fn set_optimization_goal(&mut self, _: OptimizationGoal) {}
}

#[derive(Debug, Clone)]
pub enum ConstraintSystemRef<F: Field> { None, CS(Rc<RefCell<ConstraintSystem<F>>>) }
impl<F: Field> PartialEq for ConstraintSystemRef<F> {
    fn eq(&self, o: &Self) -> bool { matches!((self, o), (Self::None, Self::None)) || matches!((self, o), (Self::CS(a), Self::CS(b)) if Rc::ptr_eq(a, b)) }
}
impl<F: Field> Eq for ConstraintSystemRef<F> {}
#[derive(Debug, Clone)]
pub struct Namespace<F: Field> { inner: ConstraintSystemRef<F>, _id: Option<u64> }
impl<F: Field> From<ConstraintSystemRef<F>> for Namespace<F> { fn from(o: ConstraintSystemRef<F>) -> Self { Namespace { inner: o, _id: None } } }
impl<F: Field> Namespace<F> {
    pub fn new(inner: ConstraintSystemRef<F>, id: Option<u64>) -> Self { Namespace { inner, _id: id } }
    pub fn cs(&self) -> ConstraintSystemRef<F> { self.inner.clone() }
    pub fn leave_namespace(self) {}
}
impl<F: Field> ConstraintSystemRef<F> {
    pub fn new(inner: ConstraintSystem<F>) -> Self { ConstraintSystemRef::CS(Rc::new(RefCell::new(inner))) }
    pub fn is_none(&self) -> bool { matches!(self, Self::None) }
    pub fn or(self, other: Self) -> Self { match self { Self::None => other, _ => self } }
    fn inner(&self) -> Option<&Rc<RefCell<ConstraintSystem<F>>>> { match self { Self::CS(a) => Some(a), Self::None => None } }
    pub fn into_inner(self) -> Option<ConstraintSystem<F>> { match self { Self::CS(a) => Rc::try_unwrap(a).ok().map(|s| s.into_inner()), Self::None => None } }
    pub fn borrow(&self) -> Option<Ref<'_, ConstraintSystem<F>>> { self.inner().map(|cs| cs.borrow()) }
    pub fn borrow_mut(&self) -> Option<RefMut<'_, ConstraintSystem<F>>> { self.inner().map(|cs| cs.borrow_mut()) }
    pub fn set_mode(&self, mode: SynthesisMode) { if let Some(c) = self.inner() { c.borrow_mut().set_mode(mode) } }
    pub fn set_optimization_goal(&self, _: OptimizationGoal) {}
    pub fn is_in_setup_mode(&self) -> bool { self.inner().map_or(false, |c| c.borrow().is_in_setup_mode()) }
    pub fn num_constraints(&self) -> usize { self.inner().map_or(0, |c| c.borrow().num_constraints) }
    pub fn num_instance_variables(&self) -> usize { self.inner().map_or(0, |c| c.borrow().num_instance_variables) }
    pub fn num_witness_variables(&self) -> usize { self.inner().map_or(0, |c| c.borrow().num_witness_variables) }
    pub fn should_construct_matrices(&self) -> bool { self.inner().map_or(false, |c| c.borrow().should_construct_matrices()) }
    pub fn new_input_variable<Func: FnOnce() -> Result<F>>(&self, f: Func) -> Result<Variable> {
        let cs = self.inner().ok_or(SynthesisError::MissingCS)?;
        if !self.is_in_setup_mode() {
            let value = f()?;
            cs.borrow_mut().new_input_variable(|| Ok(value))
        } else { cs.borrow_mut().new_input_variable(|| Err(SynthesisError::AssignmentMissing)) }
    }
    pub fn new_witness_variable<Func: FnOnce() -> Result<F>>(&self, f: Func) -> Result<Variable> {
        let cs = self.inner().ok_or(SynthesisError::MissingCS)?;
        if !self.is_in_setup_mode() {
            let value = f()?;
            cs.borrow_mut().new_witness_variable(|| Ok(value))
        } else { cs.borrow_mut().new_witness_variable(|| Err(SynthesisError::AssignmentMissing)) }
    }
    pub fn new_lc(&self, lc: LinearCombination<F>) -> Result<Variable> { self.inner().ok_or(SynthesisError::MissingCS)?.borrow_mut().new_lc(lc) }
    pub fn enforce_constraint(&self, a: LinearCombination<F>, b: LinearCombination<F>, c: LinearCombination<F>) -> Result<()> {
        self.inner().ok_or(SynthesisError::MissingCS)?.borrow_mut().enforce_constraint(a, b, c)
    }
    pub fn inline_all_lcs(&self) { if let Some(c) = self.inner() { c.borrow_mut().inline_all_lcs() } }
    pub fn finalize(&self) { self.inline_all_lcs() }
    pub fn is_satisfied(&self) -> Result<bool> { self.inner().map_or(Err(SynthesisError::AssignmentMissing), |a| a.borrow().is_satisfied()) }
    pub fn which_is_unsatisfied(&self) -> Result<Option<String>> { self.inner().map_or(Err(SynthesisError::AssignmentMissing), |a| a.borrow().which_is_unsatisfied()) }
    pub fn assigned_value(&self, v: Variable) -> Option<F> { self.inner().and_then(|cs| cs.borrow().assigned_value(v)) }
    pub fn constraint_names(&self) -> Option<Vec<String>> { None }
    pub fn to_matrices(&self) -> Option<ConstraintMatrices<F>> { self.inner().and_then(|cs| cs.borrow().to_matrices()) }
}
