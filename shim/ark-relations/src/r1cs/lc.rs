use ark_ff::Field;
use std::ops::*;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct LcIndex(pub usize);
#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Variable { Zero, One, Instance(usize), Witness(usize), SymbolicLc(LcIndex) }
impl Variable {
    pub fn is_zero(&self) -> bool { matches!(self, Variable::Zero) }
    pub fn is_one(&self) -> bool { matches!(self, Variable::One) }
    pub fn is_instance(&self) -> bool { matches!(self, Variable::Instance(_)) }
    pub fn is_witness(&self) -> bool { matches!(self, Variable::Witness(_)) }
    pub fn is_lc(&self) -> bool { matches!(self, Variable::SymbolicLc(_)) }
}
/// kept sorted by variable, without duplicates
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct LinearCombination<F: Field>(pub Vec<(F, Variable)>);
impl<F: Field> LinearCombination<F> {
    pub fn new() -> Self { LinearCombination(vec![]) }
    pub fn zero() -> Self { Self::new() }
    pub fn compactify(&mut self) {
        self.0.sort_by_key(|e| e.1);
        let mut out: Vec<(F, Variable)> = Vec::with_capacity(self.0.len());
        for (c, v) in self.0.drain(..) {
            match out.last_mut() { Some(l) if l.1 == v => l.0 += c, _ => out.push((c, v)) }
        }
        self.0 = out;
    }
    fn add_term(&mut self, c: F, v: Variable) {
        match self.0.binary_search_by_key(&v, |e| e.1) {
            Ok(i) => self.0[i].0 += c,
            Err(i) => self.0.insert(i, (c, v)),
        }
    }
    fn merge(&mut self, o: &Self, k: F) {
        if k.is_one() { self.merge_by(o, |c| c) } else if (-k).is_one() { self.merge_by(o, |c| -c) } else { self.merge_by(o, |c| c * k) }
    }
    fn merge_by(&mut self, o: &Self, f: impl Fn(F) -> F) {
        // appended as they are where they all come after what is there
        if self.0.last().map_or(true, |l| o.0.first().map_or(true, |x| l.1 < x.1)) { self.0.extend(o.0.iter().map(|(c, v)| (f(*c), *v))); return; }
        if o.0.len() <= 4 {
            for (c, v) in &o.0 { self.add_term(f(*c), *v); }
            return;
        }
        let mut out = Vec::with_capacity(self.0.len() + o.0.len());
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() || j < o.0.len() {
            if j == o.0.len() || (i < self.0.len() && self.0[i].1 < o.0[j].1) { out.push(self.0[i]); i += 1; }
            else if i == self.0.len() || o.0[j].1 < self.0[i].1 { out.push((f(o.0[j].0), o.0[j].1)); j += 1; }
            else { out.push((self.0[i].0 + f(o.0[j].0), o.0[j].1)); i += 1; j += 1; }
        }
        self.0 = out;
    }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn iter(&self) -> std::slice::Iter<'_, (F, Variable)> { self.0.iter() }
}
impl<F: Field> From<Variable> for LinearCombination<F> { fn from(v: Variable) -> Self { if v.is_zero() { Self::zero() } else { LinearCombination(vec![(F::one(), v)]) } } }
impl<F: Field> From<(F, Variable)> for LinearCombination<F> { fn from((c, v): (F, Variable)) -> Self { if v.is_zero() { Self::zero() } else { LinearCombination(vec![(c, v)]) } } }
impl<F: Field> Deref for LinearCombination<F> { type Target = Vec<(F, Variable)>; fn deref(&self) -> &Self::Target { &self.0 } }

impl<F: Field> Add<(F, Variable)> for LinearCombination<F> { type Output = Self; fn add(mut self, o: (F, Variable)) -> Self { self += o; self } }
impl<F: Field> AddAssign<(F, Variable)> for LinearCombination<F> { fn add_assign(&mut self, (c, v): (F, Variable)) { if !v.is_zero() { self.add_term(c, v) } } }
impl<F: Field> Sub<(F, Variable)> for LinearCombination<F> { type Output = Self; fn sub(self, (c, v): (F, Variable)) -> Self { self + (-c, v) } }
impl<F: Field> SubAssign<(F, Variable)> for LinearCombination<F> { fn sub_assign(&mut self, (c, v): (F, Variable)) { *self += (-c, v) } }
impl<F: Field> Add<Variable> for LinearCombination<F> { type Output = Self; fn add(self, v: Variable) -> Self { self + (F::one(), v) } }
impl<F: Field> AddAssign<Variable> for LinearCombination<F> { fn add_assign(&mut self, v: Variable) { *self += (F::one(), v) } }
impl<F: Field> Sub<Variable> for LinearCombination<F> { type Output = Self; fn sub(self, v: Variable) -> Self { self - (F::one(), v) } }
impl<F: Field> SubAssign<Variable> for LinearCombination<F> { fn sub_assign(&mut self, v: Variable) { *self -= (F::one(), v) } }
impl<F: Field> Neg for LinearCombination<F> { type Output = Self; fn neg(mut self) -> Self { for t in &mut self.0 { t.0 = -t.0; } self } }
impl<'a, F: Field> Neg for &'a LinearCombination<F> { type Output = LinearCombination<F>; fn neg(self) -> LinearCombination<F> { -self.clone() } }
impl<F: Field> MulAssign<F> for LinearCombination<F> { fn mul_assign(&mut self, k: F) { if k.is_one() { return; } for t in &mut self.0 { t.0 *= k; } } }
impl<F: Field> Mul<F> for LinearCombination<F> { type Output = Self; fn mul(mut self, k: F) -> Self { self *= k; self } }
impl<'a, F: Field> Mul<F> for &'a LinearCombination<F> { type Output = LinearCombination<F>; fn mul(self, k: F) -> LinearCombination<F> { let mut s = self.clone(); s *= k; s } }
macro_rules! lcops {
    ($t:ty, $($r:tt)*) => {
        impl<'a, F: Field> Add<$t> for LinearCombination<F> { type Output = LinearCombination<F>; fn add(mut self, o: $t) -> Self { self.merge($($r)* o, F::one()); self } }
        impl<'a, F: Field> Sub<$t> for LinearCombination<F> { type Output = LinearCombination<F>; fn sub(mut self, o: $t) -> Self { self.merge($($r)* o, -F::one()); self } }
        impl<'a, 'b, F: Field> Add<$t> for &'b LinearCombination<F> { type Output = LinearCombination<F>; fn add(self, o: $t) -> LinearCombination<F> { let mut s = self.clone(); s.merge($($r)* o, F::one()); s } }
        impl<'a, 'b, F: Field> Sub<$t> for &'b LinearCombination<F> { type Output = LinearCombination<F>; fn sub(self, o: $t) -> LinearCombination<F> { let mut s = self.clone(); s.merge($($r)* o, -F::one()); s } }
        impl<'a, F: Field> AddAssign<$t> for LinearCombination<F> { fn add_assign(&mut self, o: $t) { self.merge($($r)* o, F::one()) } }
        impl<'a, F: Field> SubAssign<$t> for LinearCombination<F> { fn sub_assign(&mut self, o: $t) { self.merge($($r)* o, -F::one()) } }
    };
}
lcops!(LinearCombination<F>, &);
lcops!(&'a LinearCombination<F>, );
impl<F: Field> Add<(F, LinearCombination<F>)> for LinearCombination<F> { type Output = Self; fn add(mut self, (k, o): (F, LinearCombination<F>)) -> Self { self.merge(&o, k); self } }
impl<'a, F: Field> Add<(F, &'a LinearCombination<F>)> for LinearCombination<F> { type Output = Self; fn add(mut self, (k, o): (F, &'a LinearCombination<F>)) -> Self { self.merge(o, k); self } }
impl<F: Field> Sub<(F, LinearCombination<F>)> for LinearCombination<F> { type Output = Self; fn sub(mut self, (k, o): (F, LinearCombination<F>)) -> Self { self.merge(&o, -k); self } }
impl<'a, F: Field> Sub<(F, &'a LinearCombination<F>)> for LinearCombination<F> { type Output = Self; fn sub(mut self, (k, o): (F, &'a LinearCombination<F>)) -> Self { self.merge(o, -k); self } }
impl<F: Field> AddAssign<(F, LinearCombination<F>)> for LinearCombination<F> { fn add_assign(&mut self, (k, o): (F, LinearCombination<F>)) { self.merge(&o, k) } }
impl<'a, F: Field> AddAssign<(F, &'a LinearCombination<F>)> for LinearCombination<F> { fn add_assign(&mut self, (k, o): (F, &'a LinearCombination<F>)) { self.merge(o, k) } }
impl<F: Field> SubAssign<(F, LinearCombination<F>)> for LinearCombination<F> { fn sub_assign(&mut self, (k, o): (F, LinearCombination<F>)) { self.merge(&o, -k) } }
#[doc(hidden)]
pub fn _one<F: Field>() -> F { F::one() + F::zero() }
