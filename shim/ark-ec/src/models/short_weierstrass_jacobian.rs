use crate::{group::Group, AffineCurve, ModelParameters, ProjectiveCurve, SWModelParameters as Parameters};
use ark_ff::{batch_inversion, BitIteratorBE, Field, FromBytes, One, PrimeField, SquareRootField, ToBytes, UniformRand, Zero};
use ark_serialize::*;
use rand::{distributions::{Distribution, Standard}, Rng};
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::io::Result as IoResult;
use std::marker::PhantomData;
use std::ops::*;

pub struct GroupAffine<P: Parameters> { pub x: P::BaseField, pub y: P::BaseField, pub infinity: bool, _params: PhantomData<P> }
impl<P: Parameters> Copy for GroupAffine<P> {}
impl<P: Parameters> Clone for GroupAffine<P> { fn clone(&self) -> Self { *self } }
impl<P: Parameters> PartialEq for GroupAffine<P> { fn eq(&self, o: &Self) -> bool { self.x == o.x && self.y == o.y && self.infinity == o.infinity } }
impl<P: Parameters> Eq for GroupAffine<P> {}
impl<P: Parameters> Hash for GroupAffine<P> { fn hash<H: Hasher>(&self, h: &mut H) { self.x.hash(h); self.y.hash(h); self.infinity.hash(h) } }
impl<P: Parameters> Debug for GroupAffine<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Display::fmt(self, f) } }
impl<P: Parameters> Display for GroupAffine<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.infinity { write!(f, "GroupAffine(Infinity)") } else { write!(f, "GroupAffine(x={}, y={})", self.x, self.y) }
    }
}
impl<P: Parameters> GroupAffine<P> {
    pub fn new(x: P::BaseField, y: P::BaseField, infinity: bool) -> Self { GroupAffine { x, y, infinity, _params: PhantomData } }
    pub fn scale_by_cofactor(&self) -> GroupProjective<P> { self.mul_bits(BitIteratorBE::new(P::COFACTOR)) }
    pub fn mul_bits(&self, bits: impl Iterator<Item = bool>) -> GroupProjective<P> {
        let mut res = GroupProjective::zero();
        for i in bits.skip_while(|b| !b) {
            ProjectiveCurve::double_in_place(&mut res);
            if i { res.add_assign_mixed(self) }
        }
        res
    }
    /// `greatest` selects the lexicographically larger y
    pub fn get_point_from_x(x: P::BaseField, greatest: bool) -> Option<Self> {
        let x3b = P::add_b(&((x.square() * &x) + &P::mul_by_a(&x)));
        x3b.sqrt().map(|y| {
            let negy = -y;
            let y = if (y < negy) ^ greatest { y } else { negy };
            Self::new(x, y, false)
        })
    }
    pub fn is_on_curve(&self) -> bool {
        if self.is_zero() { true } else {
            self.y.square() == P::add_b(&((self.x.square() * &self.x) + &P::mul_by_a(&self.x)))
        }
    }
    pub fn is_in_correct_subgroup_assuming_on_curve(&self) -> bool {
        self.mul_bits(BitIteratorBE::new(P::ScalarField::characteristic())).is_zero()
    }
}
impl<P: Parameters> Zero for GroupAffine<P> {
    fn zero() -> Self { Self::new(P::BaseField::zero(), P::BaseField::one(), true) }
    fn is_zero(&self) -> bool { self.infinity }
}
impl<P: Parameters> Add<Self> for GroupAffine<P> { type Output = Self; fn add(self, o: Self) -> Self { let mut c = self; c += &o; c } }
impl<'a, P: Parameters> AddAssign<&'a Self> for GroupAffine<P> { fn add_assign(&mut self, o: &Self) { let mut s: GroupProjective<P> = (*self).into(); s.add_assign_mixed(o); *self = s.into(); } }
impl<P: Parameters> Neg for GroupAffine<P> { type Output = Self; fn neg(self) -> Self { if !self.is_zero() { Self::new(self.x, -self.y, false) } else { self } } }
impl<P: Parameters> Default for GroupAffine<P> { fn default() -> Self { Self::zero() } }
impl<P: Parameters> ToBytes for GroupAffine<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { self.x.write(&mut w)?; self.y.write(&mut w)?; self.infinity.write(&mut w) } }
impl<P: Parameters> FromBytes for GroupAffine<P> {
    fn read<R: Read>(mut r: R) -> IoResult<Self> {
        let x = P::BaseField::read(&mut r)?;
        let y = P::BaseField::read(&mut r)?;
        let i = bool::read(r)?;
        Ok(Self::new(x, y, i))
    }
}
impl<P: Parameters> AffineCurve for GroupAffine<P> {
    const COFACTOR: &'static [u64] = P::COFACTOR;
    type BaseField = P::BaseField;
    type ScalarField = P::ScalarField;
    type Projective = GroupProjective<P>;
    fn prime_subgroup_generator() -> Self { Self::new(P::AFFINE_GENERATOR_COEFFS.0, P::AFFINE_GENERATOR_COEFFS.1, false) }
    fn from_random_bytes(bytes: &[u8]) -> Option<Self> {
        P::BaseField::from_random_bytes_with_flags::<SWFlags>(bytes).and_then(|(x, flags)| {
            if x.is_zero() && flags.is_infinity() { Some(Self::zero()) }
            else if let Some(y) = flags.is_positive() { Self::get_point_from_x(x, y) }
            else { None }
        })
    }
    fn mul<S: Into<<Self::ScalarField as PrimeField>::BigInt>>(&self, by: S) -> GroupProjective<P> { self.mul_bits(BitIteratorBE::new(by.into())) }
    fn mul_by_cofactor_to_projective(&self) -> GroupProjective<P> { self.scale_by_cofactor() }
    fn mul_by_cofactor_inv(&self) -> Self { AffineCurve::mul(self, P::COFACTOR_INV).into() }
}

pub struct GroupProjective<P: Parameters> { pub x: P::BaseField, pub y: P::BaseField, pub z: P::BaseField, _params: PhantomData<P> }
impl<P: Parameters> Copy for GroupProjective<P> {}
impl<P: Parameters> Clone for GroupProjective<P> { fn clone(&self) -> Self { *self } }
impl<P: Parameters> Hash for GroupProjective<P> { fn hash<H: Hasher>(&self, h: &mut H) { self.x.hash(h); self.y.hash(h); self.z.hash(h) } }
impl<P: Parameters> Debug for GroupProjective<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "GroupProjective({:?},{:?},{:?})", self.x, self.y, self.z) } }
impl<P: Parameters> Display for GroupProjective<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", GroupAffine::from(*self)) } }
impl<P: Parameters> Eq for GroupProjective<P> {}
impl<P: Parameters> PartialEq for GroupProjective<P> {
    fn eq(&self, o: &Self) -> bool {
        if self.is_zero() { return o.is_zero(); }
        if o.is_zero() { return false; }
        let z1 = self.z.square();
        let z2 = o.z.square();
        !(self.x * &z2 != o.x * &z1) && !(self.y * &(z2 * &o.z) != o.y * &(z1 * &self.z))
    }
}
impl<P: Parameters> PartialEq<GroupAffine<P>> for GroupProjective<P> { fn eq(&self, o: &GroupAffine<P>) -> bool { *self == GroupProjective::from(*o) } }
impl<P: Parameters> Default for GroupProjective<P> { fn default() -> Self { Self::zero() } }
impl<P: Parameters> GroupProjective<P> {
    pub fn new(x: P::BaseField, y: P::BaseField, z: P::BaseField) -> Self { GroupProjective { x, y, z, _params: PhantomData } }
}
impl<P: Parameters> Zero for GroupProjective<P> {
    fn zero() -> Self { Self::new(P::BaseField::one(), P::BaseField::one(), P::BaseField::zero()) }
    fn is_zero(&self) -> bool { self.z.is_zero() }
}
impl<P: Parameters> Distribution<GroupProjective<P>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> GroupProjective<P> {
        loop {
            let x = P::BaseField::rand(rng);
            let greatest = rng.gen();
            if let Some(p) = GroupAffine::get_point_from_x(x, greatest) { return p.scale_by_cofactor(); }
        }
    }
}
impl<P: Parameters> ToBytes for GroupProjective<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { self.x.write(&mut w)?; self.y.write(&mut w)?; self.z.write(w) } }
impl<P: Parameters> FromBytes for GroupProjective<P> {
    fn read<R: Read>(mut r: R) -> IoResult<Self> {
        let x = P::BaseField::read(&mut r)?;
        let y = P::BaseField::read(&mut r)?;
        let z = P::BaseField::read(r)?;
        Ok(Self::new(x, y, z))
    }
}
impl<P: Parameters> ProjectiveCurve for GroupProjective<P> {
    const COFACTOR: &'static [u64] = P::COFACTOR;
    type BaseField = P::BaseField;
    type ScalarField = P::ScalarField;
    type Affine = GroupAffine<P>;
    fn prime_subgroup_generator() -> Self { GroupAffine::prime_subgroup_generator().into() }
    fn is_normalized(&self) -> bool { self.is_zero() || self.z.is_one() }
    fn batch_normalization(v: &mut [Self]) {
        let mut zs = v.iter().map(|g| g.z).collect::<Vec<_>>();
        batch_inversion(&mut zs);
        v.iter_mut().zip(zs).filter(|(g, _)| !g.is_normalized()).for_each(|(g, z)| {
            let z2 = z.square();
            g.x *= &z2;
            g.y *= &(z2 * &z);
            g.z = P::BaseField::one();
        });
    }
    fn double_in_place(&mut self) -> &mut Self {
        if self.is_zero() { return self; }
        if P::COEFF_A.is_zero() {
            // dbl-2009-l
            let a = self.x.square();
            let b = self.y.square();
            let c = b.square();
            let d = ((self.x + &b).square() - &a - &c).double();
            let e = a + &a.double();
            let f = e.square();
            self.z = (self.z * &self.y).double();
            self.x = f - &d - &d;
            self.y = (d - &self.x) * &e - &c.double().double().double();
        } else {
            // dbl-2007-bl
            let xx = self.x.square();
            let yy = self.y.square();
            let yyyy = yy.square();
            let zz = self.z.square();
            let s = ((self.x + &yy).square() - &xx - &yyyy).double();
            let m = xx + &xx + &xx + &P::mul_by_a(&zz.square());
            let t = m.square() - &s.double();
            self.x = t;
            let old_y = self.y;
            self.y = m * &(s - &t) - &yyyy.double().double().double();
            self.z = (old_y + &self.z).square() - &yy - &zz;
        }
        self
    }
    fn add_assign_mixed(&mut self, o: &GroupAffine<P>) {
        if o.is_zero() { return; }
        if self.is_zero() {
            self.x = o.x;
            self.y = o.y;
            self.z = P::BaseField::one();
            return;
        }
        let z1z1 = self.z.square();
        let u2 = o.x * &z1z1;
        let s2 = (self.z * &o.y) * &z1z1;
        if self.x == u2 && self.y == s2 {
            ProjectiveCurve::double_in_place(self);
        } else {
            let h = u2 - &self.x;
            let hh = h.square();
            let i = hh.double().double();
            let mut j = h * &i;
            let r = (s2 - &self.y).double();
            let v = self.x * &i;
            self.x = r.square() - &j - &v.double();
            j *= &self.y;
            j = j.double();
            self.y = r * &(v - &self.x) - &j;
            self.z = (self.z + &h).square() - &z1z1 - &hh;
        }
    }
}
impl<P: Parameters> Group for GroupProjective<P> {
    type ScalarField = P::ScalarField;
    fn double(&self) -> Self { ProjectiveCurve::double(self) }
    fn double_in_place(&mut self) -> &mut Self { ProjectiveCurve::double_in_place(self) }
}
impl<P: Parameters> Neg for GroupProjective<P> { type Output = Self; fn neg(self) -> Self { if !self.is_zero() { Self::new(self.x, -self.y, self.z) } else { self } } }
impl<'a, P: Parameters> AddAssign<&'a Self> for GroupProjective<P> {
    fn add_assign(&mut self, o: &Self) {
        if self.is_zero() { *self = *o; return; }
        if o.is_zero() { return; }
        // add-2007-bl
        let z1z1 = self.z.square();
        let z2z2 = o.z.square();
        let u1 = self.x * &z2z2;
        let u2 = o.x * &z1z1;
        let s1 = self.y * &o.z * &z2z2;
        let s2 = o.y * &self.z * &z1z1;
        if u1 == u2 && s1 == s2 {
            ProjectiveCurve::double_in_place(self);
        } else {
            let h = u2 - &u1;
            let i = h.double().square();
            let j = h * &i;
            let r = (s2 - &s1).double();
            let v = u1 * &i;
            self.x = r.square() - &j - &v.double();
            self.y = r * &(v - &self.x) - &(s1 * &j).double();
            self.z = ((self.z + &o.z).square() - &z1z1 - &z2z2) * &h;
        }
    }
}
impl<'a, P: Parameters> SubAssign<&'a Self> for GroupProjective<P> { fn sub_assign(&mut self, o: &Self) { *self += &(-(*o)); } }
ark_ff::ops_from_ref!([P: Parameters], GroupProjective<P>);
impl<P: Parameters> MulAssign<P::ScalarField> for GroupProjective<P> { fn mul_assign(&mut self, o: P::ScalarField) { *self = ProjectiveCurve::mul(*self, o.into_repr()) } }
impl<P: Parameters> From<GroupAffine<P>> for GroupProjective<P> { fn from(p: GroupAffine<P>) -> Self { if p.is_zero() { Self::zero() } else { Self::new(p.x, p.y, P::BaseField::one()) } } }
impl<P: Parameters> From<GroupProjective<P>> for GroupAffine<P> {
    fn from(p: GroupProjective<P>) -> Self {
        if p.is_zero() { GroupAffine::zero() }
        else if p.z.is_one() { GroupAffine::new(p.x, p.y, false) }
        else {
            let zi = p.z.inverse().unwrap();
            let zi2 = zi.square();
            GroupAffine::new(p.x * &zi2, p.y * &(zi2 * &zi), false)
        }
    }
}
impl<P: Parameters> CanonicalSerialize for GroupAffine<P> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
        if self.is_zero() { P::BaseField::zero().serialize_with_flags(w, SWFlags::infinity()) }
        else { self.x.serialize_with_flags(w, SWFlags::from_y_sign(self.y > -self.y)) }
    }
    fn serialized_size(&self) -> usize { P::BaseField::zero().serialized_size_with_flags::<SWFlags>() }
    fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
        let flags = if self.is_zero() { SWFlags::infinity() } else { SWFlags::default() };
        self.x.serialize(&mut w)?;
        self.y.serialize_with_flags(&mut w, flags)
    }
    fn uncompressed_size(&self) -> usize { self.x.serialized_size() + self.y.serialized_size_with_flags::<SWFlags>() }
}
impl<P: Parameters> CanonicalDeserialize for GroupAffine<P> {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
        let (x, flags): (P::BaseField, SWFlags) = CanonicalDeserializeWithFlags::deserialize_with_flags(r)?;
        if flags.is_infinity() { Ok(Self::zero()) } else {
            let p = Self::get_point_from_x(x, flags.is_positive().unwrap()).ok_or(SerializationError::InvalidData)?;
            if !p.is_in_correct_subgroup_assuming_on_curve() { return Err(SerializationError::InvalidData); }
            Ok(p)
        }
    }
    fn deserialize_uncompressed<R: Read>(r: R) -> Result<Self, SerializationError> {
        let p = Self::deserialize_unchecked(r)?;
        if !p.is_in_correct_subgroup_assuming_on_curve() { return Err(SerializationError::InvalidData); }
        Ok(p)
    }
    fn deserialize_unchecked<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        let x: P::BaseField = CanonicalDeserialize::deserialize(&mut r)?;
        let (y, flags): (P::BaseField, SWFlags) = CanonicalDeserializeWithFlags::deserialize_with_flags(&mut r)?;
        Ok(Self::new(x, y, flags.is_infinity()))
    }
}
impl<P: Parameters> CanonicalSerialize for GroupProjective<P> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { GroupAffine::from(*self).serialize(w) }
    fn serialized_size(&self) -> usize { GroupAffine::from(*self).serialized_size() }
    fn serialize_uncompressed<W: Write>(&self, w: W) -> Result<(), SerializationError> { GroupAffine::from(*self).serialize_uncompressed(w) }
    fn uncompressed_size(&self) -> usize { GroupAffine::from(*self).uncompressed_size() }
}
impl<P: Parameters> CanonicalDeserialize for GroupProjective<P> {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(GroupAffine::deserialize(r)?.into()) }
    fn deserialize_uncompressed<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(GroupAffine::deserialize_uncompressed(r)?.into()) }
    fn deserialize_unchecked<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(GroupAffine::deserialize_unchecked(r)?.into()) }
}
#[doc(hidden)]
pub fn _m<M: ModelParameters>() {}
impl<M: Parameters, F: Field> ark_ff::ToConstraintField<F> for GroupAffine<M> where M::BaseField: ark_ff::ToConstraintField<F> {
    fn to_field_elements(&self) -> Option<Vec<F>> {
        let mut x = self.x.to_field_elements()?;
        x.extend(self.y.to_field_elements()?);
        x.extend((if self.infinity { M::BaseField::one() } else { M::BaseField::zero() }).to_field_elements()?.into_iter().take(1));
        Some(x)
    }
}
impl<M: Parameters, F: Field> ark_ff::ToConstraintField<F> for GroupProjective<M> where M::BaseField: ark_ff::ToConstraintField<F> {
    fn to_field_elements(&self) -> Option<Vec<F>> { GroupAffine::from(*self).to_field_elements() }
}
