use crate::{group::Group, AffineCurve, ProjectiveCurve, TEModelParameters as Parameters};
use ark_ff::{batch_inversion, BitIteratorBE, Field, FromBytes, One, PrimeField, SquareRootField, ToBytes, UniformRand, Zero};
use ark_serialize::*;
use rand::{distributions::{Distribution, Standard}, Rng};
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::io::Result as IoResult;
use std::marker::PhantomData;
use std::ops::*;

pub struct GroupAffine<P: Parameters> { pub x: P::BaseField, pub y: P::BaseField, _params: PhantomData<P> }
impl<P: Parameters> Copy for GroupAffine<P> {}
impl<P: Parameters> Clone for GroupAffine<P> { fn clone(&self) -> Self { *self } }
impl<P: Parameters> PartialEq for GroupAffine<P> { fn eq(&self, o: &Self) -> bool { self.x == o.x && self.y == o.y } }
impl<P: Parameters> Eq for GroupAffine<P> {}
impl<P: Parameters> Hash for GroupAffine<P> { fn hash<H: Hasher>(&self, h: &mut H) { self.x.hash(h); self.y.hash(h) } }
impl<P: Parameters> Debug for GroupAffine<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Display::fmt(self, f) } }
impl<P: Parameters> Display for GroupAffine<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "GroupAffine(x={}, y={})", self.x, self.y) } }
impl<P: Parameters> GroupAffine<P> {
    pub fn new(x: P::BaseField, y: P::BaseField) -> Self { GroupAffine { x, y, _params: PhantomData } }
    pub fn scale_by_cofactor(&self) -> GroupProjective<P> { self.mul_bits(BitIteratorBE::new(P::COFACTOR)) }
    pub(crate) fn mul_bits(&self, bits: impl Iterator<Item = bool>) -> GroupProjective<P> {
        let mut res = GroupProjective::zero();
        for i in bits.skip_while(|b| !b) {
            ProjectiveCurve::double_in_place(&mut res);
            if i { res.add_assign_mixed(self) }
        }
        res
    }
    /// y from x: (a x^2 - 1) / (d x^2 - 1) = y^2
    pub fn get_point_from_x(x: P::BaseField, greatest: bool) -> Option<Self> {
        let x2 = x.square();
        let one = P::BaseField::one();
        let numerator = P::mul_by_a(&x2) - &one;
        let denominator = P::COEFF_D * &x2 - &one;
        let y2 = denominator.inverse().map(|d| d * &numerator);
        y2.and_then(|y2| y2.sqrt()).map(|y| {
            let negy = -y;
            let y = if (y < negy) ^ greatest { y } else { negy };
            Self::new(x, y)
        })
    }
    pub fn is_on_curve(&self) -> bool {
        let x2 = self.x.square();
        let y2 = self.y.square();
        y2 + &P::mul_by_a(&x2) == P::BaseField::one() + &(P::COEFF_D * &(x2 * &y2))
    }
    pub fn is_in_correct_subgroup_assuming_on_curve(&self) -> bool { self.mul_bits(BitIteratorBE::new(P::ScalarField::characteristic())).is_zero() }
}
impl<P: Parameters> Zero for GroupAffine<P> {
    fn zero() -> Self { Self::new(P::BaseField::zero(), P::BaseField::one()) }
    fn is_zero(&self) -> bool { self.x.is_zero() & self.y.is_one() }
}
impl<P: Parameters> Neg for GroupAffine<P> { type Output = Self; fn neg(self) -> Self { Self::new(-self.x, self.y) } }
impl<'a, P: Parameters> AddAssign<&'a Self> for GroupAffine<P> { fn add_assign(&mut self, o: &Self) { let s = GroupProjective::from(*self) + &GroupProjective::from(*o); *self = s.into(); } }
impl<'a, P: Parameters> SubAssign<&'a Self> for GroupAffine<P> { fn sub_assign(&mut self, o: &Self) { *self += &(-*o); } }
ark_ff::ops_from_ref!([P: Parameters], GroupAffine<P>);
impl<P: Parameters> MulAssign<P::ScalarField> for GroupAffine<P> { fn mul_assign(&mut self, o: P::ScalarField) { *self = self.mul_bits(BitIteratorBE::new(o.into_repr())).into() } }
impl<P: Parameters> Default for GroupAffine<P> { fn default() -> Self { Self::zero() } }
impl<P: Parameters> ToBytes for GroupAffine<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { self.x.write(&mut w)?; self.y.write(&mut w) } }
impl<P: Parameters> FromBytes for GroupAffine<P> { fn read<R: Read>(mut r: R) -> IoResult<Self> { let x = P::BaseField::read(&mut r)?; let y = P::BaseField::read(&mut r)?; Ok(Self::new(x, y)) } }
impl<P: Parameters> Distribution<GroupAffine<P>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> GroupAffine<P> {
        loop {
            let x = P::BaseField::rand(rng);
            let greatest = rng.gen();
            if let Some(p) = GroupAffine::get_point_from_x(x, greatest) { return p.scale_by_cofactor().into(); }
        }
    }
}
impl<P: Parameters> AffineCurve for GroupAffine<P> {
    const COFACTOR: &'static [u64] = P::COFACTOR;
    type BaseField = P::BaseField;
    type ScalarField = P::ScalarField;
    type Projective = GroupProjective<P>;
    fn prime_subgroup_generator() -> Self { Self::new(P::AFFINE_GENERATOR_COEFFS.0, P::AFFINE_GENERATOR_COEFFS.1) }
    fn from_random_bytes(bytes: &[u8]) -> Option<Self> {
        P::BaseField::from_random_bytes_with_flags::<EdwardsFlags>(bytes).and_then(|(x, flags)| if x.is_zero() { Some(Self::zero()) } else { Self::get_point_from_x(x, flags.is_positive()) })
    }
    fn mul<S: Into<<Self::ScalarField as PrimeField>::BigInt>>(&self, by: S) -> GroupProjective<P> { self.mul_bits(BitIteratorBE::new(by.into())) }
    fn mul_by_cofactor_to_projective(&self) -> GroupProjective<P> { self.scale_by_cofactor() }
    fn mul_by_cofactor_inv(&self) -> Self { AffineCurve::mul(self, P::COFACTOR_INV).into() }
}

pub struct GroupProjective<P: Parameters> { pub x: P::BaseField, pub y: P::BaseField, pub t: P::BaseField, pub z: P::BaseField, _params: PhantomData<P> }
impl<P: Parameters> Copy for GroupProjective<P> {}
impl<P: Parameters> Clone for GroupProjective<P> { fn clone(&self) -> Self { *self } }
impl<P: Parameters> Hash for GroupProjective<P> { fn hash<H: Hasher>(&self, h: &mut H) { self.x.hash(h); self.y.hash(h); self.t.hash(h); self.z.hash(h) } }
impl<P: Parameters> Debug for GroupProjective<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Display::fmt(self, f) } }
impl<P: Parameters> Display for GroupProjective<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", GroupAffine::from(*self)) } }
impl<P: Parameters> Eq for GroupProjective<P> {}
impl<P: Parameters> PartialEq for GroupProjective<P> {
    fn eq(&self, o: &Self) -> bool {
        if self.is_zero() { return o.is_zero(); }
        if o.is_zero() { return false; }
        (self.x * &o.z) == (o.x * &self.z) && (self.y * &o.z) == (o.y * &self.z)
    }
}
impl<P: Parameters> Default for GroupProjective<P> { fn default() -> Self { Self::zero() } }
impl<P: Parameters> GroupProjective<P> {
    pub fn new(x: P::BaseField, y: P::BaseField, t: P::BaseField, z: P::BaseField) -> Self { GroupProjective { x, y, t, z, _params: PhantomData } }
}
impl<P: Parameters> Zero for GroupProjective<P> {
    fn zero() -> Self { Self::new(P::BaseField::zero(), P::BaseField::one(), P::BaseField::zero(), P::BaseField::one()) }
    fn is_zero(&self) -> bool { self.x.is_zero() && self.y == self.z && !self.y.is_zero() && self.t.is_zero() }
}
impl<P: Parameters> Distribution<GroupProjective<P>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> GroupProjective<P> {
        loop {
            let x = P::BaseField::rand(rng);
            let greatest = rng.gen();
            if let Some(p) = GroupAffine::get_point_from_x(x, greatest) { return p.scale_by_cofactor(); }
        }
    }
}
impl<P: Parameters> ToBytes for GroupProjective<P> { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { self.x.write(&mut w)?; self.y.write(&mut w)?; self.t.write(&mut w)?; self.z.write(w) } }
impl<P: Parameters> FromBytes for GroupProjective<P> {
    fn read<R: Read>(mut r: R) -> IoResult<Self> {
        let x = P::BaseField::read(&mut r)?;
        let y = P::BaseField::read(&mut r)?;
        let t = P::BaseField::read(&mut r)?;
        let z = P::BaseField::read(r)?;
        Ok(Self::new(x, y, t, z))
    }
}
impl<P: Parameters> ProjectiveCurve for GroupProjective<P> {
    const COFACTOR: &'static [u64] = P::COFACTOR;
    type BaseField = P::BaseField;
    type ScalarField = P::ScalarField;
    type Affine = GroupAffine<P>;
    fn prime_subgroup_generator() -> Self { GroupAffine::prime_subgroup_generator().into() }
    fn is_normalized(&self) -> bool { self.z.is_one() }
    fn batch_normalization(v: &mut [Self]) {
        let mut zs = v.iter().map(|g| g.z).collect::<Vec<_>>();
        batch_inversion(&mut zs);
        v.iter_mut().zip(zs).filter(|(g, _)| !g.is_normalized()).for_each(|(g, z)| {
            g.x *= &z;
            g.y *= &z;
            g.t *= &z;
            g.z = P::BaseField::one();
        });
    }
    fn double_in_place(&mut self) -> &mut Self {
        let a = self.x.square();
        let b = self.y.square();
        let c = self.z.square().double();
        let d = P::mul_by_a(&a);
        let e = (self.x + &self.y).square() - &a - &b;
        let g = d + &b;
        let f = g - &c;
        let h = d - &b;
        self.x = e * &f;
        self.y = g * &h;
        self.t = e * &h;
        self.z = f * &g;
        self
    }
    fn add_assign_mixed(&mut self, o: &GroupAffine<P>) { let q: Self = (*o).into(); *self += &q; }
}
impl<P: Parameters> Group for GroupProjective<P> {
    type ScalarField = P::ScalarField;
    fn double(&self) -> Self { ProjectiveCurve::double(self) }
    fn double_in_place(&mut self) -> &mut Self { ProjectiveCurve::double_in_place(self) }
}
impl<P: Parameters> Neg for GroupProjective<P> { type Output = Self; fn neg(self) -> Self { Self::new(-self.x, self.y, -self.t, self.z) } }
impl<'a, P: Parameters> AddAssign<&'a Self> for GroupProjective<P> {
    fn add_assign(&mut self, o: &Self) {
        // unified, add-2008-hwcd
        let a = self.x * &o.x;
        let b = self.y * &o.y;
        let c = P::COEFF_D * &self.t * &o.t;
        let d = self.z * &o.z;
        let h = b - &P::mul_by_a(&a);
        let e = (self.x + &self.y) * &(o.x + &o.y) - &a - &b;
        let f = d - &c;
        let g = d + &c;
        self.x = e * &f;
        self.y = g * &h;
        self.t = e * &h;
        self.z = f * &g;
    }
}
impl<'a, P: Parameters> SubAssign<&'a Self> for GroupProjective<P> { fn sub_assign(&mut self, o: &Self) { *self += &(-(*o)); } }
ark_ff::ops_from_ref!([P: Parameters], GroupProjective<P>);
impl<P: Parameters> MulAssign<P::ScalarField> for GroupProjective<P> { fn mul_assign(&mut self, o: P::ScalarField) { *self = ProjectiveCurve::mul(*self, o.into_repr()) } }
impl<P: Parameters> From<GroupAffine<P>> for GroupProjective<P> { fn from(p: GroupAffine<P>) -> Self { Self::new(p.x, p.y, p.x * &p.y, P::BaseField::one()) } }
impl<P: Parameters> From<GroupProjective<P>> for GroupAffine<P> {
    fn from(p: GroupProjective<P>) -> Self {
        if p.is_zero() { GroupAffine::zero() }
        else if p.z.is_one() { GroupAffine::new(p.x, p.y) }
        else { let zi = p.z.inverse().unwrap(); GroupAffine::new(p.x * &zi, p.y * &zi) }
    }
}
impl<P: Parameters> CanonicalSerialize for GroupAffine<P> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
        if self.is_zero() { P::BaseField::zero().serialize_with_flags(w, EdwardsFlags::default()) }
        else { self.x.serialize_with_flags(w, EdwardsFlags::from_x_sign(self.y > -self.y)) }
    }
    fn serialized_size(&self) -> usize { P::BaseField::zero().serialized_size_with_flags::<EdwardsFlags>() }
    fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { self.x.serialize_uncompressed(&mut w)?; self.y.serialize_uncompressed(&mut w) }
    fn uncompressed_size(&self) -> usize { self.x.serialized_size() + self.y.serialized_size() }
}
impl<P: Parameters> CanonicalDeserialize for GroupAffine<P> {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
        let (x, flags): (P::BaseField, EdwardsFlags) = CanonicalDeserializeWithFlags::deserialize_with_flags(r)?;
        if x.is_zero() { return Ok(Self::zero()); }
        let p = Self::get_point_from_x(x, flags.is_positive()).ok_or(SerializationError::InvalidData)?;
        if !p.is_in_correct_subgroup_assuming_on_curve() { return Err(SerializationError::InvalidData); }
        Ok(p)
    }
    fn deserialize_uncompressed<R: Read>(mut r: R) -> Result<Self, SerializationError> {
        let x = P::BaseField::deserialize(&mut r)?;
        let y = P::BaseField::deserialize(&mut r)?;
        let p = Self::new(x, y);
        if !p.is_in_correct_subgroup_assuming_on_curve() { return Err(SerializationError::InvalidData); }
        Ok(p)
    }
}
impl<P: Parameters> CanonicalSerialize for GroupProjective<P> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { GroupAffine::from(*self).serialize(w) }
    fn serialized_size(&self) -> usize { GroupAffine::from(*self).serialized_size() }
}
impl<P: Parameters> CanonicalDeserialize for GroupProjective<P> {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> { Ok(GroupAffine::deserialize(r)?.into()) }
}
impl<M: Parameters, F: Field> ark_ff::ToConstraintField<F> for GroupAffine<M> where M::BaseField: ark_ff::ToConstraintField<F> {
    fn to_field_elements(&self) -> Option<Vec<F>> { let mut x = self.x.to_field_elements()?; x.extend(self.y.to_field_elements()?); Some(x) }
}
impl<M: Parameters, F: Field> ark_ff::ToConstraintField<F> for GroupProjective<M> where M::BaseField: ark_ff::ToConstraintField<F> {
    fn to_field_elements(&self) -> Option<Vec<F>> { GroupAffine::from(*self).to_field_elements() }
}
