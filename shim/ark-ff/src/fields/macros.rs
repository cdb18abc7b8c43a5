/// All by-value operator impls from the `&`-assign ones.
#[macro_export]
macro_rules! ops_from_ref {
    ([$($g:tt)*], $t:ty) => {
        impl<$($g)*> std::ops::Add<$t> for $t { type Output = Self; #[inline] fn add(mut self, o: $t) -> Self { std::ops::AddAssign::add_assign(&mut self, &o); self } }
        impl<$($g)*> std::ops::Sub<$t> for $t { type Output = Self; #[inline] fn sub(mut self, o: $t) -> Self { std::ops::SubAssign::sub_assign(&mut self, &o); self } }
        impl<'shim_a, $($g)*> std::ops::Add<&'shim_a $t> for $t { type Output = Self; #[inline] fn add(mut self, o: &$t) -> Self { std::ops::AddAssign::add_assign(&mut self, o); self } }
        impl<'shim_a, $($g)*> std::ops::Sub<&'shim_a $t> for $t { type Output = Self; #[inline] fn sub(mut self, o: &$t) -> Self { std::ops::SubAssign::sub_assign(&mut self, o); self } }
        impl<'shim_b, 'shim_a, $($g)*> std::ops::Add<&'shim_a $t> for &'shim_b $t { type Output = $t; #[inline] fn add(self, o: &$t) -> $t { let mut s = *self; std::ops::AddAssign::add_assign(&mut s, o); s } }
        impl<'shim_b, 'shim_a, $($g)*> std::ops::Sub<&'shim_a $t> for &'shim_b $t { type Output = $t; #[inline] fn sub(self, o: &$t) -> $t { let mut s = *self; std::ops::SubAssign::sub_assign(&mut s, o); s } }
        impl<$($g)*> std::ops::AddAssign<$t> for $t { #[inline] fn add_assign(&mut self, o: $t) { std::ops::AddAssign::add_assign(self, &o) } }
        impl<$($g)*> std::ops::SubAssign<$t> for $t { #[inline] fn sub_assign(&mut self, o: $t) { std::ops::SubAssign::sub_assign(self, &o) } }
        impl<$($g)*> std::iter::Sum<$t> for $t { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(<Self as $crate::Zero>::zero(), |a, b| a + &b) } }
        impl<'shim_a, $($g)*> std::iter::Sum<&'shim_a $t> for $t { fn sum<I: Iterator<Item = &'shim_a Self>>(i: I) -> Self { i.fold(<Self as $crate::Zero>::zero(), |a, b| a + b) } }
    };
}
#[macro_export]
macro_rules! field_ops_from_ref {
    ([$($g:tt)*], $t:ty) => {
        $crate::ops_from_ref!([$($g)*], $t);
        impl<$($g)*> std::ops::Mul<$t> for $t { type Output = Self; #[inline] fn mul(mut self, o: $t) -> Self { std::ops::MulAssign::mul_assign(&mut self, &o); self } }
        impl<$($g)*> std::ops::Div<$t> for $t { type Output = Self; #[inline] fn div(mut self, o: $t) -> Self { std::ops::DivAssign::div_assign(&mut self, &o); self } }
        impl<'shim_a, $($g)*> std::ops::Mul<&'shim_a $t> for $t { type Output = Self; #[inline] fn mul(mut self, o: &$t) -> Self { std::ops::MulAssign::mul_assign(&mut self, o); self } }
        impl<'shim_a, $($g)*> std::ops::Div<&'shim_a $t> for $t { type Output = Self; #[inline] fn div(mut self, o: &$t) -> Self { std::ops::DivAssign::div_assign(&mut self, o); self } }
        impl<'shim_b, 'shim_a, $($g)*> std::ops::Mul<&'shim_a $t> for &'shim_b $t { type Output = $t; #[inline] fn mul(self, o: &$t) -> $t { let mut s = *self; std::ops::MulAssign::mul_assign(&mut s, o); s } }
        impl<$($g)*> std::ops::MulAssign<$t> for $t { #[inline] fn mul_assign(&mut self, o: $t) { std::ops::MulAssign::mul_assign(self, &o) } }
        impl<$($g)*> std::ops::DivAssign<$t> for $t { #[inline] fn div_assign(&mut self, o: $t) { std::ops::DivAssign::div_assign(self, &o) } }
        impl<'shim_a, $($g)*> std::ops::DivAssign<&'shim_a $t> for $t { #[inline] fn div_assign(&mut self, o: &$t) { let i = $crate::Field::inverse(o).unwrap(); std::ops::MulAssign::mul_assign(self, &i) } }
        impl<$($g)*> std::iter::Product<$t> for $t { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(<Self as $crate::One>::one(), |a, b| a * &b) } }
        impl<'shim_a, $($g)*> std::iter::Product<&'shim_a $t> for $t { fn product<I: Iterator<Item = &'shim_a Self>>(i: I) -> Self { i.fold(<Self as $crate::One>::one(), |a, b| a * b) } }
    };
}

/// Declares the parameters of a prime field: name, BigInteger type, limbs, Fp parameter trait, modulus, generator
#[macro_export]
macro_rules! declare_field_params {
    ($name:ident, $fftname:ident, $bi:ident, $n:expr, $ptrait:ident, $modulus:expr, $gen:expr) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub struct $name;
        impl $crate::$ptrait for $name {}
        impl $crate::FftParameters for $name {
            type BigInt = $crate::$bi;
            const TWO_ADICITY: u32 = $crate::biginteger::limbs_trailing_zeros(&$crate::biginteger::limbs_sub_one(&<$name as $crate::FpParameters>::MODULUS.0));
        }
        impl $crate::FpParameters for $name {
            const MODULUS: $crate::$bi = $crate::$bi($crate::biginteger::parse_dec::<$n>($modulus));
            const MODULUS_BITS: u32 = $crate::biginteger::limbs_bits(&Self::MODULUS.0);
            const REPR_SHAVE_BITS: u32 = 64 * $n - Self::MODULUS_BITS;
            const R: $crate::$bi = $crate::$bi($crate::biginteger::pow2_mod::<$n>(64 * $n, &Self::MODULUS.0));
            const R2: $crate::$bi = $crate::$bi($crate::biginteger::pow2_mod::<$n>(128 * $n, &Self::MODULUS.0));
            const INV: u64 = $crate::biginteger::mont_inv(Self::MODULUS.0[0]);
            const GENERATOR: $crate::$bi = {
                let mut g = [0u64; $n];
                g[0] = $gen;
                $crate::$bi($crate::biginteger::mont_mul::<$n>(&g, &Self::R2.0, &Self::MODULUS.0, Self::INV))
            };
            const CAPACITY: u32 = Self::MODULUS_BITS - 1;
            const T: $crate::$bi = $crate::$bi($crate::biginteger::limbs_shr(&$crate::biginteger::limbs_sub_one(&Self::MODULUS.0), <$name as $crate::FftParameters>::TWO_ADICITY));
            const T_MINUS_ONE_DIV_TWO: $crate::$bi = $crate::$bi($crate::biginteger::limbs_shr(&$crate::biginteger::limbs_sub_one(&Self::T.0), 1));
            const MODULUS_MINUS_ONE_DIV_TWO: $crate::$bi = $crate::$bi($crate::biginteger::limbs_shr(&$crate::biginteger::limbs_sub_one(&Self::MODULUS.0), 1));
        }
    };
}
