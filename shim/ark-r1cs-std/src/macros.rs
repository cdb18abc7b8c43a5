/// Operator impls for a variable type out of inherent `op_add/op_sub/op_mul(&self,&Self)` and `of_const`.
#[macro_export]
macro_rules! var_ops {
    ($g:tt, $w:tt, $t:ty, $v:ty, $($Op:ident $op:ident $OpA:ident $opa:ident $f:ident),*) => { $(
        $crate::var_ops!(@one $g $w [$t] [$v] $Op $op $OpA $opa $f);
    )* };
    (@one [$($g:tt)*] [$($w:tt)*] [$t:ty] [$v:ty] $Op:ident $op:ident $OpA:ident $opa:ident $f:ident) => {
        impl<'shim_a, $($g)*> std::ops::$Op<&'shim_a $t> for $t where $($w)* { type Output = $t; fn $op(self, o: &'shim_a $t) -> $t { self.$f(o) } }
        impl<$($g)*> std::ops::$Op<$t> for $t where $($w)* { type Output = $t; fn $op(self, o: $t) -> $t { self.$f(&o) } }
        impl<'shim_a, 'shim_b, $($g)*> std::ops::$Op<&'shim_a $t> for &'shim_b $t where $($w)* { type Output = $t; fn $op(self, o: &'shim_a $t) -> $t { self.$f(o) } }
        impl<'shim_b, $($g)*> std::ops::$Op<$t> for &'shim_b $t where $($w)* { type Output = $t; fn $op(self, o: $t) -> $t { self.$f(&o) } }
        impl<$($g)*> std::ops::$Op<$v> for $t where $($w)* { type Output = $t; fn $op(self, o: $v) -> $t { self.$f(&<$t>::of_const(o)) } }
        impl<'shim_b, $($g)*> std::ops::$Op<$v> for &'shim_b $t where $($w)* { type Output = $t; fn $op(self, o: $v) -> $t { self.$f(&<$t>::of_const(o)) } }
        impl<'shim_a, $($g)*> std::ops::$OpA<&'shim_a $t> for $t where $($w)* { fn $opa(&mut self, o: &'shim_a $t) { *self = self.$f(o); } }
        impl<$($g)*> std::ops::$OpA<$t> for $t where $($w)* { fn $opa(&mut self, o: $t) { *self = self.$f(&o); } }
        impl<$($g)*> std::ops::$OpA<$v> for $t where $($w)* { fn $opa(&mut self, o: $v) { *self = self.$f(&<$t>::of_const(o)); } }
    };
}
