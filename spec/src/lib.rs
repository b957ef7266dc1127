//! Specification functions.  NAME__got computes something with the library's public interface,
//! NAME__want states what it has to be; NAME__holds states a property as a boolean; NAME__pre
//! restricts either to meaningful inputs.  Nothing here is ever executed: lib/ctx.py compares
//! the normal forms the abstract interpreter derives for both sides.
#![allow(non_snake_case, dead_code, unused_imports, unused_variables, unused_mut, clippy::all)]
use vector_traits::*;

pub fn mn<S: PartialOrd + Copy>(a: S, b: S) -> S {
    if b < a {
        b
    } else {
        a
    }
}
pub fn mx<S: PartialOrd + Copy>(a: S, b: S) -> S {
    if b > a {
        b
    } else {
        a
    }
}
pub fn fmin<S: GenericScalar>(a: S, b: S) -> S {
    vector_traits::num_traits::Float::min(a, b)
}
pub fn fmax<S: GenericScalar>(a: S, b: S) -> S {
    vector_traits::num_traits::Float::max(a, b)
}
pub fn near<S: GenericScalar>(a: S, b: S) -> bool {
    approx::UlpsEq::ulps_eq(&a, &b, <S as approx::AbsDiffEq>::default_epsilon(), <S as approx::UlpsEq>::default_max_ulps())
}
pub fn min2<T: HasXY>(a: T, b: T) -> T {
    T::new_2d(mn(a.x(), b.x()), mn(a.y(), b.y()))
}
pub fn max2<T: HasXY>(a: T, b: T) -> T {
    T::new_2d(mx(a.x(), b.x()), mx(a.y(), b.y()))
}
pub fn min3<T: HasXYZ>(a: T, b: T) -> T {
    T::new_3d(mn(a.x(), b.x()), mn(a.y(), b.y()), mn(a.z(), b.z()))
}
pub fn max3<T: HasXYZ>(a: T, b: T) -> T {
    T::new_3d(mx(a.x(), b.x()), mx(a.y(), b.y()), mx(a.z(), b.z()))
}
pub fn le2<T: HasXY>(a: T, b: T) -> bool {
    a.x() <= b.x() && a.y() <= b.y()
}
pub fn le3<T: HasXYZ>(a: T, b: T) -> bool {
    a.x() <= b.x() && a.y() <= b.y() && a.z() <= b.z()
}

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c21;
