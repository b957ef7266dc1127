use crate::*;
use linestring::linestring_2d::{self, Aabb2, Approx as _, Line2};
use linestring::linestring_3d::{self, Aabb3, Approx as _, Line3};
use vector_traits::approx::{AbsDiffEq, UlpsEq};

fn eps<S: GenericScalar>() -> <S as AbsDiffEq>::Epsilon {
    <S as AbsDiffEq>::default_epsilon()
}
fn ulp<S: GenericScalar>() -> u32 {
    <S as UlpsEq>::default_max_ulps()
}

/// four numbers make the 2D line from the first two to the last two
pub fn line2_from4__got<T: GenericVector2>(a: T::Scalar, b: T::Scalar, c: T::Scalar, d: T::Scalar) -> (T, T) {
    let l: Line2<T> = [a, b, c, d].into();
    (l.start, l.end)
}
pub fn line2_from4__want<T: GenericVector2>(a: T::Scalar, b: T::Scalar, c: T::Scalar, d: T::Scalar) -> (T, T) {
    (T::new_2d(a, b), T::new_2d(c, d))
}

/// two pairs of numbers make the 2D line from the first to the second
pub fn line2_from22__got<T: GenericVector2>(a: T::Scalar, b: T::Scalar, c: T::Scalar, d: T::Scalar) -> (T, T) {
    let l: Line2<T> = [[a, b], [c, d]].into();
    (l.start, l.end)
}
pub fn line2_from22__want<T: GenericVector2>(a: T::Scalar, b: T::Scalar, c: T::Scalar, d: T::Scalar) -> (T, T) {
    (T::new_2d(a, b), T::new_2d(c, d))
}

/// two points make the 2D line between them
pub fn line2_new__got<T: GenericVector2>(a: T, b: T) -> (T, T) {
    let l = Line2::new(a, b);
    (l.start, l.end)
}
pub fn line2_new__want<T: GenericVector2>(a: T, b: T) -> (T, T) {
    (a, b)
}

/// six numbers make the 3D line from the first three to the last three
pub fn line3_from6__got<T: GenericVector3>(a: T::Scalar, b: T::Scalar, c: T::Scalar, d: T::Scalar, e: T::Scalar, f: T::Scalar) -> (T, T) {
    let l: Line3<T> = [a, b, c, d, e, f].into();
    (l.start, l.end)
}
pub fn line3_from6__want<T: GenericVector3>(a: T::Scalar, b: T::Scalar, c: T::Scalar, d: T::Scalar, e: T::Scalar, f: T::Scalar) -> (T, T) {
    (T::new_3d(a, b, c), T::new_3d(d, e, f))
}

/// two points make the 3D line between them
pub fn line3_from2__got<T: GenericVector3>(a: T, b: T) -> (T, T, T, T) {
    let l: Line3<T> = [a, b].into();
    let m = Line3::new(a, b);
    (l.start, l.end, m.start, m.end)
}
pub fn line3_from2__want<T: GenericVector3>(a: T, b: T) -> (T, T, T, T) {
    (a, b, a, b)
}

/// six numbers make the 3D box with the first three as low and the last three as high corner
pub fn box3_from6__got<T: GenericVector3>(a: T::Scalar, b: T::Scalar, c: T::Scalar, d: T::Scalar, e: T::Scalar, f: T::Scalar) -> (Option<T>, Option<T>) {
    let l: Aabb3<T> = [a, b, c, d, e, f].into();
    (l.get_low(), l.get_high())
}
pub fn box3_from6__want<T: GenericVector3>(a: T::Scalar, b: T::Scalar, c: T::Scalar, d: T::Scalar, e: T::Scalar, f: T::Scalar) -> (Option<T>, Option<T>) {
    (Some(T::new_3d(a, b, c)), Some(T::new_3d(d, e, f)))
}

/// two points make the 3D box with these corners
pub fn box3_from2__got<T: GenericVector3>(a: T, b: T) -> (Option<T>, Option<T>) {
    let l: Aabb3<T> = [a, b].into();
    (l.get_low(), l.get_high())
}
pub fn box3_from2__want<T: GenericVector3>(a: T, b: T) -> (Option<T>, Option<T>) {
    (Some(a), Some(b))
}

fn eq2<T: GenericVector2>(a: T, b: T) -> bool {
    near(a.x(), b.x()) && near(a.y(), b.y())
}

/// two directed lines are equal exactly when all four coordinates are within the default tolerance
pub fn line2_eq__got<T: GenericVector2>(a: T, b: T, c: T, d: T) -> (bool, bool) {
    (Line2::new(a, b) == Line2::new(c, d), Line2::new(a, b) != Line2::new(c, d))
}
pub fn line2_eq__want<T: GenericVector2>(a: T, b: T, c: T, d: T) -> (bool, bool) {
    let r = eq2(a, c) && eq2(b, d);
    (r, !r)
}

/// two boxes are equal exactly when both are empty, or neither is and all four limits are within the default tolerance
pub fn box2_eq__got<T: GenericVector2>(p: Aabb2<T>, q: Aabb2<T>) -> bool {
    p == q
}
pub fn box2_eq__want<T: GenericVector2>(p: Aabb2<T>, q: Aabb2<T>) -> bool {
    match (p.min_max(), q.min_max()) {
        (None, None) => true,
        (Some((a, b)), Some((c, d))) => eq2(a, c) && eq2(b, d),
        _ => false,
    }
}

fn ad<S: GenericScalar>(a: S, b: S, e: <S as AbsDiffEq>::Epsilon) -> bool {
    S::abs_diff_eq(&a, &b, e)
}
fn ul<S: GenericScalar>(a: S, b: S, e: <S as AbsDiffEq>::Epsilon, u: u32) -> bool {
    S::ulps_eq(&a, &b, e, u)
}

/// lines are close within an absolute tolerance when their end points are, in the same or in opposite direction
pub fn line2_abs__got<T: GenericVector2>(a: T, b: T, c: T, d: T, e: <T::Scalar as AbsDiffEq>::Epsilon) -> bool
where
    Line2<T>: AbsDiffEq<Epsilon = T::Scalar>,
    T::Scalar: AbsDiffEq<Epsilon = T::Scalar>,
{
    Line2::new(a, b).abs_diff_eq(&Line2::new(c, d), e)
}
pub fn line2_abs__pre<T: GenericVector2>(a: T, b: T, c: T, d: T, e: <T::Scalar as AbsDiffEq>::Epsilon) -> bool {
    // lines shorter than the tolerance are left open
    let same = |p: T, q: T| ad(p.x(), q.x(), e) && ad(p.y(), q.y(), e);
    !(same(a, c) && same(a, d) && same(b, c))
}
pub fn line2_abs__want<T: GenericVector2>(a: T, b: T, c: T, d: T, e: <T::Scalar as AbsDiffEq>::Epsilon) -> bool {
    let same = |p: T, q: T| ad(p.x(), q.x(), e) && ad(p.y(), q.y(), e);
    same(a, c) && same(b, d) || same(a, d) && same(b, c)
}

/// lines are close within a rounding tolerance when their end points are, in the same or in opposite direction
pub fn line2_ulps__got<T: GenericVector2>(a: T, b: T, c: T, d: T, e: <T::Scalar as AbsDiffEq>::Epsilon, u: u32) -> bool
where
    Line2<T>: UlpsEq<Epsilon = T::Scalar>,
    T::Scalar: AbsDiffEq<Epsilon = T::Scalar>,
{
    UlpsEq::ulps_eq(&Line2::new(a, b), &Line2::new(c, d), e, u)
}
pub fn line2_ulps__pre<T: GenericVector2>(a: T, b: T, c: T, d: T, e: <T::Scalar as AbsDiffEq>::Epsilon, u: u32) -> bool {
    // lines shorter than the tolerance are left open
    let same = |p: T, q: T| ul(p.x(), q.x(), e, u) && ul(p.y(), q.y(), e, u);
    !(same(a, c) && same(a, d) && same(b, c))
}
pub fn line2_ulps__want<T: GenericVector2>(a: T, b: T, c: T, d: T, e: <T::Scalar as AbsDiffEq>::Epsilon, u: u32) -> bool {
    let same = |p: T, q: T| ul(p.x(), q.x(), e, u) && ul(p.y(), q.y(), e, u);
    same(a, c) && same(b, d) || same(a, d) && same(b, c)
}

/// 2D line strings are close when they have the same number of points and every pair of points is close
pub fn string2_ulps__got<T: GenericVector2>(v: Vec<T>, w: Vec<T>, e: <T::Scalar as AbsDiffEq>::Epsilon, u: u32) -> bool {
    linestring_2d::Approx::ulps_eq(&v, &w, e, u)
}
pub fn string2_ulps__want<T: GenericVector2>(v: Vec<T>, w: Vec<T>, e: <T::Scalar as AbsDiffEq>::Epsilon, u: u32) -> bool {
    if v.len() != w.len() {
        return false;
    }
    for i in 0..v.len() {
        if !v[i].is_ulps_eq(w[i], e, u) {
            return false;
        }
    }
    true
}

/// the same within an absolute tolerance
pub fn string2_abs__got<T: GenericVector2>(v: Vec<T>, w: Vec<T>, e: <T::Scalar as AbsDiffEq>::Epsilon) -> bool {
    linestring_2d::Approx::abs_diff_eq(&v, &w, e)
}
pub fn string2_abs__want<T: GenericVector2>(v: Vec<T>, w: Vec<T>, e: <T::Scalar as AbsDiffEq>::Epsilon) -> bool {
    if v.len() != w.len() {
        return false;
    }
    for i in 0..v.len() {
        if !v[i].is_abs_diff_eq(w[i], e) {
            return false;
        }
    }
    true
}

/// 3D line strings are close when they have the same number of points and every pair of points is close
pub fn string3_ulps__got<T: GenericVector3>(v: Vec<T>, w: Vec<T>, e: <T::Scalar as AbsDiffEq>::Epsilon, u: u32) -> bool {
    linestring_3d::Approx::ulps_eq(&v, &w, e, u)
}
pub fn string3_ulps__want<T: GenericVector3>(v: Vec<T>, w: Vec<T>, e: <T::Scalar as AbsDiffEq>::Epsilon, u: u32) -> bool {
    if v.len() != w.len() {
        return false;
    }
    for i in 0..v.len() {
        if !v[i].is_ulps_eq(w[i], e, u) {
            return false;
        }
    }
    true
}

/// the same within an absolute tolerance
pub fn string3_abs__got<T: GenericVector3>(v: Vec<T>, w: Vec<T>, e: <T::Scalar as AbsDiffEq>::Epsilon) -> bool {
    linestring_3d::Approx::abs_diff_eq(&v, &w, e)
}
pub fn string3_abs__want<T: GenericVector3>(v: Vec<T>, w: Vec<T>, e: <T::Scalar as AbsDiffEq>::Epsilon) -> bool {
    if v.len() != w.len() {
        return false;
    }
    for i in 0..v.len() {
        if !v[i].is_abs_diff_eq(w[i], e) {
            return false;
        }
    }
    true
}
