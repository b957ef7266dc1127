use crate::*;
use vector_traits::num_traits::{float::FloatCore as _, real::Real as _};
use linestring::linestring_2d::{Aabb2, SimpleAffine};
use linestring::LinestringError;

type R<X> = Result<X, LinestringError>;

fn scale<T: GenericVector2>(a: (T, T), b: (T, T)) -> T::Scalar {
    let one = T::Scalar::ONE;
    let src = mx(mx(a.1.x() - a.0.x(), one), mx(a.1.y() - a.0.y(), one));
    let dst = mn(mx(b.1.x() - b.0.x(), one), mx(b.1.y() - b.0.y(), one));
    dst / src
}
fn mid<S: GenericScalar>(a: S, b: S) -> S {
    (a + b) / S::TWO
}

/// a transform between two boxes exists iff neither box is empty
pub fn exists__got<T: GenericVector2>(a: &Aabb2<T>, b: &Aabb2<T>) -> bool {
    SimpleAffine::new(a, b).is_ok()
}
pub fn exists__want<T: GenericVector2>(a: &Aabb2<T>, b: &Aabb2<T>) -> bool {
    a.min_max().is_some() && b.min_max().is_some()
}

/// a transform that cannot be built is reported as a box error
pub fn error__got<T: GenericVector2>(a: &Aabb2<T>, b: &Aabb2<T>) -> bool {
    matches!(SimpleAffine::new(a, b), Err(LinestringError::AabbError(_)))
}
pub fn error__want<T: GenericVector2>(a: &Aabb2<T>, b: &Aabb2<T>) -> bool {
    a.min_max().is_none() || b.min_max().is_none()
}

/// the transform maps the source centre to the destination centre with one uniform scale: smallest destination side over largest source side, sides at least 1
pub fn forward__got<T: GenericVector2>(a: (T, T), b: (T, T), p: T) -> Option<T> {
    let mut s = Aabb2::new(a.0);
    s.update_with_point(a.1);
    let mut d = Aabb2::new(b.0);
    d.update_with_point(b.1);
    let t = SimpleAffine::new(&s, &d).ok()?;
    t.transform_ab(p).ok()
}
pub fn forward__pre<T: GenericVector2>(a: (T, T), b: (T, T), p: T) -> bool {
    le2(a.0, a.1) && le2(b.0, b.1)
}
pub fn forward__want<T: GenericVector2>(a: (T, T), b: (T, T), p: T) -> Option<T> {
    let s = scale(a, b);
    let x = (p.x() - mid(a.0.x(), a.1.x())) * s + mid(b.0.x(), b.1.x());
    let y = (p.y() - mid(a.0.y(), a.1.y())) * s + mid(b.0.y(), b.1.y());
    if x.is_finite() && y.is_finite() {
        Some(T::new_2d(x, y))
    } else {
        None
    }
}

/// transforming back undoes the transform
pub fn backward__got<T: GenericVector2>(a: (T, T), b: (T, T), p: T) -> Option<T> {
    let mut s = Aabb2::new(a.0);
    s.update_with_point(a.1);
    let mut d = Aabb2::new(b.0);
    d.update_with_point(b.1);
    let t = SimpleAffine::new(&s, &d).ok()?;
    t.transform_ba(p).ok()
}
pub fn backward__pre<T: GenericVector2>(a: (T, T), b: (T, T), p: T) -> bool {
    le2(a.0, a.1) && le2(b.0, b.1)
}
pub fn backward__want<T: GenericVector2>(a: (T, T), b: (T, T), p: T) -> Option<T> {
    let s = scale(a, b);
    let x = (p.x() - mid(b.0.x(), b.1.x())) / s + mid(a.0.x(), a.1.x());
    let y = (p.y() - mid(b.0.y(), b.1.y())) / s + mid(a.0.y(), a.1.y());
    if x.is_finite() && y.is_finite() {
        Some(T::new_2d(x, y))
    } else {
        None
    }
}

/// there and back again is the identity, for any transform
pub fn round_trip__got<T: GenericVector2>(t: &SimpleAffine<T>, p: T) -> Option<T> {
    match t.transform_ab(p) {
        Ok(q) => t.transform_ba(q).ok(),
        Err(_) => None,
    }
}
pub fn round_trip__want<T: GenericVector2>(t: &SimpleAffine<T>, p: T) -> Option<T> {
    match t.transform_ab(p) {
        Ok(q) if p.x().is_finite() && p.y().is_finite() => Some(p),
        _ => None,
    }
}

/// back and there again is the identity, for any transform
pub fn round_trip_back__got<T: GenericVector2>(t: &SimpleAffine<T>, p: T) -> Option<T> {
    match t.transform_ba(p) {
        Ok(q) => t.transform_ab(q).ok(),
        Err(_) => None,
    }
}
pub fn round_trip_back__want<T: GenericVector2>(t: &SimpleAffine<T>, p: T) -> Option<T> {
    match t.transform_ba(p) {
        Ok(q) if p.x().is_finite() && p.y().is_finite() => Some(p),
        _ => None,
    }
}

/// the array form transforms two points exactly as the point form does, and fails iff either fails
pub fn array_ab__got<T: GenericVector2>(t: &SimpleAffine<T>, p: T, q: T) -> Option<[T::Scalar; 4]> {
    t.transform_ab_a([p.x(), p.y(), q.x(), q.y()]).ok()
}
pub fn array_ab__want<T: GenericVector2>(t: &SimpleAffine<T>, p: T, q: T) -> Option<[T::Scalar; 4]> {
    match (t.transform_ab(p), t.transform_ab(q)) {
        (Ok(a), Ok(b)) => Some([a.x(), a.y(), b.x(), b.y()]),
        _ => None,
    }
}

/// the inverse array form transforms two points exactly as the point form does, and fails iff either fails
pub fn array_ba__got<T: GenericVector2>(t: &SimpleAffine<T>, p: T, q: T) -> Option<[T::Scalar; 4]> {
    t.transform_ba_a([p.x(), p.y(), q.x(), q.y()]).ok()
}
pub fn array_ba__want<T: GenericVector2>(t: &SimpleAffine<T>, p: T, q: T) -> Option<[T::Scalar; 4]> {
    match (t.transform_ba(p), t.transform_ba(q)) {
        (Ok(a), Ok(b)) => Some([a.x(), a.y(), b.x(), b.y()]),
        _ => None,
    }
}

/// a transform that leaves the finite range is reported as a transform error, never returned
pub fn finite__holds<T: GenericVector2>(t: &SimpleAffine<T>, p: T) -> bool {
    let f = match t.transform_ab(p) {
        Ok(q) => q.x().is_finite() && q.y().is_finite(),
        Err(LinestringError::TransformError(_)) => true,
        Err(_) => false,
    };
    let b = match t.transform_ba(p) {
        Ok(q) => q.x().is_finite() && q.y().is_finite(),
        Err(LinestringError::TransformError(_)) => true,
        Err(_) => false,
    };
    f && b
}

/// the default transform changes nothing
pub fn default__got<T: GenericVector2>(p: T) -> (Option<T>, Option<T>) {
    let t = SimpleAffine::<T>::default();
    (t.transform_ab(p).ok(), t.transform_ba(p).ok())
}
pub fn default__want<T: GenericVector2>(p: T) -> (Option<T>, Option<T>) {
    if p.x().is_finite() && p.y().is_finite() {
        (Some(p), Some(p))
    } else {
        (None, None)
    }
}
