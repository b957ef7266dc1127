use crate::*;
use linestring::linestring_3d::*;

fn mm<T: GenericVector3>(b: &Aabb3<T>) -> Option<(T, T)> {
    match b.extents() {
        Some((l, h, _)) => Some((l, h)),
        None => None,
    }
}

/// a default box has no extent
pub fn default__got<T: GenericVector3>() -> Option<(T, T, T)> {
    Aabb3::<T>::default().extents()
}
pub fn default__want<T: GenericVector3>() -> Option<(T, T, T)> {
    None
}

fn grow<T: GenericVector3>(b: (T, T), pts: &[T]) -> (T, T) {
    let (mut lo, mut hi) = b;
    for p in pts {
        lo = min3(lo, *p);
        hi = max3(hi, *p);
    }
    (lo, hi)
}

/// the box of a point set is the coordinate-wise minimum and maximum over all of its points; empty for no points
pub fn with_points__got<T: GenericVector3>(pts: &[T]) -> Option<(T, T)> {
    mm(&Aabb3::with_points(pts))
}
pub fn with_points__want<T: GenericVector3>(pts: &[T]) -> Option<(T, T)> {
    if pts.is_empty() {
        None
    } else {
        Some(grow((pts[0], pts[0]), pts))
    }
}

/// adding a point extends the box to exactly contain it
pub fn update_point__got<T: GenericVector3>(b: Aabb3<T>, p: T) -> Option<(T, T)> {
    let mut b = b;
    b.update_with_point(p);
    mm(&b)
}
pub fn update_point__want<T: GenericVector3>(b: Aabb3<T>, p: T) -> Option<(T, T)> {
    match mm(&b) {
        None => Some((p, p)),
        Some((lo, hi)) => Some((min3(lo, p), max3(hi, p))),
    }
}

/// adding several points extends the box over all of them and keeps its old extent
pub fn update_points__got<T: GenericVector3>(b: Aabb3<T>, pts: &[T]) -> Option<(T, T)> {
    let mut b = b;
    b.update_with_points(pts);
    mm(&b)
}
pub fn update_points__want<T: GenericVector3>(b: Aabb3<T>, pts: &[T]) -> Option<(T, T)> {
    if pts.is_empty() {
        mm(&b)
    } else {
        match mm(&b) {
            None => Some(grow((pts[0], pts[0]), pts)),
            Some(b) => Some(grow(b, pts)),
        }
    }
}

/// merging another box gives the union of both extents
pub fn merge__got<T: GenericVector3>(a: Aabb3<T>, b: Aabb3<T>) -> Option<(T, T)> {
    let mut a = a;
    a.update_with_aabb(b);
    mm(&a)
}
pub fn merge__pre<T: GenericVector3>(a: Aabb3<T>, b: Aabb3<T>) -> bool {
    ordered(&a) && ordered(&b)
}
pub fn merge__want<T: GenericVector3>(a: Aabb3<T>, b: Aabb3<T>) -> Option<(T, T)> {
    match (mm(&a), mm(&b)) {
        (None, x) => x,
        (x, None) => x,
        (Some((l0, h0)), Some((l1, h1))) => Some((min3(l0, l1), max3(h0, h1))),
    }
}
pub fn ordered<T: GenericVector3>(a: &Aabb3<T>) -> bool {
    match mm(a) {
        None => true,
        Some((l, h)) => le3(l, h),
    }
}

/// low, high, extents describe the same box; the delta is high minus low
pub fn queries__holds<T: GenericVector3>(b: Aabb3<T>) -> bool {
    match b.extents() {
        None => b.get_low().is_none() && b.get_high().is_none() && b.center().is_none(),
        Some((l, h, d)) => {
            b.get_low() == Some(l)
                && b.get_high() == Some(h)
                && d == T::new_3d(h.x() - l.x(), h.y() - l.y(), h.z() - l.z())
                && b.center() == Some(T::new_3d(
                    (l.x() + h.x()) / T::Scalar::TWO,
                    (l.y() + h.y()) / T::Scalar::TWO,
                    (l.z() + h.z()) / T::Scalar::TWO,
                ))
        }
    }
}

/// transforming a box applies the operation to both of its corners
pub fn apply__got<T: GenericVector3, F: Fn(T) -> T>(b: Aabb3<T>, f: F) -> Option<(T, T)> {
    let mut b = b;
    b.apply(&f);
    mm(&b)
}
pub fn apply__want<T: GenericVector3, F: Fn(T) -> T>(b: Aabb3<T>, f: F) -> Option<(T, T)> {
    match mm(&b) {
        None => None,
        Some((l, h)) => Some((f(l), f(h))),
    }
}

/// the centre is the arithmetic middle of low and high
pub fn center__got<T: GenericVector3>(b: Aabb3<T>) -> Option<T> {
    b.center()
}
pub fn center__want<T: GenericVector3>(b: Aabb3<T>) -> Option<T> {
    match mm(&b) {
        None => None,
        Some((l, h)) => Some(T::new_3d(
            (l.x() + h.x()) / T::Scalar::TWO,
            (l.y() + h.y()) / T::Scalar::TWO,
            (l.z() + h.z()) / T::Scalar::TWO,
        )),
    }
}
