use crate::*;
use linestring::linestring_2d::{Aabb2, Line2};
use linestring::linestring_3d::{Aabb3, Line3};

fn at_most<S: GenericScalar>(a: S, b: S) -> bool {
    a < b || near(a, b)
}
fn inside2<T: GenericVector2>(b: (T, T), p: T) -> bool {
    at_most(b.0.x(), p.x()) && at_most(p.x(), b.1.x()) && at_most(b.0.y(), p.y()) && at_most(p.y(), b.1.y())
}
fn inside3<T: GenericVector3>(b: (T, T), p: T) -> bool {
    at_most(b.0.x(), p.x())
        && at_most(p.x(), b.1.x())
        && at_most(b.0.y(), p.y())
        && at_most(p.y(), b.1.y())
        && at_most(b.0.z(), p.z())
        && at_most(p.z(), b.1.z())
}
fn mm<T: GenericVector3>(b: &Aabb3<T>) -> Option<(T, T)> {
    match b.extents() {
        Some((l, h, _)) => Some((l, h)),
        None => None,
    }
}

/// a 2D box contains a point iff every coordinate lies between its limits, borders included
pub fn point2__got<T: GenericVector2>(b: &Aabb2<T>, p: T) -> bool {
    b.contains_point_inclusive(p)
}
pub fn point2__want<T: GenericVector2>(b: &Aabb2<T>, p: T) -> bool {
    match b.min_max() {
        None => false,
        Some(b) => inside2(b, p),
    }
}

/// a 2D box contains a line iff it contains both of its end points
pub fn line2__got<T: GenericVector2>(b: &Aabb2<T>, l: &Line2<T>) -> bool {
    b.contains_line_inclusive(l)
}
pub fn line2__want<T: GenericVector2>(b: &Aabb2<T>, l: &Line2<T>) -> bool {
    match b.min_max() {
        None => false,
        Some(b) => inside2(b, l.start) && inside2(b, l.end),
    }
}

/// a 2D box contains another box iff it contains both of that box's corners
pub fn box2__got<T: GenericVector2>(b: &Aabb2<T>, o: &Aabb2<T>) -> bool {
    b.contains_aabb_inclusive(o)
}
pub fn box2__want<T: GenericVector2>(b: &Aabb2<T>, o: &Aabb2<T>) -> bool {
    match (b.min_max(), o.min_max()) {
        (Some(b), Some(o)) => inside2(b, o.0) && inside2(b, o.1),
        _ => false,
    }
}

/// a 3D box contains a point iff every coordinate lies between its limits, borders included
pub fn point3__got<T: GenericVector3>(b: &Aabb3<T>, p: T) -> bool {
    b.contains_point_inclusive(p)
}
pub fn point3__want<T: GenericVector3>(b: &Aabb3<T>, p: T) -> bool {
    match mm(b) {
        None => false,
        Some(b) => inside3(b, p),
    }
}

/// a 3D box contains a line iff it contains both of its end points
pub fn line3__got<T: GenericVector3>(b: &Aabb3<T>, l: &Line3<T>) -> bool {
    b.contains_line_inclusive(l)
}
pub fn line3__want<T: GenericVector3>(b: &Aabb3<T>, l: &Line3<T>) -> bool {
    match mm(b) {
        None => false,
        Some(b) => inside3(b, l.start) && inside3(b, l.end),
    }
}

/// a 3D box contains another box iff it contains both of that box's corners
pub fn box3__got<T: GenericVector3>(b: &Aabb3<T>, o: &Aabb3<T>) -> bool {
    b.contains_aabb_inclusive(o)
}
pub fn box3__want<T: GenericVector3>(b: &Aabb3<T>, o: &Aabb3<T>) -> bool {
    match (mm(b), mm(o)) {
        (Some(b), Some(o)) => inside3(b, o.0) && inside3(b, o.1),
        _ => false,
    }
}

/// a 2D box contains every point of the set it was built from
pub fn members2__holds<T: GenericVector2>(b: Aabb2<T>, p: T, q: T) -> bool {
    let mut b = b;
    b.update_with_point(p);
    let first = b.contains_point_inclusive(p);
    b.update_with_point(q);
    first && b.contains_point_inclusive(p) && b.contains_point_inclusive(q)
}

/// a 3D box contains a point after being extended over it
pub fn members3__holds<T: GenericVector3>(b: Aabb3<T>, p: T) -> bool {
    let mut b = b;
    b.update_with_point(p);
    b.contains_point_inclusive(p)
}

/// a 3D box still contains a point after being extended over another one
pub fn members3_kept__pre<T: GenericVector3>(b: Aabb3<T>, p: T, q: T) -> bool {
    match mm(&b) {
        Some(m) => le3(m.0, p) && le3(p, m.1),
        None => false,
    }
}
pub fn members3_kept__holds<T: GenericVector3>(b: Aabb3<T>, p: T, q: T) -> bool {
    let mut b = b;
    b.update_with_point(q);
    b.contains_point_inclusive(p)
}
