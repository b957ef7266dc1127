use crate::*;
use linestring::linestring_2d::convex_hull::{self, Orientation};

fn area2<T: GenericVector2>(a: T, b: T, c: T) -> T::Scalar {
    a.x() * b.y() - a.y() * b.x() + b.x() * c.y() - b.y() * c.x() + c.x() * a.y() - c.y() * a.x()
}

/// the signed area is twice the area of the triangle, positive when the third point lies left of the first two
pub fn cross__got<T: GenericVector2>(a: T, b: T, c: T) -> T::Scalar {
    convex_hull::cross_2d(a, b, c)
}
pub fn cross__want<T: GenericVector2>(a: T, b: T, c: T) -> T::Scalar {
    area2(a, b, c)
}

/// orientation: collinear within tolerance of zero area, otherwise left for positive and right for negative area
pub fn orientation__got<T: GenericVector2>(a: T, b: T, c: T) -> Orientation {
    convex_hull::point_orientation(a, b, c)
}
pub fn orientation__want<T: GenericVector2>(a: T, b: T, c: T) -> Orientation {
    let v = area2(a, b, c);
    if near(v, T::Scalar::ZERO) {
        Orientation::Collinear
    } else if v > T::Scalar::ZERO {
        Orientation::Left
    } else {
        Orientation::Right
    }
}

/// strictly left means positive area
pub fn left__got<T: GenericVector2>(a: T, b: T, c: T) -> bool {
    convex_hull::is_point_left(a, b, c)
}
pub fn left__want<T: GenericVector2>(a: T, b: T, c: T) -> bool {
    area2(a, b, c) > T::Scalar::ZERO
}

/// left or collinear means not negative beyond tolerance
pub fn left_collinear__got<T: GenericVector2>(a: T, b: T, c: T) -> bool {
    convex_hull::is_point_left_allow_collinear(a, b, c)
}
pub fn left_collinear__want<T: GenericVector2>(a: T, b: T, c: T) -> bool {
    let v = area2(a, b, c);
    v >= T::Scalar::ZERO || near(v, T::Scalar::ZERO)
}

/// the orientation predicates read the orientation they name
pub fn names__holds(o: Orientation) -> bool {
    match o {
        Orientation::Left => o.is_left() && o.is_left_or_collinear(),
        Orientation::Right => !o.is_left() && !o.is_left_or_collinear(),
        Orientation::Collinear => !o.is_left() && o.is_left_or_collinear(),
    }
}

/// orientation and the boolean predicates agree
pub fn agree__holds<T: GenericVector2>(a: T, b: T, c: T) -> bool {
    let o = convex_hull::point_orientation(a, b, c);
    o.is_left_or_collinear() == convex_hull::is_point_left_allow_collinear(a, b, c)
}

/// cyclic rotation of the three points keeps the orientation
pub fn rotate__got<T: GenericVector2>(a: T, b: T, c: T) -> Orientation {
    convex_hull::point_orientation(a, b, c)
}
pub fn rotate__want<T: GenericVector2>(a: T, b: T, c: T) -> Orientation {
    convex_hull::point_orientation(b, c, a)
}

/// swapping the line direction swaps left and right
pub fn mirror__holds<T: GenericVector2>(a: T, b: T, c: T) -> bool {
    let v = convex_hull::cross_2d(a, b, c) + convex_hull::cross_2d(b, a, c);
    v == T::Scalar::ZERO && !(convex_hull::is_point_left(a, b, c) && convex_hull::is_point_left(b, a, c))
}

/// the start and end point of a line are never strictly left of it
pub fn ends__holds<T: GenericVector2>(a: T, b: T) -> bool {
    !convex_hull::is_point_left(a, b, a)
        && !convex_hull::is_point_left(a, b, b)
        && convex_hull::is_point_left_allow_collinear(a, b, a)
        && convex_hull::is_point_left_allow_collinear(a, b, b)
}
