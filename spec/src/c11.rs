use crate::*;
use linestring::linestring_2d::convex_hull::{self, is_point_left, is_point_left_allow_collinear};
use linestring::linestring_2d::{self, Line2, LineString2};

/// an empty hull contains no point
pub fn empty__got<T: GenericVector2>(p: T) -> (bool, bool) {
    let h: Vec<T> = Vec::new();
    (convex_hull::contains_point_inclusive(&h, p), convex_hull::contains_point_exclusive(&h, p))
}
pub fn empty__want<T: GenericVector2>(p: T) -> (bool, bool) {
    (false, false)
}

/// a hull of one point contains exactly that point
pub fn one_inclusive__got<T: GenericVector2>(a: T, p: T) -> bool {
    convex_hull::contains_point_inclusive(&vec![a], p)
}
pub fn one_inclusive__want<T: GenericVector2>(a: T, p: T) -> bool {
    p == a
}

/// two different points are not a hull
pub fn two__got<T: GenericVector2>(a: T, b: T, p: T) -> (bool, bool) {
    let h = vec![a, b];
    (convex_hull::contains_point_inclusive(&h, p), convex_hull::contains_point_exclusive(&h, p))
}
pub fn two__pre<T: GenericVector2>(a: T, b: T, p: T) -> bool {
    a != b
}
pub fn two__want<T: GenericVector2>(a: T, b: T, p: T) -> (bool, bool) {
    (false, false)
}

/// a triangle contains a point inclusively iff the point is left of or on each of its three edges
pub fn triangle_inclusive__got<T: GenericVector2>(a: T, b: T, c: T, p: T) -> bool {
    convex_hull::contains_point_inclusive(&vec![a, b, c, a], p)
}
pub fn triangle_inclusive__want<T: GenericVector2>(a: T, b: T, c: T, p: T) -> bool {
    is_point_left_allow_collinear(a, b, p) && is_point_left_allow_collinear(b, c, p) && is_point_left_allow_collinear(c, a, p)
}

/// a triangle contains a point exclusively iff the point is strictly left of each of its three edges
pub fn triangle_exclusive__got<T: GenericVector2>(a: T, b: T, c: T, p: T) -> bool {
    convex_hull::contains_point_exclusive(&vec![a, b, c, a], p)
}
pub fn triangle_exclusive__want<T: GenericVector2>(a: T, b: T, c: T, p: T) -> bool {
    is_point_left(a, b, p) && is_point_left(b, c, p) && is_point_left(c, a, p)
}

// o + s*u + t*v
fn aff<T: GenericVector2>(o: T, u: T, v: T, s: T::Scalar, t: T::Scalar) -> T {
    T::new_2d(o.x() + u.x() * s + v.x() * t, o.y() + u.y() * s + v.y() * t)
}

// x is not a rounding error away from zero
fn clear<S: GenericScalar>(x: S) -> bool {
    x == S::ZERO || !near(x, S::ZERO)
}
fn clear_quad<T: GenericVector2>(u: T, v: T, s: T::Scalar, t: T::Scalar) -> bool {
    let i = T::Scalar::ONE;
    let k = u.x() * v.y() - u.y() * v.x();
    k > T::Scalar::ZERO && clear(k * s) && clear(k * t) && clear(k * (i - s)) && clear(k * (i - t)) && clear(k * (s - t)) && clear(k * (i - s - t))
}

/// a parallelogram strictly contains exactly the points strictly between both pairs of opposite sides, those on its diagonals included
pub fn quad_exclusive__got<T: GenericVector2>(o: T, u: T, v: T, s: T::Scalar, t: T::Scalar) -> bool {
    let (z, i) = (T::Scalar::ZERO, T::Scalar::ONE);
    let h = vec![o, aff(o, u, v, i, z), aff(o, u, v, i, i), aff(o, u, v, z, i), o];
    convex_hull::contains_point_exclusive(&h, aff(o, u, v, s, t))
}
pub fn quad_exclusive__pre<T: GenericVector2>(o: T, u: T, v: T, s: T::Scalar, t: T::Scalar) -> bool {
    clear_quad(u, v, s, t)
}
pub fn quad_exclusive__want<T: GenericVector2>(o: T, u: T, v: T, s: T::Scalar, t: T::Scalar) -> bool {
    let (z, i) = (T::Scalar::ZERO, T::Scalar::ONE);
    z < s && s < i && z < t && t < i
}

/// a parallelogram contains exactly the points between both pairs of opposite sides
pub fn quad_inclusive__got<T: GenericVector2>(o: T, u: T, v: T, s: T::Scalar, t: T::Scalar) -> bool {
    let (z, i) = (T::Scalar::ZERO, T::Scalar::ONE);
    let h = vec![o, aff(o, u, v, i, z), aff(o, u, v, i, i), aff(o, u, v, z, i), o];
    convex_hull::contains_point_inclusive(&h, aff(o, u, v, s, t))
}
pub fn quad_inclusive__pre<T: GenericVector2>(o: T, u: T, v: T, s: T::Scalar, t: T::Scalar) -> bool {
    clear_quad(u, v, s, t)
}
pub fn quad_inclusive__want<T: GenericVector2>(o: T, u: T, v: T, s: T::Scalar, t: T::Scalar) -> bool {
    let (z, i) = (T::Scalar::ZERO, T::Scalar::ONE);
    z <= s && s <= i && z <= t && t <= i
}

// x,y of a hexagon's corner, in the coordinates of the affine frame
fn hexagon<T: GenericVector2>(o: T, u: T, v: T) -> Vec<T> {
    let (z, i) = (T::Scalar::ZERO, T::Scalar::ONE);
    let w = i + i;
    vec![o, aff(o, u, v, i, z), aff(o, u, v, w, i), aff(o, u, v, w, w), aff(o, u, v, i, w), aff(o, u, v, z, i), o]
}
fn clear_hex<T: GenericVector2>(u: T, v: T, s: T::Scalar, t: T::Scalar) -> bool {
    let i = T::Scalar::ONE;
    let w = i + i;
    let k = u.x() * v.y() - u.y() * v.x();
    k > T::Scalar::ZERO
        && clear(k * s)
        && clear(k * t)
        && clear(k * (w - s))
        && clear(k * (w - t))
        && clear(k * (s - t))
        && clear(k * (s - t - i))
        && clear(k * (t - s - i))
        && clear(k * (s - w * t))
        && clear(k * (t - w * s))
        && clear(k * (t - w * s + w))
        && clear(k * (s - w * t + w))
        && clear(k * (i - s))
        && clear(k * (i - t))
        && clear(k * (i - s - t))
        && clear(k * (w + i - s - t))
}

/// a hexagon (any affine image of it) strictly contains exactly the points strictly inside all six sides
pub fn hex_exclusive__got<T: GenericVector2>(o: T, u: T, v: T, s: T::Scalar, t: T::Scalar) -> bool {
    convex_hull::contains_point_exclusive(&hexagon(o, u, v), aff(o, u, v, s, t))
}
pub fn hex_exclusive__pre<T: GenericVector2>(o: T, u: T, v: T, s: T::Scalar, t: T::Scalar) -> bool {
    clear_hex(u, v, s, t)
}
pub fn hex_exclusive__want<T: GenericVector2>(o: T, u: T, v: T, s: T::Scalar, t: T::Scalar) -> bool {
    let (z, i) = (T::Scalar::ZERO, T::Scalar::ONE);
    let w = i + i;
    z < s && s < w && z < t && t < w && s - t < i && t - s < i
}

/// a hexagon (any affine image of it) contains exactly the points inside or on all six sides
pub fn hex_inclusive__got<T: GenericVector2>(o: T, u: T, v: T, s: T::Scalar, t: T::Scalar) -> bool {
    convex_hull::contains_point_inclusive(&hexagon(o, u, v), aff(o, u, v, s, t))
}
pub fn hex_inclusive__pre<T: GenericVector2>(o: T, u: T, v: T, s: T::Scalar, t: T::Scalar) -> bool {
    clear_hex(u, v, s, t)
}
pub fn hex_inclusive__want<T: GenericVector2>(o: T, u: T, v: T, s: T::Scalar, t: T::Scalar) -> bool {
    let (z, i) = (T::Scalar::ZERO, T::Scalar::ONE);
    let w = i + i;
    z <= s && s <= w && z <= t && t <= w && s - t <= i && t - s <= i
}

/// a line string contains a point inclusively iff it is closed and, as a hull, contains the point
// @stop convex_hull::contains_point_inclusive
// @stop convex_hull::contains_point_exclusive
pub fn method_inclusive__got<T: GenericVector2>(h: &Vec<T>, p: T) -> bool {
    h.contains_point_inclusive(p)
}
pub fn method_inclusive__want<T: GenericVector2>(h: &Vec<T>, p: T) -> bool {
    (h.len() == 0 || h[0] == h[h.len() - 1]) && convex_hull::contains_point_inclusive(h, p)
}

/// a line string contains a point exclusively iff it is closed and, as a hull, contains the point exclusively
// @stop convex_hull::contains_point_inclusive
// @stop convex_hull::contains_point_exclusive
pub fn method_exclusive__got<T: GenericVector2>(h: &Vec<T>, p: T) -> bool {
    h.contains_point_exclusive(p)
}
pub fn method_exclusive__want<T: GenericVector2>(h: &Vec<T>, p: T) -> bool {
    (h.len() == 0 || h[0] == h[h.len() - 1]) && convex_hull::contains_point_exclusive(h, p)
}

fn count<T: GenericVector2>(a: &Vec<T>) -> usize {
    if a.len() > 2 && a[0] == a[a.len() - 1] {
        a.len() - 1
    } else {
        a.len()
    }
}

/// a hull is contained, in parallel, iff the container has at least two points and contains each of its points
// @stop convex_hull::contains_point_inclusive
pub fn hull_par__got<T: GenericVector2>(a: &Vec<T>, b: &Vec<T>) -> bool {
    convex_hull::contains_convex_hull_par(a, b)
}
pub fn hull_par__want<T: GenericVector2>(a: &Vec<T>, b: &Vec<T>) -> bool {
    count(a) > 1 && b.iter().all(|p| convex_hull::contains_point_inclusive(a, *p))
}

/// a hull is accepted as contained only if the container has at least two points and contains each of its points
// @stop convex_hull::contains_point_inclusive
pub fn hull_only_if__holds<T: GenericVector2>(a: &Vec<T>, b: &Vec<T>) -> bool {
    !convex_hull::contains_convex_hull(a, b) || (count(a) > 1 && b.iter().all(|p| convex_hull::contains_point_inclusive(a, *p)))
}

/// nothing is contained in everything that has at least two points
// @stop convex_hull::contains_point_inclusive
pub fn hull_of_nothing__got<T: GenericVector2>(a: &Vec<T>, b: &Vec<T>) -> (bool, bool) {
    (convex_hull::contains_convex_hull(a, b), convex_hull::contains_convex_hull_par(a, b))
}
pub fn hull_of_nothing__pre<T: GenericVector2>(a: &Vec<T>, b: &Vec<T>) -> bool {
    b.len() == 0
}
pub fn hull_of_nothing__want<T: GenericVector2>(a: &Vec<T>, b: &Vec<T>) -> (bool, bool) {
    (count(a) > 1, count(a) > 1)
}
