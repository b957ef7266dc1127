use crate::*;
use linestring::linestring_2d::{self, Line2, VoronoiParabolicArc};

// A parabola in the frame of a segment: the segment runs from o along u, the focus is p along and h across (in units of u).
fn across<T: GenericVector2>(o: T, u: T, x: T::Scalar, y: T::Scalar) -> T {
    T::new_2d(o.x() + u.x() * x - u.y() * y, o.y() + u.y() * x + u.x() * y)
}
// height of the parabola at x: as far from the focus as from the segment
fn height<S: GenericScalar>(p: S, h: S, x: S) -> S {
    ((x - p) * (x - p) + h * h) / (h + h)
}
fn on<T: GenericVector2>(o: T, u: T, p: T::Scalar, h: T::Scalar, x: T::Scalar) -> T {
    across(o, u, x, height(p, h, x))
}
fn arc<T: GenericVector2>(o: T, u: T, p: T::Scalar, h: T::Scalar, x0: T::Scalar, x1: T::Scalar) -> VoronoiParabolicArc<T> {
    VoronoiParabolicArc::new(Line2::new(o, o + u), across(o, u, p, h), on(o, u, p, h, x0), on(o, u, p, h, x1))
}
// the squared distance between the chord over [a,b] and the parabola is at most m*m
fn flat<T: GenericVector2>(u: T, p: T::Scalar, h: T::Scalar, a: T::Scalar, b: T::Scalar, m: T::Scalar) -> bool {
    let d = b - a;
    let s = (a + b - p - p) / (h + h); // slope of the chord
    let gap = d * d / (T::Scalar::TWO * T::Scalar::TWO * (h + h)); // vertical gap in the middle
    gap * gap * (u.x() * u.x() + u.y() * u.y()) <= m * m * (s * s + T::Scalar::ONE)
}
// the direction of the segment: fixed, of any length
fn dir<T: GenericVector2>(l: T::Scalar) -> T {
    let (two, three) = (T::Scalar::TWO, T::Scalar::THREE);
    T::new_2d(l * three, l * two * two)
}
fn proper<T: GenericVector2>(l: T::Scalar, h: T::Scalar, x0: T::Scalar, x1: T::Scalar) -> bool {
    l > T::Scalar::ZERO && h != T::Scalar::ZERO && x0 != x1
}

/// an arc closer to its chord than the distance becomes that chord
// @fixed
// @assume
pub fn chord__got<T: GenericVector2>(o: T, l: T::Scalar, p: T::Scalar, h: T::Scalar, x0: T::Scalar, x1: T::Scalar, m: T::Scalar) -> Vec<T> {
    let u: T = dir(l);
    arc(o, u, p, h, x0, x1).discretize_2d(m)
}
pub fn chord__pre<T: GenericVector2>(o: T, l: T::Scalar, p: T::Scalar, h: T::Scalar, x0: T::Scalar, x1: T::Scalar, m: T::Scalar) -> bool {
    let u: T = dir(l);
    proper::<T>(l, h, x0, x1) && flat(u, p, h, x0, x1, m)
}
pub fn chord__want<T: GenericVector2>(o: T, l: T::Scalar, p: T::Scalar, h: T::Scalar, x0: T::Scalar, x1: T::Scalar, m: T::Scalar) -> Vec<T> {
    let u: T = dir(l);
    vec![on(o, u, p, h, x0), on(o, u, p, h, x1)]
}

/// an arc further from its chord is split at the point of the parabola furthest from the chord
// @fixed
// @assume
pub fn split__got<T: GenericVector2>(o: T, l: T::Scalar, p: T::Scalar, h: T::Scalar, x0: T::Scalar, x1: T::Scalar, m: T::Scalar) -> Vec<T> {
    let u: T = dir(l);
    arc(o, u, p, h, x0, x1).discretize_2d(m)
}
pub fn split__pre<T: GenericVector2>(o: T, l: T::Scalar, p: T::Scalar, h: T::Scalar, x0: T::Scalar, x1: T::Scalar, m: T::Scalar) -> bool {
    let u: T = dir(l);
    let xm = (x0 + x1) / T::Scalar::TWO;
    proper::<T>(l, h, x0, x1) && !flat(u, p, h, x0, x1, m) && flat(u, p, h, x0, xm, m) && flat(u, p, h, xm, x1, m)
}
pub fn split__want<T: GenericVector2>(o: T, l: T::Scalar, p: T::Scalar, h: T::Scalar, x0: T::Scalar, x1: T::Scalar, m: T::Scalar) -> Vec<T> {
    let u: T = dir(l);
    let xm = (x0 + x1) / T::Scalar::TWO;
    vec![on(o, u, p, h, x0), on(o, u, p, h, xm), on(o, u, p, h, x1)]
}

/// only the part that is still too far from its chord is split again
// @fixed
// @assume
pub fn again__got<T: GenericVector2>(o: T, l: T::Scalar, p: T::Scalar, h: T::Scalar, x0: T::Scalar, x1: T::Scalar, m: T::Scalar) -> Vec<T> {
    let u: T = dir(l);
    arc(o, u, p, h, x0, x1).discretize_2d(m)
}
pub fn again__pre<T: GenericVector2>(o: T, l: T::Scalar, p: T::Scalar, h: T::Scalar, x0: T::Scalar, x1: T::Scalar, m: T::Scalar) -> bool {
    let u: T = dir(l);
    let xm = (x0 + x1) / T::Scalar::TWO;
    let xl = (x0 + xm) / T::Scalar::TWO;
    proper::<T>(l, h, x0, x1) && !flat(u, p, h, x0, x1, m) && !flat(u, p, h, x0, xm, m) && flat(u, p, h, x0, xl, m) && flat(u, p, h, xl, xm, m) && flat(u, p, h, xm, x1, m)
}
pub fn again__want<T: GenericVector2>(o: T, l: T::Scalar, p: T::Scalar, h: T::Scalar, x0: T::Scalar, x1: T::Scalar, m: T::Scalar) -> Vec<T> {
    let u: T = dir(l);
    let xm = (x0 + x1) / T::Scalar::TWO;
    let xl = (x0 + xm) / T::Scalar::TWO;
    vec![on(o, u, p, h, x0), on(o, u, p, h, xl), on(o, u, p, h, xm), on(o, u, p, h, x1)]
}

// a point with minus its distance to the focus as third coordinate
fn lifted<T: GenericVector2>(q: T, c: T) -> T::Vector3 {
    T::Vector3::new_3d(q.x(), q.y(), -q.distance(c))
}

/// the 3D form of a flat arc carries minus the distance to the focus as height
// @fixed
// @assume
pub fn chord3__got<T: GenericVector2>(o: T, l: T::Scalar, p: T::Scalar, h: T::Scalar, x0: T::Scalar, x1: T::Scalar, m: T::Scalar) -> Vec<T::Vector3> {
    let u: T = dir(l);
    arc(o, u, p, h, x0, x1).discretize_3d(m)
}
pub fn chord3__pre<T: GenericVector2>(o: T, l: T::Scalar, p: T::Scalar, h: T::Scalar, x0: T::Scalar, x1: T::Scalar, m: T::Scalar) -> bool {
    let u: T = dir(l);
    proper::<T>(l, h, x0, x1) && flat(u, p, h, x0, x1, m)
}
pub fn chord3__want<T: GenericVector2>(o: T, l: T::Scalar, p: T::Scalar, h: T::Scalar, x0: T::Scalar, x1: T::Scalar, m: T::Scalar) -> Vec<T::Vector3> {
    let u: T = dir(l);
    let c = across(o, u, p, h);
    vec![lifted(on(o, u, p, h, x0), c), lifted(on(o, u, p, h, x1), c)]
}

/// the 3D form is split where the 2D form is, each point carrying minus its distance to the focus as height
// @fixed
// @assume
pub fn split3__got<T: GenericVector2>(o: T, l: T::Scalar, p: T::Scalar, h: T::Scalar, x0: T::Scalar, x1: T::Scalar, m: T::Scalar) -> Vec<T::Vector3> {
    let u: T = dir(l);
    arc(o, u, p, h, x0, x1).discretize_3d(m)
}
pub fn split3__pre<T: GenericVector2>(o: T, l: T::Scalar, p: T::Scalar, h: T::Scalar, x0: T::Scalar, x1: T::Scalar, m: T::Scalar) -> bool {
    let u: T = dir(l);
    let xm = (x0 + x1) / T::Scalar::TWO;
    proper::<T>(l, h, x0, x1) && !flat(u, p, h, x0, x1, m) && flat(u, p, h, x0, xm, m) && flat(u, p, h, xm, x1, m)
}
pub fn split3__want<T: GenericVector2>(o: T, l: T::Scalar, p: T::Scalar, h: T::Scalar, x0: T::Scalar, x1: T::Scalar, m: T::Scalar) -> Vec<T::Vector3> {
    let u: T = dir(l);
    let xm = (x0 + x1) / T::Scalar::TWO;
    let c = across(o, u, p, h);
    vec![lifted(on(o, u, p, h, x0), c), lifted(on(o, u, p, h, xm), c), lifted(on(o, u, p, h, x1), c)]
}

/// the straight form joins the two ends, at minus the distance of the start to the segment and of the end to the focus
pub fn straight__got<T: GenericVector2>(a: T, b: T, c: T, s: T, e: T) -> Vec<T::Vector3> {
    VoronoiParabolicArc::new(Line2::new(a, b), c, s, e).discretize_3d_straight_line()
}
pub fn straight__want<T: GenericVector2>(a: T, b: T, c: T, s: T, e: T) -> Vec<T::Vector3> {
    let z = -vector_traits::num_traits::real::Real::sqrt(linestring_2d::distance_to_line_squared_safe(a, b, s));
    vec![T::Vector3::new_3d(s.x(), s.y(), z), lifted(e, c)]
}

// a symmetric arc whose middle is exactly twice the length of the segment (5l) from the chord
fn even<T: GenericVector2>(o: T, l: T::Scalar) -> VoronoiParabolicArc<T> {
    let two = T::Scalar::TWO;
    arc(o, dir(l), T::Scalar::ZERO, T::Scalar::ONE, T::Scalar::ZERO - two, two)
}
fn ten<T: GenericVector2>(l: T::Scalar) -> T::Scalar {
    let two = T::Scalar::TWO;
    l * two * (two + T::Scalar::THREE)
}

/// an arc exactly as far from its chord as the distance is not split
// @fixed
// @assume
pub fn exact__got<T: GenericVector2>(o: T, l: T::Scalar) -> Vec<T> {
    even(o, l).discretize_2d(ten::<T>(l))
}
pub fn exact__pre<T: GenericVector2>(_o: T, l: T::Scalar) -> bool {
    l > T::Scalar::ZERO
}
pub fn exact__want<T: GenericVector2>(o: T, l: T::Scalar) -> Vec<T> {
    let (u, zero, one, two): (T, _, _, _) = (dir(l), T::Scalar::ZERO, T::Scalar::ONE, T::Scalar::TWO);
    vec![on(o, u, zero, one, zero - two), on(o, u, zero, one, two)]
}

/// the 3D form of an arc exactly as far from its chord as the distance is not split
// @fixed
// @assume
pub fn exact3__got<T: GenericVector2>(o: T, l: T::Scalar) -> Vec<T::Vector3> {
    even(o, l).discretize_3d(ten::<T>(l))
}
pub fn exact3__pre<T: GenericVector2>(_o: T, l: T::Scalar) -> bool {
    l > T::Scalar::ZERO
}
pub fn exact3__want<T: GenericVector2>(o: T, l: T::Scalar) -> Vec<T::Vector3> {
    let (u, zero, one, two): (T, _, _, _) = (dir(l), T::Scalar::ZERO, T::Scalar::ONE, T::Scalar::TWO);
    let c = across(o, u, zero, one);
    vec![lifted(on(o, u, zero, one, zero - two), c), lifted(on(o, u, zero, one, two), c)]
}
