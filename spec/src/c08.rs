use crate::*;
use vector_traits::num_traits::real::Real as _;
use linestring::linestring_2d::{self, Intersection, Line2};

fn eq<T: GenericVector2>(a: T, b: T) -> bool {
    near(a.x(), b.x()) && near(a.y(), b.y())
}

/// a point meets a segment iff it is an end point or its distances to both ends add up to the length, and the point itself is reported
pub fn point_on_segment__got<T: GenericVector2>(a: T, b: T, p: T) -> Option<T> {
    match linestring_2d::intersect_line_point(Line2::new(a, b), p) {
        Some(Intersection::Intersection(q)) => Some(q),
        Some(Intersection::Overlap(l)) => Some(l.end),
        None => None,
    }
}
pub fn point_on_segment__want<T: GenericVector2>(a: T, b: T, p: T) -> Option<T> {
    let d = |u: T, v: T| {
        let (x, y) = (u.x() - v.x(), u.y() - v.y());
        (x * x + y * y).sqrt()
    };
    if eq(a, p) || eq(b, p) || near(d(a, b), d(a, p) + d(p, b)) {
        Some(p)
    } else {
        None
    }
}

/// a degenerate first segment is treated as its point
pub fn degenerate_first__got<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> Option<Intersection<T>> {
    l.intersection_point(m)
}
pub fn degenerate_first__pre<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> bool {
    eq(l.start, l.end)
}
pub fn degenerate_first__want<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> Option<Intersection<T>> {
    linestring_2d::intersect_line_point(m, l.start)
}

/// a degenerate second segment is treated as its point
pub fn degenerate_second__got<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> Option<Intersection<T>> {
    l.intersection_point(m)
}
pub fn degenerate_second__pre<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> bool {
    !eq(l.start, l.end) && eq(m.start, m.end)
}
pub fn degenerate_second__want<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> Option<Intersection<T>> {
    linestring_2d::intersect_line_point(l, m.start)
}

fn apart<S: GenericScalar>(a: S, b: S, c: S, d: S) -> bool {
    fmax(a, b) < fmin(c, d) || fmin(a, b) > fmax(c, d)
}
fn boxes_apart<T: GenericVector2>(l: &Line2<T>, m: &Line2<T>) -> bool {
    apart(l.start.x(), l.end.x(), m.start.x(), m.end.x()) || apart(l.start.y(), l.end.y(), m.start.y(), m.end.y())
}
fn cross<T: GenericVector2>(a: T, b: T) -> T::Scalar {
    a.x() * b.y() - a.y() * b.x()
}
fn minus<T: GenericVector2>(a: T, b: T) -> T {
    T::new_2d(a.x() - b.x(), a.y() - b.y())
}

/// segments whose bounding boxes are apart do not intersect
pub fn apart__got<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> Option<Intersection<T>> {
    l.intersection_point(m)
}
pub fn apart__pre<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> bool {
    !eq(l.start, l.end) && !eq(m.start, m.end) && boxes_apart(&l, &m)
}
pub fn apart__want<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> Option<Intersection<T>> {
    None
}

/// non-parallel segments meet iff both line parameters lie in [0,1], at the point both lines share
pub fn crossing__got<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> Option<Intersection<T>> {
    l.intersection_point(m)
}
pub fn crossing__pre<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> bool {
    let r = minus(l.end, l.start);
    let s = minus(m.end, m.start);
    !eq(l.start, l.end) && !eq(m.start, m.end) && !boxes_apart(&l, &m) && !near(cross(r, s), T::Scalar::ZERO)
}
pub fn crossing__want<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> Option<Intersection<T>> {
    let r = minus(l.end, l.start);
    let s = minus(m.end, m.start);
    let d = minus(m.start, l.start);
    let c = cross(r, s);
    let t = cross(d, s) / c;
    let u = cross(d, r) / c;
    let unit = |v: T::Scalar| v >= T::Scalar::ZERO && v <= T::Scalar::ONE;
    if unit(t) && unit(u) {
        Some(Intersection::Intersection(T::new_2d(m.start.x() + s.x() * u, m.start.y() + s.y() * u)))
    } else {
        None
    }
}

/// parallel segments on different lines do not intersect
pub fn parallel__got<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> bool {
    l.intersection_point(m).is_some()
}
pub fn parallel__pre<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> bool {
    let r = minus(l.end, l.start);
    let s = minus(m.end, m.start);
    !eq(l.start, l.end) && !eq(m.start, m.end) && !boxes_apart(&l, &m) && near(cross(r, s), T::Scalar::ZERO)
}
pub fn parallel__want<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> bool {
    let (p, p2) = ordered(l);
    let (q, _) = ordered(m);
    near(cross(minus(q, p), minus(p2, p)), T::Scalar::ZERO)
}

/// collinear overlapping segments share the stretch between their inner end points; a stretch of length zero is a single point
pub fn collinear__got<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> Option<Intersection<T>> {
    l.intersection_point(m)
}
fn ordered<T: GenericVector2>(l: Line2<T>) -> (T, T) {
    if l.start.x() > l.end.x() || (l.start.y() > l.end.y() && near(l.start.x(), l.end.x())) {
        (l.end, l.start)
    } else {
        (l.start, l.end)
    }
}
pub fn collinear__pre<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> bool {
    let r = minus(l.end, l.start);
    let s = minus(m.end, m.start);
    let (p, p2) = ordered(l);
    let (q, _) = ordered(m);
    !eq(l.start, l.end)
        && !eq(m.start, m.end)
        && !boxes_apart(&l, &m)
        && near(cross(r, s), T::Scalar::ZERO)
        && near(cross(minus(q, p), minus(p2, p)), T::Scalar::ZERO)
        && r.x() * r.x() + r.y() * r.y() > T::Scalar::ZERO
}
pub fn collinear__want<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> Option<Intersection<T>> {
    let (p, p2) = ordered(l);
    let (q, q2) = ordered(m);
    let r = minus(p2, p);
    let rr = r.x() * r.x() + r.y() * r.y();
    let par = |v: T| ((v.x() - p.x()) * r.x() + (v.y() - p.y()) * r.y()) / rr;
    let t0 = fmax(par(q), T::Scalar::ZERO);
    let t1 = fmin(par(q2), T::Scalar::ONE);
    let a = T::new_2d(p.x() + r.x() * t0, p.y() + r.y() * t0);
    let b = T::new_2d(p.x() + r.x() * t1, p.y() + r.y() * t1);
    if a.x() == b.x() && a.y() == b.y() {
        Some(Intersection::Intersection(a))
    } else {
        Some(Intersection::Overlap(Line2::new(a, b)))
    }
}

/// the single point of an intersection is the point, or the start of the overlap
pub fn single__got<T: GenericVector2>(i: &Intersection<T>) -> T {
    i.single()
}
pub fn single__want<T: GenericVector2>(i: &Intersection<T>) -> T {
    match i {
        Intersection::Intersection(p) => *p,
        Intersection::Overlap(l) => l.start,
    }
}

/// the closest point of an intersection is the point, or the end of the overlap nearer to the reference
pub fn closest__holds<T: GenericVector2>(i: &Intersection<T>, o: T) -> bool {
    let c = i.closest(o);
    let d = |u: T| (u.x() - o.x()) * (u.x() - o.x()) + (u.y() - o.y()) * (u.y() - o.y());
    match i {
        Intersection::Intersection(p) => c == *p,
        Intersection::Overlap(l) => (c == l.start || c == l.end) && d(c) <= d(l.start) && d(c) <= d(l.end),
    }
}
