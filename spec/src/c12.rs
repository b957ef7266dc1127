use crate::*;
use linestring::linestring_2d::{self, Line2, LineString2};

fn crosses<T: GenericVector2>(r: Result<bool, linestring::LinestringError>) -> bool {
    match r {
        Ok(x) => x,
        Err(_) => false,
    }
}

/// a line string with at most one edge never intersects itself
// @assume
// @stop intersection_point
// @stop IntersectionData::<T>::compute
pub fn short__got<T: GenericVector2>(ls: &Vec<T>) -> Option<bool> {
    ls.is_self_intersecting().ok()
}
pub fn short__pre<T: GenericVector2>(ls: &Vec<T>) -> bool {
    ls.len() <= 2
}
pub fn short__want<T: GenericVector2>(ls: &Vec<T>) -> Option<bool> {
    Some(false)
}

/// two connected edges that leave their common point in directions at least a right angle apart do not intersect
// @stop intersection_point
pub fn straight__got<T: GenericVector2>(a: T, m: T, b: T) -> Option<bool> {
    vec![a, m, b].is_self_intersecting().ok()
}
pub fn straight__pre<T: GenericVector2>(a: T, m: T, b: T) -> bool {
    (a.x() - m.x()) * (b.x() - m.x()) + (a.y() - m.y()) * (b.y() - m.y()) <= T::Scalar::ZERO
}
pub fn straight__want<T: GenericVector2>(a: T, m: T, b: T) -> Option<bool> {
    Some(false)
}

/// an edge that turns back onto the previous one, to a point on it or beyond its start, intersects it
// @stop intersection_point
pub fn turn_back__got<T: GenericVector2>(m: T, d: T, t: T::Scalar) -> Option<bool> {
    vec![T::new_2d(m.x() + d.x() * t, m.y() + d.y() * t), m, T::new_2d(m.x() + d.x(), m.y() + d.y())].is_self_intersecting().ok()
}
pub fn turn_back__pre<T: GenericVector2>(m: T, d: T, t: T::Scalar) -> bool {
    t > T::Scalar::ZERO
        && (d.x() != T::Scalar::ZERO || d.y() != T::Scalar::ZERO)
        && near(d.x(), T::Scalar::ZERO) == near(d.x() * t, T::Scalar::ZERO)
}
pub fn turn_back__want<T: GenericVector2>(m: T, d: T, t: T::Scalar) -> Option<bool> {
    Some(true)
}

fn at<T: GenericVector2>(a: T, b: T) -> bool {
    near(a.x(), b.x()) && near(a.y(), b.y())
}
fn meet<T: GenericVector2>(l: Line2<T>, m: Line2<T>) -> bool {
    match l.intersection_point(m) {
        Some(i) => {
            let p = i.single();
            !((at(p, l.start) || at(p, l.end)) && (at(p, m.start) || at(p, m.end)))
        }
        None => false,
    }
}

// two connected edges turn back onto each other: same direction, seen from the common point
fn back<T: GenericVector2>(a: T, m: T, b: T) -> bool {
    let (ux, uy, vx, vy) = (m.x() - a.x(), m.y() - a.y(), m.x() - b.x(), m.y() - b.y());
    let z = T::Scalar::ZERO;
    if ux * vx + uy * vy <= z {
        false
    } else if near(ux, z) || near(vx, z) {
        near(ux, z) && near(vx, z)
    } else {
        near(ux / uy, vx / vy)
    }
}

/// a few edges intersect each other iff two consecutive ones turn back onto each other or two others meet in a point that is not an end point of both
// @assume
// @stop intersection_point
// @limit 250
// @sizes 3 4 5 7 8 9
pub fn few_edges__got<T: GenericVector2>(ls: &Vec<T>) -> Option<bool> {
    ls.is_self_intersecting().ok()
}
pub fn few_edges__pre<T: GenericVector2>(ls: &Vec<T>) -> bool {
    ls.len() > 2 && ls.len() < 10
}
pub fn few_edges__want<T: GenericVector2>(ls: &Vec<T>) -> Option<bool> {
    let n = ls.len() - 1;
    for i in 0..n - 1 {
        for j in i + 1..n {
            if j == i + 1 {
                if back(ls[i], ls[i + 1], ls[j + 1]) {
                    return Some(true);
                }
            } else if meet(Line2::new(ls[i], ls[i + 1]), Line2::new(ls[j], ls[j + 1])) {
                return Some(true);
            }
        }
    }
    Some(false)
}

/// many edges intersect each other iff a sweep over all of them, ignoring their common end points, finds any intersection
// @assume
// @stop IntersectionData::<T>::compute
// @stop IntersectionData::<T>::with_lines
pub fn many_edges__got<T: GenericVector2>(ls: &Vec<T>) -> Option<bool> {
    ls.is_self_intersecting().ok()
}
pub fn many_edges__pre<T: GenericVector2>(ls: &Vec<T>) -> bool {
    ls.len() >= 10
}
pub fn many_edges__want<T: GenericVector2>(ls: &Vec<T>) -> Option<bool> {
    let d = linestring_2d::intersection::IntersectionData::<T>::default();
    let d = d.with_stop_at_first_intersection(true).ok()?.with_ignore_end_point_intersections(true).ok()?;
    let r = d.with_lines(ls.window_iter()).ok()?.compute().ok()?;
    Some(r.len() > 0)
}
