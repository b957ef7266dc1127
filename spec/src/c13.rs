use crate::*;
use linestring::linestring_2d::{self, LineString2};
use linestring::linestring_3d::{self, LineString3};
use linestring::prelude::{indexed_simplify_rdp_2d, indexed_simplify_rdp_3d};

/// simplifying a 2D line string keeps its first and last point
// @fixed
// @sizes 1 2 3 4 5
// @stop distance_to_line_squared_safe
pub fn ends2__got<T: GenericVector2>(ls: &Vec<T>, d: T::Scalar) -> (Option<T>, Option<T>) {
    let r = ls.simplify_rdp(d);
    (r.first().copied(), r.last().copied())
}
pub fn ends2__want<T: GenericVector2>(ls: &Vec<T>, d: T::Scalar) -> (Option<T>, Option<T>) {
    (ls.first().copied(), ls.last().copied())
}

/// simplifying by index is simplifying the selected points
// @fixed
// @sizes 1 2 3 4 5
// @stop distance_to_line_squared_safe
pub fn indexed2__got<T: GenericVector2>(ls: &Vec<T>, d: T::Scalar) -> Vec<T> {
    let ix: Vec<usize> = (0..ls.len()).collect();
    indexed_simplify_rdp_2d(ls, &ix, d).into_iter().map(|i| ls[i]).collect()
}
pub fn indexed2__want<T: GenericVector2>(ls: &Vec<T>, d: T::Scalar) -> Vec<T> {
    ls.simplify_rdp(d)
}

/// every point left out lies within the distance of the segment between the points kept around it
// @fixed
// @sizes 1 2 3 4 5
// @stop distance_to_line_squared_safe
pub fn within2__holds<T: GenericVector2>(ls: &Vec<T>, d: T::Scalar) -> bool {
    let ix: Vec<usize> = (0..ls.len()).collect();
    let r = indexed_simplify_rdp_2d(ls, &ix, d);
    let mut ok = true;
    let mut j = 0;
    while j + 1 < r.len() {
        let mut k = r[j] + 1;
        while k < r[j + 1] {
            ok = ok && linestring_2d::distance_to_line_squared_safe(ls[r[j]], ls[r[j + 1]], ls[k]) <= d * d;
            k += 1;
        }
        j += 1;
    }
    ok
}

/// the points kept are the line string's own, in their order, each at most once
// @fixed
// @sizes 0 1 2 3 4
// @stop distance_to_line_squared_safe
pub fn order2__holds<T: GenericVector2>(ls: &Vec<T>, d: T::Scalar) -> bool {
    let ix: Vec<usize> = (0..ls.len()).collect();
    let r = indexed_simplify_rdp_2d(ls, &ix, d);
    let mut ok = r.len() <= ls.len();
    let mut j = 0;
    while j < r.len() {
        ok = ok && r[j] < ls.len() && (j == 0 || r[j - 1] < r[j]);
        j += 1;
    }
    ok
}

/// a line string of at most two points is returned as it is
// @fixed
// @sizes 0 1 2
pub fn short2__got<T: GenericVector2>(ls: &Vec<T>, d: T::Scalar) -> Vec<T> {
    ls.simplify_rdp(d)
}
pub fn short2__want<T: GenericVector2>(ls: &Vec<T>, d: T::Scalar) -> Vec<T> {
    ls.clone()
}

/// an index list of at most two entries is returned as it is, whatever it selects from
// @fixed
// @sizes 0,0 0,1 1,1 1,2 2,2 0,3 1,3 2,3 0,4 1,4 2,4
pub fn short_ix2__got<T: GenericVector2>(ix: &Vec<usize>, ls: &Vec<T>, d: T::Scalar) -> Vec<usize> {
    indexed_simplify_rdp_2d(ls, ix, d)
}
pub fn short_ix2__want<T: GenericVector2>(ix: &Vec<usize>, ls: &Vec<T>, d: T::Scalar) -> Vec<usize> {
    ix.clone()
}

/// an index list selects points in the order of the list, also out of order and with repeats
// @fixed
// @stop distance_to_line_squared_safe
pub fn select2__got<T: GenericVector2>(p: T, q: T, r: T, s: T, d: T::Scalar) -> Vec<T> {
    let v = [p, q, r, s];
    indexed_simplify_rdp_2d(&v, &[3, 1, 0, 2, 3], d).into_iter().map(|i| v[i]).collect()
}
pub fn select2__want<T: GenericVector2>(p: T, q: T, r: T, s: T, d: T::Scalar) -> Vec<T> {
    vec![s, q, p, r, s].simplify_rdp(d)
}

/// the point furthest from the segment between the ends is kept when it is further than the distance
// @fixed
// @assume
// @sizes 3 4 5
// @stop distance_to_line_squared_safe
pub fn furthest2__holds<T: GenericVector2>(ls: &Vec<T>, d: T::Scalar) -> bool {
    let (a, b) = (ls[0], ls[ls.len() - 1]);
    let f = |p: T| linestring_2d::distance_to_line_squared_safe(a, b, p);
    let ix: Vec<usize> = (0..ls.len()).collect();
    let r = indexed_simplify_rdp_2d(ls, &ix, d);
    // the only point of the largest distance, if there is one
    let mut ok = true;
    let mut k = 1;
    while k + 1 < ls.len() {
        let mut best = f(ls[k]) > d * d;
        let mut j = 1;
        while j + 1 < ls.len() {
            best = best && (j == k || f(ls[j]) < f(ls[k]));
            j += 1;
        }
        ok = ok && (!best || r.contains(&k));
        k += 1;
    }
    ok
}
pub fn furthest2__pre<T: GenericVector2>(ls: &Vec<T>, d: T::Scalar) -> bool {
    ls.len() >= 3
}

/// when every point is within the distance of the segment between the ends only the ends are kept
// @fixed
// @sizes 3 4 5
// @stop distance_to_line_squared_safe
pub fn flat2__holds<T: GenericVector2>(ls: &Vec<T>, d: T::Scalar) -> bool {
    let r = ls.simplify_rdp(d);
    let (a, b) = (ls[0], ls[ls.len() - 1]);
    let mut all = true;
    let mut k = 1;
    while k + 1 < ls.len() {
        all = all && linestring_2d::distance_to_line_squared_safe(a, b, ls[k]) <= d * d;
        k += 1;
    }
    !all || (r.len() == 2 && r[0] == a && r[1] == b)
}
pub fn flat2__pre<T: GenericVector2>(ls: &Vec<T>, d: T::Scalar) -> bool {
    ls.len() >= 3
}

// the same for 3D line strings
/// simplifying a 3D line string keeps its first and last point
// @fixed
// @sizes 1 2 3 4 5
// @stop distance_to_line_squared_safe
pub fn ends3__got<T: GenericVector3>(ls: &Vec<T>, d: T::Scalar) -> (Option<T>, Option<T>) {
    let r = ls.simplify_rdp(d);
    (r.first().copied(), r.last().copied())
}
pub fn ends3__want<T: GenericVector3>(ls: &Vec<T>, d: T::Scalar) -> (Option<T>, Option<T>) {
    (ls.first().copied(), ls.last().copied())
}

/// simplifying by index is simplifying the selected points
// @fixed
// @sizes 1 2 3 4 5
// @stop distance_to_line_squared_safe
pub fn indexed3__got<T: GenericVector3>(ls: &Vec<T>, d: T::Scalar) -> Vec<T> {
    let ix: Vec<usize> = (0..ls.len()).collect();
    indexed_simplify_rdp_3d(ls, &ix, d).into_iter().map(|i| ls[i]).collect()
}
pub fn indexed3__want<T: GenericVector3>(ls: &Vec<T>, d: T::Scalar) -> Vec<T> {
    ls.simplify_rdp(d)
}

/// every point left out lies within the distance of the segment between the points kept around it
// @fixed
// @sizes 1 2 3 4 5
// @stop distance_to_line_squared_safe
pub fn within3__holds<T: GenericVector3>(ls: &Vec<T>, d: T::Scalar) -> bool {
    let ix: Vec<usize> = (0..ls.len()).collect();
    let r = indexed_simplify_rdp_3d(ls, &ix, d);
    let mut ok = true;
    let mut j = 0;
    while j + 1 < r.len() {
        let mut k = r[j] + 1;
        while k < r[j + 1] {
            ok = ok && linestring_3d::distance_to_line_squared_safe(ls[r[j]], ls[r[j + 1]], ls[k]) <= d * d;
            k += 1;
        }
        j += 1;
    }
    ok
}

/// the points kept are the line string's own, in their order, each at most once
// @fixed
// @sizes 0 1 2 3 4
// @stop distance_to_line_squared_safe
pub fn order3__holds<T: GenericVector3>(ls: &Vec<T>, d: T::Scalar) -> bool {
    let ix: Vec<usize> = (0..ls.len()).collect();
    let r = indexed_simplify_rdp_3d(ls, &ix, d);
    let mut ok = r.len() <= ls.len();
    let mut j = 0;
    while j < r.len() {
        ok = ok && r[j] < ls.len() && (j == 0 || r[j - 1] < r[j]);
        j += 1;
    }
    ok
}

/// a line string of at most two points is returned as it is
// @fixed
// @sizes 0 1 2
pub fn short3__got<T: GenericVector3>(ls: &Vec<T>, d: T::Scalar) -> Vec<T> {
    ls.simplify_rdp(d)
}
pub fn short3__want<T: GenericVector3>(ls: &Vec<T>, d: T::Scalar) -> Vec<T> {
    ls.clone()
}

/// an index list of at most two entries is returned as it is, whatever it selects from
// @fixed
// @sizes 0,0 0,1 1,1 1,2 2,2 0,3 1,3 2,3 0,4 1,4 2,4
pub fn short_ix3__got<T: GenericVector3>(ix: &Vec<usize>, ls: &Vec<T>, d: T::Scalar) -> Vec<usize> {
    indexed_simplify_rdp_3d(ls, ix, d)
}
pub fn short_ix3__want<T: GenericVector3>(ix: &Vec<usize>, ls: &Vec<T>, d: T::Scalar) -> Vec<usize> {
    ix.clone()
}

/// an index list selects points in the order of the list, also out of order and with repeats
// @fixed
// @stop distance_to_line_squared_safe
pub fn select3__got<T: GenericVector3>(p: T, q: T, r: T, s: T, d: T::Scalar) -> Vec<T> {
    let v = [p, q, r, s];
    indexed_simplify_rdp_3d(&v, &[3, 1, 0, 2, 3], d).into_iter().map(|i| v[i]).collect()
}
pub fn select3__want<T: GenericVector3>(p: T, q: T, r: T, s: T, d: T::Scalar) -> Vec<T> {
    vec![s, q, p, r, s].simplify_rdp(d)
}

/// the point furthest from the segment between the ends is kept when it is further than the distance
// @fixed
// @assume
// @sizes 3 4 5
// @stop distance_to_line_squared_safe
pub fn furthest3__holds<T: GenericVector3>(ls: &Vec<T>, d: T::Scalar) -> bool {
    let (a, b) = (ls[0], ls[ls.len() - 1]);
    let f = |p: T| linestring_3d::distance_to_line_squared_safe(a, b, p);
    let ix: Vec<usize> = (0..ls.len()).collect();
    let r = indexed_simplify_rdp_3d(ls, &ix, d);
    // the only point of the largest distance, if there is one
    let mut ok = true;
    let mut k = 1;
    while k + 1 < ls.len() {
        let mut best = f(ls[k]) > d * d;
        let mut j = 1;
        while j + 1 < ls.len() {
            best = best && (j == k || f(ls[j]) < f(ls[k]));
            j += 1;
        }
        ok = ok && (!best || r.contains(&k));
        k += 1;
    }
    ok
}
pub fn furthest3__pre<T: GenericVector3>(ls: &Vec<T>, d: T::Scalar) -> bool {
    ls.len() >= 3
}

/// when every point is within the distance of the segment between the ends only the ends are kept
// @fixed
// @sizes 3 4 5
// @stop distance_to_line_squared_safe
pub fn flat3__holds<T: GenericVector3>(ls: &Vec<T>, d: T::Scalar) -> bool {
    let r = ls.simplify_rdp(d);
    let (a, b) = (ls[0], ls[ls.len() - 1]);
    let mut all = true;
    let mut k = 1;
    while k + 1 < ls.len() {
        all = all && linestring_3d::distance_to_line_squared_safe(a, b, ls[k]) <= d * d;
        k += 1;
    }
    !all || (r.len() == 2 && r[0] == a && r[1] == b)
}
pub fn flat3__pre<T: GenericVector3>(ls: &Vec<T>, d: T::Scalar) -> bool {
    ls.len() >= 3
}
