use crate::*;
use linestring::linestring_2d::indexed_intersection::IntersectionTester;
use linestring::linestring_2d::intersection::IntersectionData;
use linestring::linestring_2d::{Intersection, Line2};

fn sweep<T: GenericVector2>(l: Vec<Line2<T>>, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    let s = IntersectionData::<T>::default().with_ignore_end_point_intersections(ignore).ok()?;
    let s = s.with_lines(l.into_iter()).ok()?;
    Some(s.compute().ok()?.collect())
}
fn fin<T: GenericVector2>(p: T) -> bool {
    vector_traits::num_traits::Float::is_finite(p.x()) && vector_traits::num_traits::Float::is_finite(p.y())
}
// p is lower than q, not within rounding
fn below<T: GenericVector2>(p: T, q: T) -> bool {
    p.y() < q.y() && !near(p.y(), q.y()) && !near(q.y(), p.y()) && p.y() != q.y()
}

/// one line meets nothing
// @fixed
// @assume
pub fn single__got<T: GenericVector2>(a: T, b: T) -> Option<Vec<(T, Vec<usize>)>> {
    sweep(vec![Line2::new(a, b)], false)
}
pub fn single__pre<T: GenericVector2>(a: T, b: T) -> bool {
    fin(a) && fin(b) && below(a, b)
}
pub fn single__want<T: GenericVector2>(a: T, b: T) -> Option<Vec<(T, Vec<usize>)>> {
    Some(vec![])
}


// the pairwise test, treated as the same unknown symmetric function as the library's own
fn meet<T: GenericVector2>(a: Line2<T>, b: Line2<T>) -> Option<Intersection<T>> {
    a.intersection_point(b)
}
// the two lines meet in q, or the pairwise test does not see it
fn at<T: GenericVector2>(q: T, k: Line2<T>, l: Line2<T>) -> bool {
    match meet(k, l) {
        Some(Intersection::Intersection(p)) => {
            fin(p) && p.x() == q.x() && p.y() == q.y() && near(p.x(), q.x()) && near(p.y(), q.y()) && near(q.x(), p.x()) && near(q.y(), p.y())
        }
        Some(_) => false,
        None => true,
    }
}
// where two lines meet, if they do, is above both starts and below both ends
fn inner<T: GenericVector2>(k: Line2<T>, l: Line2<T>) -> bool {
    match meet(k, l) {
        Some(Intersection::Intersection(p)) => fin(p) && below(k.start, p) && below(l.start, p) && below(p, k.end) && below(p, l.end),
        Some(_) => false,
        None => true,
    }
}

// p lies on the line l, measured along the horizontal through p
fn on<T: GenericVector2>(p: T, l: Line2<T>) -> bool {
    let slope = (l.end.y() - l.start.y()) / (l.end.x() - l.start.x());
    if near(l.start.x(), l.end.x()) {
        return near(l.start.x(), p.x());
    }
    near((p.y() - (l.start.y() - slope * l.start.x())) / slope, p.x())
}

fn apart<T: GenericVector2>(p: T, q: T) -> bool {
    below(p, q) || below(q, p)
}
// no two of the events happen at the same height and none of the end points is on the other line
fn general<T: GenericVector2>(k: Line2<T>, l: Line2<T>) -> bool {
    fin(k.start) && fin(k.end) && fin(l.start) && fin(l.end)
        && below(k.start, k.end) && below(l.start, l.end)
        && apart(k.start, l.start) && apart(k.start, l.end) && apart(k.end, l.start) && apart(k.end, l.end)
        && inner(k, l)
        && !(below(k.start, l.start) && below(l.start, k.end) && on(l.start, k))
        && !(below(l.start, k.start) && below(k.start, l.end) && on(k.start, l))
        && !(below(k.start, l.end) && below(l.end, k.end) && on(l.end, k))
        && !(below(l.start, k.end) && below(k.end, l.end) && on(k.end, l))
}
fn meeting<T: GenericVector2>(k: Line2<T>, l: Line2<T>) -> Vec<(T, Vec<usize>)> {
    match meet(k, l) {
        Some(p) => vec![(p.single(), vec![0, 1])],
        None => vec![],
    }
}

/// two lines in general position: one event with both lines where they meet, nothing if they do not
// @fixed
// @assume
// @alias Line2::<T>::intersection_point meet
pub fn two__got<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    sweep(vec![Line2::new(a, b), Line2::new(c, d)], ignore)
}
pub fn two__pre<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> bool {
    let _ = ignore;
    general(Line2::new(a, b), Line2::new(c, d))
}
pub fn two__want<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    let _ = ignore;
    Some(meeting(Line2::new(a, b), Line2::new(c, d)))
}

/// the direction in which a line is given does not matter
// @fixed
// @assume
// @alias Line2::<T>::intersection_point meet
pub fn two_turned__got<T: GenericVector2>(a: T, b: T, c: T, d: T) -> Option<Vec<(T, Vec<usize>)>> {
    sweep(vec![Line2::new(b, a), Line2::new(d, c)], false)
}
pub fn two_turned__pre<T: GenericVector2>(a: T, b: T, c: T, d: T) -> bool {
    general(Line2::new(a, b), Line2::new(c, d)) && below(a, c) && below(c, b) && below(b, d)
}
pub fn two_turned__want<T: GenericVector2>(a: T, b: T, c: T, d: T) -> Option<Vec<(T, Vec<usize>)>> {
    Some(meeting(Line2::new(a, b), Line2::new(c, d)))
}

/// a line starting on the inside of another one meets it there, whether or not shared end points count
// @fixed
// @assume
// @alias Line2::<T>::intersection_point meet
pub fn start_on__got<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    sweep(vec![Line2::new(a, b), Line2::new(c, d)], ignore)
}
pub fn start_on__pre<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> bool {
    let _ = ignore;
    fin(a) && fin(b) && fin(c) && fin(d) && below(a, c) && below(c, b) && apart(b, d) && below(a, b) && below(c, d) && below(a, d)
        && at(c, Line2::new(a, b), Line2::new(c, d))
        && on(c, Line2::new(a, b))
        && !(below(b, d) && on(b, Line2::new(c, d)))
        && !(below(d, b) && on(d, Line2::new(a, b)))
}
pub fn start_on__want<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    let _ = (a, b, d, ignore);
    Some(vec![(c, vec![0, 1])])
}

/// a line ending on the inside of another one meets it there, whether or not shared end points count
// @fixed
// @assume
// @alias Line2::<T>::intersection_point meet
pub fn end_on__got<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    sweep(vec![Line2::new(a, b), Line2::new(c, d)], ignore)
}
pub fn end_on__pre<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> bool {
    let _ = ignore;
    fin(a) && fin(b) && fin(c) && fin(d) && apart(a, c) && below(a, d) && below(d, b) && below(a, b) && below(c, d) && below(c, b)
        && at(d, Line2::new(a, b), Line2::new(c, d))
        && on(d, Line2::new(a, b))
        && !(below(a, c) && on(c, Line2::new(a, b)))
        && !(below(c, a) && on(a, Line2::new(c, d)))
}
pub fn end_on__want<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    let _ = (a, b, c, ignore);
    Some(vec![(d, vec![0, 1])])
}

/// a shared end point counts only if it is asked for
// @fixed
// @assume
// @alias Line2::<T>::intersection_point meet
pub fn shared__got<T: GenericVector2>(a: T, b: T, c: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    sweep(vec![Line2::new(a, b), Line2::new(b, c)], ignore)
}
pub fn shared__pre<T: GenericVector2>(a: T, b: T, c: T, ignore: bool) -> bool {
    let _ = ignore;
    fin(a) && fin(b) && fin(c) && below(a, b) && below(b, c) && below(a, c)
}
pub fn shared__want<T: GenericVector2>(a: T, b: T, c: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    let _ = (a, c);
    Some(if ignore { vec![] } else { vec![(b, vec![0, 1])] })
}

/// lines with coordinates that are not finite are refused
// @fixed
pub fn refused__holds<T: GenericVector2>(a: T, b: T) -> bool {
    let r = IntersectionData::<T>::default().with_lines(vec![Line2::new(a, b)].into_iter());
    r.is_ok() == (fin(a) && fin(b))
}

// the indexed finder on the same lines: where the reported vertex is, and the edges through it
fn indexed<T: GenericVector2>(v: Vec<T>, e: Vec<(usize, usize)>, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    let s = IntersectionTester::<T>::new(v).with_ignore_end_point_intersections(ignore).ok()?;
    let s = s.with_edges(e.iter()).ok()?;
    let (w, r) = s.compute().ok()?;
    let mut out = Vec::new();
    for (i, l) in r {
        out.push((w[i], l));
    }
    Some(out)
}

/// indexed: two edges in general position
// @fixed
// @assume
// @alias Line2::<T>::intersection_point meet
pub fn itwo__got<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    indexed(vec![a, b, c, d], vec![(0, 1), (2, 3)], ignore)
}
pub fn itwo__pre<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> bool {
    let _ = ignore;
    general(Line2::new(a, b), Line2::new(c, d))
}
pub fn itwo__want<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    let _ = ignore;
    Some(meeting(Line2::new(a, b), Line2::new(c, d)))
}

/// indexed: an edge starting on the inside of another one
// @fixed
// @assume
// @alias Line2::<T>::intersection_point meet
pub fn istart_on__got<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    indexed(vec![a, b, c, d], vec![(0, 1), (2, 3)], ignore)
}
pub fn istart_on__pre<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> bool {
    start_on__pre(a, b, c, d, ignore)
}
pub fn istart_on__want<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    let _ = (a, b, d, ignore);
    Some(vec![(c, vec![0, 1])])
}

/// indexed: an edge ending on the inside of another one
// @fixed
// @assume
// @alias Line2::<T>::intersection_point meet
pub fn iend_on__got<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    indexed(vec![a, b, c, d], vec![(0, 1), (2, 3)], ignore)
}
pub fn iend_on__pre<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> bool {
    end_on__pre(a, b, c, d, ignore)
}
pub fn iend_on__want<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    let _ = (a, b, c, ignore);
    Some(vec![(d, vec![0, 1])])
}

/// indexed: edges joined end to end
// @fixed
// @assume
// @alias Line2::<T>::intersection_point meet
pub fn ishared__got<T: GenericVector2>(a: T, b: T, c: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    indexed(vec![a, b, c], vec![(0, 1), (1, 2)], ignore)
}
pub fn ishared__pre<T: GenericVector2>(a: T, b: T, c: T, ignore: bool) -> bool {
    shared__pre(a, b, c, ignore) && meet(Line2::new(a, b), Line2::new(b, c)).is_none()
}
pub fn ishared__want<T: GenericVector2>(a: T, b: T, c: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    let _ = (a, c);
    Some(if ignore { vec![] } else { vec![(b, vec![0, 1])] })
}

/// indexed: edges between points that are not finite are refused
// @fixed
pub fn irefused__holds<T: GenericVector2>(a: T, b: T) -> bool {
    let e = vec![(0, 1)];
    let r = IntersectionTester::<T>::new(vec![a, b]).with_edges(e.iter());
    r.is_ok() == (fin(a) && fin(b))
}

// two crossing lines, then two more lines meeting at the same height or above: with stop-at-first nothing more is reported
/// stopping at the first event reports the lowest one
// @fixed
// @assume
// @alias Line2::<T>::intersection_point meet
pub fn first__got<T: GenericVector2>(a: T, b: T, c: T, d: T) -> Option<Vec<(T, Vec<usize>)>> {
    let s = IntersectionData::<T>::default().with_stop_at_first_intersection(true).ok()?;
    let s = s.with_lines(vec![Line2::new(a, b), Line2::new(b, c), Line2::new(c, d)].into_iter()).ok()?;
    Some(s.compute().ok()?.collect())
}
pub fn first__pre<T: GenericVector2>(a: T, b: T, c: T, d: T) -> bool {
    fin(a) && fin(b) && fin(c) && fin(d) && below(a, b) && below(b, c) && below(c, d) && below(a, c) && below(a, d) && below(b, d)
}
pub fn first__want<T: GenericVector2>(a: T, b: T, c: T, d: T) -> Option<Vec<(T, Vec<usize>)>> {
    let _ = (a, c, d);
    Some(vec![(b, vec![0, 1])])
}

/// indexed: stopping at the first event reports the lowest one
// @fixed
// @assume
// @alias Line2::<T>::intersection_point meet
pub fn ifirst__got<T: GenericVector2>(a: T, b: T, c: T, d: T) -> Option<Vec<(usize, Vec<usize>)>> {
    let e = vec![(0, 1), (1, 2), (2, 3)];
    let s = IntersectionTester::<T>::new(vec![a, b, c, d]).with_stop_at_first_intersection(true).ok()?;
    let s = s.with_edges(e.iter()).ok()?;
    let (_, it) = s.compute().ok()?;
    Some(it.map(|(p, l)| (p, l.to_vec())).collect())
}
pub fn ifirst__pre<T: GenericVector2>(a: T, b: T, c: T, d: T) -> bool {
    first__pre(a, b, c, d)
}
pub fn ifirst__want<T: GenericVector2>(a: T, b: T, c: T, d: T) -> Option<Vec<(usize, Vec<usize>)>> {
    let _ = (a, b, c, d);
    Some(vec![(1, vec![0, 1])])
}

/// without it every shared end point of a chain is reported, in order of height
// @fixed
// @assume
// @alias Line2::<T>::intersection_point meet
pub fn chain__got<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    sweep(vec![Line2::new(c, d), Line2::new(b, c), Line2::new(a, b)], ignore)
}
pub fn chain__pre<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> bool {
    let _ = ignore;
    first__pre(a, b, c, d)
}
pub fn chain__want<T: GenericVector2>(a: T, b: T, c: T, d: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    let _ = (a, d);
    Some(if ignore { vec![] } else { vec![(b, vec![1, 2]), (c, vec![0, 1])] })
}

/// indexed: the given vertices keep their positions in the output
// @fixed
// @assume
// @alias Line2::<T>::intersection_point meet
pub fn ikept__got<T: GenericVector2>(a: T, b: T, c: T, d: T) -> Option<(T, T, T, T)> {
    let e = vec![(0, 1), (2, 3)];
    let s = IntersectionTester::<T>::new(vec![a, b, c, d]).with_edges(e.iter()).ok()?;
    let (w, _) = s.compute().ok()?;
    Some((w[0], w[1], w[2], w[3]))
}
pub fn ikept__pre<T: GenericVector2>(a: T, b: T, c: T, d: T) -> bool {
    general(Line2::new(a, b), Line2::new(c, d)) && below(a, c) && below(c, b) && below(b, d)
}
pub fn ikept__want<T: GenericVector2>(a: T, b: T, c: T, d: T) -> Option<(T, T, T, T)> {
    Some((a, b, c, d))
}

/// a horizontal line, given from right to left, crossed by another one
// @fixed
// @assume
// @alias Line2::<T>::intersection_point meet
pub fn flat__got<T: GenericVector2>(ax: T::Scalar, bx: T::Scalar, y: T::Scalar, c: T, d: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    sweep(vec![Line2::new(T::new_2d(bx, y), T::new_2d(ax, y)), Line2::new(c, d)], ignore)
}
pub fn flat__pre<T: GenericVector2>(ax: T::Scalar, bx: T::Scalar, y: T::Scalar, c: T, d: T, ignore: bool) -> bool {
    let _ = ignore;
    let (a, b) = (T::new_2d(ax, y), T::new_2d(bx, y));
    level(a, b, c, d, meet(Line2::new(a, b), Line2::new(c, d)))
}
fn level<T: GenericVector2>(a: T, b: T, c: T, d: T, m: Option<Intersection<T>>) -> bool {
    let (ax, bx, y) = (a.x(), b.x(), a.y());
    fin(a) && fin(b) && fin(c) && fin(d) && below(c, a) && below(a, d) && below(c, d) && ax < bx && !near(ax, bx)
        && !on(a, Line2::new(c, d)) && !on(b, Line2::new(c, d))
        && match m {
            Some(Intersection::Intersection(p)) => {
                fin(p) && p.y() == y && near(p.y(), y) && below(c, p) && below(p, d)
                    && ax < p.x() && p.x() < bx && !near(ax, p.x()) && !near(p.x(), bx)
            }
            Some(_) => false,
            None => true,
        }
}
pub fn flat__want<T: GenericVector2>(ax: T::Scalar, bx: T::Scalar, y: T::Scalar, c: T, d: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    let _ = ignore;
    let (a, b) = (T::new_2d(ax, y), T::new_2d(bx, y));
    Some(meeting(Line2::new(a, b), Line2::new(c, d)))
}

/// indexed: a horizontal edge crossed by another one
// @fixed
// @assume
// @alias Line2::<T>::intersection_point meet
pub fn iflat__got<T: GenericVector2>(ax: T::Scalar, bx: T::Scalar, y: T::Scalar, c: T, d: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    indexed(vec![T::new_2d(ax, y), T::new_2d(bx, y), c, d], vec![(0, 1), (2, 3)], ignore)
}
pub fn iflat__pre<T: GenericVector2>(ax: T::Scalar, bx: T::Scalar, y: T::Scalar, c: T, d: T, ignore: bool) -> bool {
    let _ = ignore;
    let (a, b) = (T::new_2d(ax, y), T::new_2d(bx, y));
    level(a, b, c, d, meet(Line2::new(a, b), Line2::new(c, d)))
}
pub fn iflat__want<T: GenericVector2>(ax: T::Scalar, bx: T::Scalar, y: T::Scalar, c: T, d: T, ignore: bool) -> Option<Vec<(T, Vec<usize>)>> {
    let _ = ignore;
    let (a, b) = (T::new_2d(ax, y), T::new_2d(bx, y));
    Some(meeting(Line2::new(a, b), Line2::new(c, d)))
}
