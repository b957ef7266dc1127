use crate::*;
use linestring::linestring_2d::{self, Line2, LineString2};
use linestring::linestring_3d::{self, Line3, LineString3};

/// the edges of a line string are its consecutive point pairs, in order
pub fn edges2__got<T: GenericVector2>(ls: &Vec<T>) -> Vec<Line2<T>> {
    ls.window_iter().collect()
}
pub fn edges2__want<T: GenericVector2>(ls: &Vec<T>) -> Vec<Line2<T>> {
    ls.windows(2).map(|w| Line2::new(w[0], w[1])).collect()
}

/// the edges of a 3D line string are its consecutive point pairs, in order
pub fn edges3__got<T: GenericVector3>(ls: &Vec<T>) -> Vec<Line3<T>> {
    ls.window_iter().collect()
}
pub fn edges3__want<T: GenericVector3>(ls: &Vec<T>) -> Vec<Line3<T>> {
    ls.windows(2).map(|w| Line3::new(w[0], w[1])).collect()
}

/// disconnected edges are points 2i and 2i+1, in order
pub fn pairs2__got<T: GenericVector2>(ls: &Vec<T>) -> Vec<Line2<T>> {
    ls.chunk_iter().collect()
}
pub fn pairs2__want<T: GenericVector2>(ls: &Vec<T>) -> Vec<Line2<T>> {
    (0..ls.len() / 2).map(|i| Line2::new(ls[2 * i], ls[2 * i + 1])).collect()
}

/// disconnected 3D edges are points 2i and 2i+1, in order
pub fn pairs3__got<T: GenericVector3>(ls: &Vec<T>) -> Vec<Line3<T>> {
    ls.chunk_iter().collect()
}
pub fn pairs3__want<T: GenericVector3>(ls: &Vec<T>) -> Vec<Line3<T>> {
    (0..ls.len() / 2).map(|i| Line3::new(ls[2 * i], ls[2 * i + 1])).collect()
}

/// the announced number of edges is one less than the number of points, or zero
pub fn edges_len2__got<T: GenericVector2>(ls: &Vec<T>) -> (usize, bool) {
    let w = ls.window_iter();
    (w.len(), w.is_empty())
}
pub fn edges_len2__want<T: GenericVector2>(ls: &Vec<T>) -> (usize, bool) {
    let n = if ls.len() > 1 { ls.len() - 1 } else { 0 };
    (n, n == 0)
}

/// the announced number of 3D edges is one less than the number of points, or zero
pub fn edges_len3__got<T: GenericVector3>(ls: &Vec<T>) -> (usize, bool) {
    let w = ls.window_iter();
    (w.len(), w.is_empty())
}
pub fn edges_len3__want<T: GenericVector3>(ls: &Vec<T>) -> (usize, bool) {
    let n = if ls.len() > 1 { ls.len() - 1 } else { 0 };
    (n, n == 0)
}

/// the announced number of disconnected edges is half the number of points rounded down, and the odd point remains
pub fn pairs_len2__got<T: GenericVector2>(ls: &Vec<T>) -> (usize, bool, Vec<T>) {
    let w = ls.chunk_iter();
    (w.len(), w.is_empty(), w.remainder().to_vec())
}
pub fn pairs_len2__want<T: GenericVector2>(ls: &Vec<T>) -> (usize, bool, Vec<T>) {
    let n = ls.len() / 2;
    (n, n == 0, ls[2 * n..].to_vec())
}

/// the announced number of disconnected 3D edges is half the number of points rounded down, and the odd point remains
pub fn pairs_len3__got<T: GenericVector3>(ls: &Vec<T>) -> (usize, bool, Vec<T>) {
    let w = ls.chunk_iter();
    (w.len(), w.is_empty(), w.remainder().to_vec())
}
pub fn pairs_len3__want<T: GenericVector3>(ls: &Vec<T>) -> (usize, bool, Vec<T>) {
    let n = ls.len() / 2;
    (n, n == 0, ls[2 * n..].to_vec())
}

/// a line string is connected iff it is empty or its first point is its last
pub fn connected2__got<T: GenericVector2>(ls: &Vec<T>) -> bool {
    ls.is_connected()
}
pub fn connected2__want<T: GenericVector2>(ls: &Vec<T>) -> bool {
    ls.len() == 0 || ls[0] == ls[ls.len() - 1]
}

/// a 3D line string is connected iff it is empty or its first point is its last
pub fn connected3__got<T: GenericVector3>(ls: &Vec<T>) -> bool {
    ls.is_connected()
}
pub fn connected3__want<T: GenericVector3>(ls: &Vec<T>) -> bool {
    ls.len() == 0 || ls[0] == ls[ls.len() - 1]
}

/// the point count does not count the repeated last point of a loop of more than two points
pub fn point_count__got<T: GenericVector2>(ls: &Vec<T>) -> usize {
    ls.point_count()
}
pub fn point_count__want<T: GenericVector2>(ls: &Vec<T>) -> usize {
    if ls.len() > 2 && ls[0] == ls[ls.len() - 1] {
        ls.len() - 1
    } else {
        ls.len()
    }
}

/// applying an operation to a line string applies it to every point, in place and in order
pub fn apply2__got<T: GenericVector2, F: Fn(T) -> T>(ls: &mut Vec<T>, f: F) -> Vec<T> {
    ls.apply(&f);
    ls.clone()
}
pub fn apply2__want<T: GenericVector2, F: Fn(T) -> T>(ls: &mut Vec<T>, f: F) -> Vec<T> {
    let r: Vec<T> = ls.iter().map(|p| f(*p)).collect();
    *ls = r.clone();
    r
}

/// applying an operation to a 3D line string applies it to every point, in place and in order
pub fn apply3__got<T: GenericVector3, F: Fn(T) -> T>(ls: &mut Vec<T>, f: F) -> Vec<T> {
    ls.apply(&f);
    ls.clone()
}
pub fn apply3__want<T: GenericVector3, F: Fn(T) -> T>(ls: &mut Vec<T>, f: F) -> Vec<T> {
    let r: Vec<T> = ls.iter().map(|p| f(*p)).collect();
    *ls = r.clone();
    r
}

/// applying an operation to a 3D line applies it to both ends
pub fn apply_line3__got<T: GenericVector3, F: Fn(T) -> T>(l: Line3<T>, f: F) -> (T, T) {
    let r = l.apply(f);
    (r.start, r.end)
}
pub fn apply_line3__want<T: GenericVector3, F: Fn(T) -> T>(l: Line3<T>, f: F) -> (T, T) {
    (f(l.start), f(l.end))
}
