use crate::*;
use linestring::linestring_2d::convex_hull::{self, is_point_left, point_orientation, Orientation};
use linestring::linestring_2d::LineString2;
use linestring::LinestringError;

fn s<S: GenericScalar>(x: f32) -> S {
    x.into()
}
fn far<S: GenericScalar>(a: S) -> bool {
    a != S::ZERO && !near(a, S::ZERO)
}
fn off<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> T {
    T::new_2d(o.x() + x, o.y() + y)
}
fn at<T: GenericVector2>(o: T, x: f32, y: f32) -> T {
    off(o, s(x), s(y))
}
fn pick<T: GenericVector2>(v: &[T], r: Result<Vec<usize>, LinestringError>) -> Option<Vec<T>> {
    r.ok().map(|r| r.iter().map(|i| v[*i]).collect())
}

// r is the polygon w, closed, starting anywhere
fn cycle<T: GenericVector2>(r: Option<Vec<T>>, w: Vec<T>) -> bool {
    let r = match r {
        Some(r) => r,
        None => return false,
    };
    let n = w.len();
    if r.len() != n + 1 || r[0] != r[n] {
        return false;
    }
    let mut found = false;
    for k in 0..n {
        let mut all = true;
        for i in 0..n {
            all = all && r[i] == w[(i + k) % n];
        }
        found = found || all;
    }
    found
}

// 0 < x, y < 4, not within rounding of an edge or a diagonal of the square
fn inside<S: GenericScalar>(x: S, y: S) -> bool {
    let (z, f) = (S::ZERO, s::<S>(4.0));
    x > z && x < f && y > z && y < f && far(x) && far(y) && far(f - x) && far(f - y) && far(x - y) && far(x + y - f)
}
fn square<T: GenericVector2>(o: T) -> Vec<T> {
    vec![at(o, 0.0, 0.0), at(o, 4.0, 0.0), at(o, 4.0, 4.0), at(o, 0.0, 4.0)]
}

/// gift wrapping: a point inside a square is not on its hull
// @fixed
// @assume
pub fn inside_wrap__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let v = [at(o, 0.0, 4.0), off(o, x, y), at(o, 4.0, 0.0), at(o, 0.0, 0.0), at(o, 4.0, 4.0)];
    cycle(convex_hull::gift_wrap(&v).ok(), square(o))
}
pub fn inside_wrap__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    inside(x, y)
}

/// Graham scan: a point inside a square is not on its hull
// @fixed
// @assume
pub fn inside_graham__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let v = [at(o, 0.0, 4.0), off(o, x, y), at(o, 4.0, 0.0), at(o, 0.0, 0.0), at(o, 4.0, 4.0)];
    cycle(convex_hull::graham_scan(&v).ok(), square(o))
}
pub fn inside_graham__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    inside(x, y)
}

/// gift wrapping by index: a point inside a square is not on its hull
// @fixed
// @assume
pub fn inside_wrap_ix__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let v = [at(o, 0.0, 4.0), off(o, x, y), at(o, 4.0, 0.0), at(o, 0.0, 0.0), at(o, 4.0, 4.0)];
    cycle(pick(&v, convex_hull::indexed_gift_wrap(&v, &[0, 1, 2, 3, 4])), square(o))
}
pub fn inside_wrap_ix__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    inside(x, y)
}

/// Graham scan by index: a point inside a square is not on its hull
// @fixed
// @assume
pub fn inside_graham_ix__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let v = [at(o, 0.0, 4.0), off(o, x, y), at(o, 4.0, 0.0), at(o, 0.0, 0.0), at(o, 4.0, 4.0)];
    cycle(pick(&v, convex_hull::indexed_graham_scan(&v, &[0, 1, 2, 3, 4])), square(o))
}
pub fn inside_graham_ix__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    inside(x, y)
}

// hull of the triangle (0,0) (4,0) (0,4) and a fourth point anywhere, from the edges the point is right of
fn four<T: GenericVector2>(a: T, b: T, c: T, p: T) -> Vec<T> {
    let (l, m, n) = (is_point_left(a, b, p), is_point_left(b, c, p), is_point_left(c, a, p));
    if l && m && n {
        vec![a, b, c]
    } else if m && n {
        vec![a, p, b, c]
    } else if l && n {
        vec![a, b, p, c]
    } else if l && m {
        vec![a, b, c, p]
    } else if n {
        vec![a, p, c]
    } else if m {
        vec![p, b, c]
    } else {
        vec![a, b, p]
    }
}
// not within rounding of a line through two of the corners, nor of the position of one of them
fn clear<S: GenericScalar>(x: S, y: S) -> bool {
    let f = s::<S>(4.0);
    far(x) && far(y) && far(x + y - f) && far(x - f) && far(y - f)
}

/// gift wrapping: the hull of a triangle and any fourth point
// @fixed
// @assume
pub fn four_wrap__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let (a, b, c, p) = (at(o, 0.0, 0.0), at(o, 4.0, 0.0), at(o, 0.0, 4.0), off(o, x, y));
    cycle(convex_hull::gift_wrap(&[a, c, p, b]).ok(), four(a, b, c, p))
}
pub fn four_wrap__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear(x, y)
}

/// Graham scan: the hull of a triangle and any fourth point
// @fixed
// @assume
pub fn four_graham__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let (a, b, c, p) = (at(o, 0.0, 0.0), at(o, 4.0, 0.0), at(o, 0.0, 4.0), off(o, x, y));
    cycle(convex_hull::graham_scan(&[a, c, p, b]).ok(), four(a, b, c, p))
}
pub fn four_graham__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear(x, y)
}

/// gift wrapping by index: the hull of a triangle and any fourth point
// @fixed
// @assume
pub fn four_wrap_ix__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let (a, b, c, p) = (at(o, 0.0, 0.0), at(o, 4.0, 0.0), at(o, 0.0, 4.0), off(o, x, y));
    let v = [o, p, c, a, b];
    cycle(pick(&v, convex_hull::indexed_gift_wrap(&v, &[2, 4, 1, 3])), four(a, b, c, p))
}
pub fn four_wrap_ix__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear(x, y)
}

/// Graham scan by index: the hull of a triangle and any fourth point
// @fixed
// @assume
pub fn four_graham_ix__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let (a, b, c, p) = (at(o, 0.0, 0.0), at(o, 4.0, 0.0), at(o, 0.0, 4.0), off(o, x, y));
    let v = [o, p, c, a, b];
    cycle(pick(&v, convex_hull::indexed_graham_scan(&v, &[2, 4, 1, 3])), four(a, b, c, p))
}
pub fn four_graham_ix__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear(x, y)
}

/// gift wrapping: points on the sides of a square are not corners of its hull
// @fixed
// @assume
pub fn side_wrap__holds<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    let v = [off(o, s(0.0), u), at(o, 0.0, 4.0), at(o, 4.0, 0.0), off(o, t, s(0.0)), at(o, 0.0, 0.0), at(o, 4.0, 4.0), off(o, s(4.0), u)];
    cycle(convex_hull::gift_wrap(&v).ok(), square(o))
}
pub fn side_wrap__pre<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    side(t) && side(u)
}

/// Graham scan: points on the sides of a square are not corners of its hull
// @fixed
// @assume
pub fn side_graham__holds<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    let v = [off(o, s(0.0), u), at(o, 0.0, 4.0), at(o, 4.0, 0.0), off(o, t, s(0.0)), at(o, 0.0, 0.0), at(o, 4.0, 4.0), off(o, s(4.0), u)];
    cycle(convex_hull::graham_scan(&v).ok(), square(o))
}
pub fn side_graham__pre<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    side(t) && side(u)
}
/// gift wrapping by index: points on the sides of a square are not corners of its hull
// @fixed
// @assume
pub fn side_wrap_ix__holds<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    let v = [off(o, s(0.0), u), at(o, 0.0, 4.0), at(o, 4.0, 0.0), off(o, t, s(0.0)), at(o, 0.0, 0.0), at(o, 4.0, 4.0), off(o, s(4.0), u)];
    cycle(pick(&v, convex_hull::indexed_gift_wrap(&v, &[0, 1, 2, 3, 4, 5, 6])), square(o))
}
pub fn side_wrap_ix__pre<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    side(t) && side(u)
}

/// Graham scan by index: points on the sides of a square are not corners of its hull
// @fixed
// @assume
pub fn side_graham_ix__holds<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    let v = [off(o, s(0.0), u), at(o, 0.0, 4.0), at(o, 4.0, 0.0), off(o, t, s(0.0)), at(o, 0.0, 0.0), at(o, 4.0, 4.0), off(o, s(4.0), u)];
    cycle(pick(&v, convex_hull::indexed_graham_scan(&v, &[0, 1, 2, 3, 4, 5, 6])), square(o))
}
pub fn side_graham_ix__pre<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    side(t) && side(u)
}
/// parallel: points on the sides of a square are not corners of its hull
// @fixed
// @assume
pub fn side_par__holds<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    let v = [off(o, s(0.0), u), at(o, 0.0, 4.0), at(o, 4.0, 0.0), off(o, t, s(0.0)), at(o, 0.0, 0.0), at(o, 4.0, 4.0), off(o, s(4.0), u)];
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[0, 1, 2, 3, 4, 5, 6], 2)), square(o))
}
pub fn side_par__pre<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    side(t) && side(u)
}
fn side<S: GenericScalar>(t: S) -> bool {
    t > S::ZERO && t < s::<S>(4.0) && far(t) && far(s::<S>(4.0) - t)
}

/// gift wrapping: a repeated corner and a closing point change nothing
// @fixed
// @assume
pub fn repeat_wrap__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let (a, b, c, p) = (at(o, 0.0, 0.0), at(o, 4.0, 0.0), at(o, 0.0, 4.0), off(o, x, y));
    cycle(convex_hull::gift_wrap(&[p, a, c, b, c, a, p]).ok(), four(a, b, c, p))
}
pub fn repeat_wrap__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear(x, y)
}

/// Graham scan: a repeated corner and a closing point change nothing
// @fixed
// @assume
pub fn repeat_graham__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let (a, b, c, p) = (at(o, 0.0, 0.0), at(o, 4.0, 0.0), at(o, 0.0, 4.0), off(o, x, y));
    cycle(convex_hull::graham_scan(&[p, a, c, b, c, a, p]).ok(), four(a, b, c, p))
}
pub fn repeat_graham__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear(x, y)
}

// nothing to do for at most two points; three are put in counter-clockwise order
fn few<T: GenericVector2>(v: &[T]) -> Option<Vec<T>> {
    let n = v.len();
    Some(if n == 0 {
        vec![]
    } else if n > 1 && v[0] == v[n - 1] {
        few_open(&v[1..])
    } else {
        few_open(v)
    })
}
fn few_open<T: GenericVector2>(v: &[T]) -> Vec<T> {
    if v.len() == 3 && !is_point_left(v[0], v[1], v[2]) {
        vec![v[0], v[2], v[1]]
    } else {
        v.to_vec()
    }
}

/// gift wrapping of at most three points only puts them in counter-clockwise order
// @fixed
// @sizes 0 2 3
pub fn few_wrap__got<T: GenericVector2>(v: &[T]) -> Option<Vec<T>> {
    convex_hull::gift_wrap(v).ok()
}
pub fn few_wrap__want<T: GenericVector2>(v: &[T]) -> Option<Vec<T>> {
    few(v)
}

/// Graham scan of at most three points only puts them in counter-clockwise order
// @fixed
// @sizes 0 2 3
pub fn few_graham__got<T: GenericVector2>(v: &[T]) -> Option<Vec<T>> {
    convex_hull::graham_scan(v).ok()
}
pub fn few_graham__want<T: GenericVector2>(v: &[T]) -> Option<Vec<T>> {
    few(v)
}

/// by index, a hull of two points or three not in line is closed, by all methods alike
// @fixed
pub fn few_ix__got<T: GenericVector2>(p: T, q: T, r: T) -> [Option<Vec<T>>; 6] {
    let v = [p, q, r];
    [
        pick(&v, convex_hull::indexed_gift_wrap(&v, &[0, 1, 2])),
        pick(&v, convex_hull::indexed_graham_scan(&v, &[0, 1, 2])),
        pick(&v, convex_hull::indexed_gift_wrap(&v, &[2, 0, 2])),
        pick(&v, convex_hull::indexed_graham_scan(&v, &[2, 0, 2])),
        pick(&v, convex_hull::indexed_gift_wrap(&v, &[1])),
        pick(&v, convex_hull::indexed_graham_scan(&v, &[])),
    ]
}
pub fn few_ix__pre<T: GenericVector2>(p: T, q: T, r: T) -> bool {
    point_orientation(p, q, r) != Orientation::Collinear
}
pub fn few_ix__want<T: GenericVector2>(p: T, q: T, r: T) -> [Option<Vec<T>>; 6] {
    let w = if is_point_left(p, q, r) { vec![p, q, r, p] } else { vec![p, r, q, p] };
    [Some(w.clone()), Some(w), Some(vec![r, p, r]), Some(vec![r, p, r]), Some(vec![q]), Some(vec![])]
}

/// the hull method of a line string is one of the hull functions
// @stop gift_wrap graham_scan
pub fn method__holds<T: GenericVector2>(ls: &Vec<T>) -> bool {
    let r = ls.convex_hull().ok();
    r == convex_hull::graham_scan(ls).ok() || r == convex_hull::gift_wrap(ls).ok()
}

/// parallel: the hull of a triangle and any fourth point
// @fixed
// @assume
pub fn four_par__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let (a, b, c, p) = (at(o, 0.0, 0.0), at(o, 4.0, 0.0), at(o, 0.0, 4.0), off(o, x, y));
    let v = [o, p, c, a, b];
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[2, 4, 1, 3], 2)), four(a, b, c, p))
}
pub fn four_par__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear(x, y)
}

/// gift wrapping by index: repeated corners change nothing
// @fixed
// @assume
pub fn repeat_wrap_ix__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let (a, b, c, p) = (at(o, 0.0, 0.0), at(o, 4.0, 0.0), at(o, 0.0, 4.0), off(o, x, y));
    let v = [a, b, c, p, a, c];
    cycle(pick(&v, convex_hull::indexed_gift_wrap(&v, &[0, 2, 1, 4, 5, 3, 0])), four(a, b, c, p))
}
pub fn repeat_wrap_ix__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear(x, y)
}

/// Graham scan by index: repeated corners change nothing
// @fixed
// @assume
pub fn repeat_graham_ix__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let (a, b, c, p) = (at(o, 0.0, 0.0), at(o, 4.0, 0.0), at(o, 0.0, 4.0), off(o, x, y));
    let v = [a, b, c, p, a, c];
    cycle(pick(&v, convex_hull::indexed_graham_scan(&v, &[0, 2, 1, 4, 5, 3, 0])), four(a, b, c, p))
}
pub fn repeat_graham_ix__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear(x, y)
}

// hull of a convex polygon (counter-clockwise) and one more point: corners between two sides the
// point lies outside of go, and the point takes their place
fn plus<T: GenericVector2>(w: &[T], p: T) -> Vec<T> {
    let n = w.len();
    let mut r = vec![];
    for i in 0..n {
        let before = is_point_left(w[i], w[(i + n - 1) % n], p);
        let after = is_point_left(w[(i + 1) % n], w[i], p);
        if !(before && after) {
            r.push(w[i]);
        }
        if after && !before {
            r.push(p);
        }
    }
    r
}
// not within rounding of a line through two corners of the square, nor of a corner
fn clear4<S: GenericScalar>(x: S, y: S) -> bool {
    let f = s::<S>(4.0);
    far(x) && far(y) && far(x - f) && far(y - f) && far(x - y) && far(x + y - f)
}

/// gift wrapping: the hull of a square and any fifth point
// @fixed
// @assume
pub fn five_wrap__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let v = [at(o, 0.0, 4.0), off(o, x, y), at(o, 4.0, 0.0), at(o, 0.0, 0.0), at(o, 4.0, 4.0)];
    cycle(convex_hull::gift_wrap(&v).ok(), plus(&square(o), off(o, x, y)))
}
pub fn five_wrap__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear4(x, y)
}

/// Graham scan: the hull of a square and any fifth point
// @fixed
// @assume
pub fn five_graham__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let v = [at(o, 0.0, 4.0), off(o, x, y), at(o, 4.0, 0.0), at(o, 0.0, 0.0), at(o, 4.0, 4.0)];
    cycle(convex_hull::graham_scan(&v).ok(), plus(&square(o), off(o, x, y)))
}
pub fn five_graham__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear4(x, y)
}

/// parallel, in chunks of two: the hull of a square and any fifth point
// @fixed
// @assume
pub fn five_par__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let v = [at(o, 0.0, 4.0), off(o, x, y), at(o, 4.0, 0.0), at(o, 0.0, 0.0), at(o, 4.0, 4.0)];
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[4, 1, 0, 2, 3], 2)), plus(&square(o), off(o, x, y)))
}
pub fn five_par__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear4(x, y)
}

/// parallel, in chunks of four: the hull of a square and any fifth point
// @fixed
// @assume
pub fn five_par4__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let v = [at(o, 0.0, 4.0), off(o, x, y), at(o, 4.0, 0.0), at(o, 0.0, 0.0), at(o, 4.0, 4.0)];
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[2, 0, 1, 4, 3], 4)), plus(&square(o), off(o, x, y)))
}
pub fn five_par4__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear4(x, y)
}

/// parallel: a repeated corner in another chunk and a closing index change nothing
// @fixed
// @assume
pub fn repeat_par__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let (a, b, c, p) = (at(o, 0.0, 0.0), at(o, 4.0, 0.0), at(o, 0.0, 4.0), off(o, x, y));
    let v = [a, b, c, p, a, c];
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[1, 0, 4, 2, 3, 5, 1], 2)), four(a, b, c, p))
}
pub fn repeat_par__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear(x, y)
}

/// parallel: the method form returns the points of the hull by index
// @stop convex_hull::convex_hull_par
pub fn method_par__got<T: GenericVector2>(ls: &Vec<T>, n: usize) -> Option<Vec<T>> {
    ls.convex_hull_par(n).ok()
}
pub fn method_par__want<T: GenericVector2>(ls: &Vec<T>, n: usize) -> Option<Vec<T>> {
    let ix: Vec<usize> = (0..ls.len()).collect();
    convex_hull::convex_hull_par(ls, &ix, n).ok().map(|r| r.iter().map(|i| ls[*i]).collect())
}
pub fn method_par__pre<T: GenericVector2>(ls: &Vec<T>, n: usize) -> bool {
    n > 1
}

/// Graham scan without angles: a point inside a square is not on its hull
// @fixed
// @assume
pub fn inside_old__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let v = [at(o, 0.0, 4.0), off(o, x, y), at(o, 4.0, 0.0), at(o, 0.0, 0.0), at(o, 4.0, 4.0)];
    cycle(convex_hull::graham_scan_wo_atan2(&v).ok(), square(o))
}
pub fn inside_old__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    inside(x, y)
}

/// Graham scan without angles: the hull of a triangle and any fourth point
// @fixed
// @assume
pub fn four_old__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let (a, b, c, p) = (at(o, 0.0, 0.0), at(o, 4.0, 0.0), at(o, 0.0, 4.0), off(o, x, y));
    cycle(convex_hull::graham_scan_wo_atan2(&[a, c, p, b]).ok(), four(a, b, c, p))
}
pub fn four_old__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear(x, y)
}

/// Graham scan without angles: points inside a side are not on the hull
// @fixed
// @assume
pub fn side_old__holds<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    let v = [off(o, s(0.0), u), at(o, 0.0, 4.0), at(o, 4.0, 0.0), off(o, t, s(0.0)), at(o, 0.0, 0.0), at(o, 4.0, 4.0), off(o, s(4.0), u)];
    cycle(convex_hull::graham_scan_wo_atan2(&v).ok(), square(o))
}
pub fn side_old__pre<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    side(t) && side(u)
}

/// Graham scan without angles: a repeated corner and a closing point change nothing
// @fixed
// @assume
pub fn repeat_old__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let (a, b, c, p) = (at(o, 0.0, 0.0), at(o, 4.0, 0.0), at(o, 0.0, 4.0), off(o, x, y));
    cycle(convex_hull::graham_scan_wo_atan2(&[p, a, c, b, c, a, p]).ok(), four(a, b, c, p))
}
pub fn repeat_old__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear(x, y)
}

/// Graham scan without angles of at most three points only puts them in counter-clockwise order
// @fixed
// @sizes 0 2 3
pub fn few_old__got<T: GenericVector2>(v: &[T]) -> Option<Vec<T>> {
    convex_hull::graham_scan_wo_atan2(v).ok()
}
pub fn few_old__want<T: GenericVector2>(v: &[T]) -> Option<Vec<T>> {
    few(v)
}

// a square with the middle of every side, and the middle of every half of the lowest side
fn middles<T: GenericVector2>(o: T) -> Vec<T> {
    vec![
        at(o, 0.0, 0.0), at(o, 4.0, 0.0), at(o, 4.0, 4.0), at(o, 0.0, 4.0), at(o, 2.0, 0.0), at(o, 4.0, 2.0), at(o, 2.0, 4.0), at(o, 0.0, 2.0),
        at(o, 1.0, 0.0), at(o, 3.0, 0.0),
    ]
}

/// parallel, in chunks of 2: a square anywhere with points in the middle of its sides, order 1
// @fixed
// @assume
pub fn middle_par1__holds<T: GenericVector2>(o: T) -> bool {
    let v = middles(o);
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[4, 8, 0, 1, 9, 5, 2, 6, 3, 7], 2)), square(o))
}

/// parallel, in chunks of 3: a square anywhere with points in the middle of its sides, order 2
// @fixed
// @assume
pub fn middle_par2__holds<T: GenericVector2>(o: T) -> bool {
    let v = middles(o);
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[7, 3, 6, 2, 5, 1, 9, 8, 4, 0], 3)), square(o))
}

/// parallel, in chunks of 5: a square anywhere with points in the middle of its sides, order 3
// @fixed
// @assume
pub fn middle_par3__holds<T: GenericVector2>(o: T) -> bool {
    let v = middles(o);
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[0, 4, 1, 5, 2, 6, 3, 7, 8, 9], 5)), square(o))
}

/// parallel, in chunks of 4: a square anywhere with points in the middle of its sides, order 4
// @fixed
// @assume
pub fn middle_par4__holds<T: GenericVector2>(o: T) -> bool {
    let v = middles(o);
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[1, 3, 4, 6, 0, 2, 5, 7, 8, 9], 4)), square(o))
}

/// parallel, in chunks of 4: a square anywhere with points in the middle of its sides, order 5
// @fixed
// @assume
pub fn middle_par5__holds<T: GenericVector2>(o: T) -> bool {
    let v = middles(o);
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[0, 1, 2, 3, 4, 5, 6, 7], 4)), square(o))
}

/// parallel, in chunks of 4: a square anywhere with points in the middle of its sides, order 6
// @fixed
// @assume
pub fn middle_par6__holds<T: GenericVector2>(o: T) -> bool {
    let v = middles(o);
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[4, 5, 6, 7, 0, 1, 2, 3], 4)), square(o))
}

// points in a line, in chunks of three
/// parallel: a chunk of three points in a line gives only its ends
// @fixed
// @assume
pub fn line_par__holds<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    let v = [off(o, s(4.0), u), at(o, 4.0, 0.0), at(o, 4.0, 4.0), at(o, 0.0, 0.0), off(o, t, s(4.0)), at(o, 0.0, 4.0)];
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[0, 1, 2, 3, 4, 5], 3)), square(o))
}
pub fn line_par__pre<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    side(t) && side(u)
}

/// parallel, the chunks split in halves: points on the sides of a square are not corners of its hull
// @fixed
// @assume
// @split
pub fn side_par_split__holds<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    let v = [off(o, s(0.0), u), at(o, 0.0, 4.0), at(o, 4.0, 0.0), off(o, t, s(0.0)), at(o, 0.0, 0.0), at(o, 4.0, 4.0), off(o, s(4.0), u)];
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[0, 1, 2, 3, 4, 5, 6], 2)), square(o))
}
pub fn side_par_split__pre<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    side(t) && side(u)
}

/// parallel, the chunks split in halves: the hull of a triangle and any fourth point
// @fixed
// @assume
// @split
pub fn four_par_split__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let (a, b, c, p) = (at(o, 0.0, 0.0), at(o, 4.0, 0.0), at(o, 0.0, 4.0), off(o, x, y));
    let v = [o, p, c, a, b];
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[2, 4, 1, 3], 2)), four(a, b, c, p))
}
pub fn four_par_split__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear(x, y)
}

/// parallel, the chunks split in halves, in chunks of two: the hull of a square and any fifth point
// @fixed
// @assume
// @split
pub fn five_par_split__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let v = [at(o, 0.0, 4.0), off(o, x, y), at(o, 4.0, 0.0), at(o, 0.0, 0.0), at(o, 4.0, 4.0)];
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[4, 1, 0, 2, 3], 2)), plus(&square(o), off(o, x, y)))
}
pub fn five_par_split__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear4(x, y)
}

/// parallel, the chunks split in halves, in chunks of four: the hull of a square and any fifth point
// @fixed
// @assume
// @split
pub fn five_par4_split__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let v = [at(o, 0.0, 4.0), off(o, x, y), at(o, 4.0, 0.0), at(o, 0.0, 0.0), at(o, 4.0, 4.0)];
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[2, 0, 1, 4, 3], 4)), plus(&square(o), off(o, x, y)))
}
pub fn five_par4_split__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear4(x, y)
}

/// parallel, the chunks split in halves: a repeated corner in another chunk and a closing index change nothing
// @fixed
// @assume
// @split
pub fn repeat_par_split__holds<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    let (a, b, c, p) = (at(o, 0.0, 0.0), at(o, 4.0, 0.0), at(o, 0.0, 4.0), off(o, x, y));
    let v = [a, b, c, p, a, c];
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[1, 0, 4, 2, 3, 5, 1], 2)), four(a, b, c, p))
}
pub fn repeat_par_split__pre<T: GenericVector2>(o: T, x: T::Scalar, y: T::Scalar) -> bool {
    clear(x, y)
}

/// parallel, the chunks split in halves, in chunks of 2: a square anywhere with points in the middle of its sides, order 1
// @fixed
// @assume
// @split
pub fn middle_par1_split__holds<T: GenericVector2>(o: T) -> bool {
    let v = middles(o);
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[4, 8, 0, 1, 9, 5, 2, 6, 3, 7], 2)), square(o))
}

/// parallel, the chunks split in halves, in chunks of 3: a square anywhere with points in the middle of its sides, order 2
// @fixed
// @assume
// @split
pub fn middle_par2_split__holds<T: GenericVector2>(o: T) -> bool {
    let v = middles(o);
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[7, 3, 6, 2, 5, 1, 9, 8, 4, 0], 3)), square(o))
}

/// parallel, the chunks split in halves, in chunks of 5: a square anywhere with points in the middle of its sides, order 3
// @fixed
// @assume
// @split
pub fn middle_par3_split__holds<T: GenericVector2>(o: T) -> bool {
    let v = middles(o);
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[0, 4, 1, 5, 2, 6, 3, 7, 8, 9], 5)), square(o))
}

/// parallel, the chunks split in halves, in chunks of 4: a square anywhere with points in the middle of its sides, order 4
// @fixed
// @assume
// @split
pub fn middle_par4_split__holds<T: GenericVector2>(o: T) -> bool {
    let v = middles(o);
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[1, 3, 4, 6, 0, 2, 5, 7, 8, 9], 4)), square(o))
}

/// parallel, the chunks split in halves, in chunks of 4: a square anywhere with points in the middle of its sides, order 5
// @fixed
// @assume
// @split
pub fn middle_par5_split__holds<T: GenericVector2>(o: T) -> bool {
    let v = middles(o);
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[0, 1, 2, 3, 4, 5, 6, 7], 4)), square(o))
}

/// parallel, the chunks split in halves, in chunks of 4: a square anywhere with points in the middle of its sides, order 6
// @fixed
// @assume
// @split
pub fn middle_par6_split__holds<T: GenericVector2>(o: T) -> bool {
    let v = middles(o);
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[4, 5, 6, 7, 0, 1, 2, 3], 4)), square(o))
}

/// parallel, the chunks split in halves: a chunk of three points in a line gives only its ends
// @fixed
// @assume
// @split
pub fn line_par_split__holds<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    let v = [off(o, s(4.0), u), at(o, 4.0, 0.0), at(o, 4.0, 4.0), at(o, 0.0, 0.0), off(o, t, s(4.0)), at(o, 0.0, 4.0)];
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[0, 1, 2, 3, 4, 5], 3)), square(o))
}
pub fn line_par_split__pre<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    side(t) && side(u)
}

/// parallel: a chunk of three points in a line gives only its ends, the middle one second
// @fixed
// @assume
pub fn line_par2__holds<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    let v = [at(o, 4.0, 0.0), off(o, s(4.0), u), at(o, 4.0, 4.0), at(o, 0.0, 0.0), off(o, t, s(4.0)), at(o, 0.0, 4.0)];
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[0, 1, 2, 3, 4, 5], 3)), square(o))
}
pub fn line_par2__pre<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    side(t) && side(u)
}

/// parallel: a chunk of three points in a line gives only its ends, the middle one second, the other way round
// @fixed
// @assume
pub fn line_par3__holds<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    let v = [at(o, 4.0, 4.0), off(o, s(4.0), u), at(o, 4.0, 0.0), at(o, 0.0, 0.0), off(o, t, s(4.0)), at(o, 0.0, 4.0)];
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[0, 1, 2, 3, 4, 5], 3)), square(o))
}
pub fn line_par3__pre<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    side(t) && side(u)
}

/// parallel: a chunk of three points in a line gives only its ends, the middle one last
// @fixed
// @assume
pub fn line_par4__holds<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    let v = [at(o, 4.0, 4.0), at(o, 4.0, 0.0), off(o, s(4.0), u), at(o, 0.0, 0.0), off(o, t, s(4.0)), at(o, 0.0, 4.0)];
    cycle(pick(&v, convex_hull::convex_hull_par(&v, &[0, 1, 2, 3, 4, 5], 3)), square(o))
}
pub fn line_par4__pre<T: GenericVector2>(o: T, t: T::Scalar, u: T::Scalar) -> bool {
    side(t) && side(u)
}
