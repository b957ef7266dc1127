use crate::*;
use linestring::linestring_2d::LineString2;
use linestring::linestring_3d::LineString3;

/// (4 times the squared area) of the triangle of three points
fn area2<T: GenericVector2>(p: T, q: T, r: T) -> T::Scalar {
    let a = (q.x() - p.x()) * (r.y() - p.y()) - (q.y() - p.y()) * (r.x() - p.x());
    a * a
}
/// the line string without its `n` inner points of smallest area, one after the other, and whether
/// each of them was the only smallest one
fn without_smallest<T: Copy, S: PartialOrd + Copy, F: Fn(T, T, T) -> S>(ls: &Vec<T>, n: usize, area: F) -> (Vec<T>, bool) {
    let mut v = ls.clone();
    let mut sure = true;
    let mut k = 0;
    while k < n {
        let mut at = 1;
        let mut best = area(v[0], v[1], v[2]);
        let mut i = 2;
        while i + 1 < v.len() {
            let a = area(v[i - 1], v[i], v[i + 1]);
            if a < best {
                best = a;
                at = i;
            }
            i += 1;
        }
        i = 1;
        while i + 1 < v.len() {
            sure = sure && (i == at || best < area(v[i - 1], v[i], v[i + 1]));
            i += 1;
        }
        v.remove(at);
        k += 1;
    }
    (v, sure)
}

/// a 2D line string of at most two points is returned as it is
// @fixed
// @sizes 0 1 2
pub fn short2__got<T: GenericVector2>(ls: &Vec<T>, n: usize) -> Vec<T> {
    ls.simplify_vw(n)
}
pub fn short2__want<T: GenericVector2>(ls: &Vec<T>, n: usize) -> Vec<T> {
    ls.clone()
}

/// deleting no point returns the 2D line string as it is
// @fixed
// @sizes 3 4 5 6
pub fn zero2__got<T: GenericVector2>(ls: &Vec<T>) -> Vec<T> {
    ls.simplify_vw(0)
}
pub fn zero2__want<T: GenericVector2>(ls: &Vec<T>) -> Vec<T> {
    ls.clone()
}

/// the first and the last point of an open 2D line string are kept
// @fixed
// @sizes 3 4 5
// @assume
pub fn ends2__got<T: GenericVector2>(ls: &Vec<T>) -> (Option<T>, Option<T>) {
    let r = ls.simplify_vw(1);
    (r.first().copied(), r.last().copied())
}
pub fn ends2__want<T: GenericVector2>(ls: &Vec<T>) -> (Option<T>, Option<T>) {
    (ls.first().copied(), ls.last().copied())
}
pub fn ends2__pre<T: GenericVector2>(ls: &Vec<T>) -> bool {
    !ls.is_connected()
}

/// the inner point with the smallest triangle is the first to go
// @fixed
// @sizes 5 6
// @assume
pub fn smallest2__holds<T: GenericVector2>(ls: &Vec<T>) -> bool {
    let (w, sure) = without_smallest(ls, 1, area2);
    let r = ls.simplify_vw(1);
    !sure || r == w
}
pub fn smallest2__pre<T: GenericVector2>(ls: &Vec<T>) -> bool {
    !ls.is_connected()
}

/// only inner point `k` has the smallest triangle of an open line string
fn smallest_is<T: GenericVector2>(ls: &Vec<T>, k: usize) -> bool {
    let best = area2(ls[k - 1], ls[k], ls[k + 1]);
    let mut ok = !ls.is_connected();
    let mut i = 1;
    while i + 1 < ls.len() {
        ok = ok && (i == k || best < area2(ls[i - 1], ls[i], ls[i + 1]));
        i += 1;
    }
    ok
}

/// after the first inner point the one with the smallest triangle among those left goes
// @fixed
// @sizes 6
// @assume
// @limit 200
// @alias triangle_area_squared_times_4 area2
pub fn renewed2_first__holds<T: GenericVector2>(ls: &Vec<T>) -> bool {
    let (w, sure) = without_smallest(ls, 2, area2);
    let r = ls.simplify_vw(2);
    !sure || r == w
}
pub fn renewed2_first__pre<T: GenericVector2>(ls: &Vec<T>) -> bool {
    smallest_is(ls, 1)
}

/// after the second inner point the one with the smallest triangle among those left goes
// @fixed
// @sizes 6
// @assume
// @limit 200
// @alias triangle_area_squared_times_4 area2
pub fn renewed2_second__holds<T: GenericVector2>(ls: &Vec<T>) -> bool {
    let (w, sure) = without_smallest(ls, 2, area2);
    let r = ls.simplify_vw(2);
    !sure || r == w
}
pub fn renewed2_second__pre<T: GenericVector2>(ls: &Vec<T>) -> bool {
    smallest_is(ls, 2)
}

/// after the third inner point the one with the smallest triangle among those left goes
// @fixed
// @sizes 6
// @assume
// @limit 200
// @alias triangle_area_squared_times_4 area2
pub fn renewed2_third__holds<T: GenericVector2>(ls: &Vec<T>) -> bool {
    let (w, sure) = without_smallest(ls, 2, area2);
    let r = ls.simplify_vw(2);
    !sure || r == w
}
pub fn renewed2_third__pre<T: GenericVector2>(ls: &Vec<T>) -> bool {
    smallest_is(ls, 3)
}

/// after the fourth inner point the one with the smallest triangle among those left goes
// @fixed
// @sizes 6
// @assume
// @limit 200
// @alias triangle_area_squared_times_4 area2
pub fn renewed2_fourth__holds<T: GenericVector2>(ls: &Vec<T>) -> bool {
    let (w, sure) = without_smallest(ls, 2, area2);
    let r = ls.simplify_vw(2);
    !sure || r == w
}
pub fn renewed2_fourth__pre<T: GenericVector2>(ls: &Vec<T>) -> bool {
    smallest_is(ls, 4)
}

/// a closed 2D line string stays closed
// @fixed
// @sizes 5 6
// @assume
pub fn closed2__holds<T: GenericVector2>(ls: &Vec<T>) -> bool {
    let r = ls.simplify_vw(1);
    r.first() == r.last()
}
pub fn closed2__pre<T: GenericVector2>(ls: &Vec<T>) -> bool {
    ls.is_connected()
}

/// deleting one point of an open line string of five or more leaves one point fewer
// @fixed
// @sizes 5 6
// @assume
pub fn count2__holds<T: GenericVector2>(ls: &Vec<T>) -> bool {
    ls.simplify_vw(1).len() + 1 == ls.len()
}
pub fn count2__pre<T: GenericVector2>(ls: &Vec<T>) -> bool {
    !ls.is_connected()
}

fn area3<T: GenericVector3>(p: T, q: T, r: T) -> T::Scalar {
    (q - p).cross(r - p).magnitude_sq()
}

/// a 3D line string of at most two points is returned as it is
// @fixed
// @sizes 0 1 2
pub fn short3__got<T: GenericVector3>(ls: &Vec<T>, n: usize) -> Vec<T> {
    ls.simplify_vw(n)
}
pub fn short3__want<T: GenericVector3>(ls: &Vec<T>, n: usize) -> Vec<T> {
    ls.clone()
}

/// deleting no point returns the 3D line string as it is
// @fixed
// @sizes 3 4 5 6
pub fn zero3__got<T: GenericVector3>(ls: &Vec<T>) -> Vec<T> {
    ls.simplify_vw(0)
}
pub fn zero3__want<T: GenericVector3>(ls: &Vec<T>) -> Vec<T> {
    ls.clone()
}

/// the result starts with the points of `w` but its last one
fn all_but_last<T: Copy + PartialEq>(r: &Vec<T>, w: &Vec<T>) -> bool {
    let mut ok = r.len() + 1 >= w.len() && r.len() <= w.len();
    let mut i = 0;
    while i + 1 < w.len() {
        ok = ok && i < r.len() && r[i] == w[i];
        i += 1;
    }
    ok
}

/// in 3D deleting no point keeps every point before the last one
// @fixed
// @sizes 3 4 5 6
pub fn kept3__holds<T: GenericVector3>(ls: &Vec<T>) -> bool {
    all_but_last(&ls.simplify_vw(0), ls)
}

/// in 3D the inner point with the smallest triangle is the first to go
// @fixed
// @sizes 4 5
pub fn smallest3__holds<T: GenericVector3>(ls: &Vec<T>) -> bool {
    let (w, sure) = without_smallest(ls, 1, area3);
    !sure || all_but_last(&ls.simplify_vw(1), &w)
}

/// only inner point `k` has the smallest triangle
fn smallest3_is<T: GenericVector3>(ls: &Vec<T>, k: usize) -> bool {
    let best = area3(ls[k - 1], ls[k], ls[k + 1]);
    let mut ok = true;
    let mut i = 1;
    while i + 1 < ls.len() {
        ok = ok && (i == k || best < area3(ls[i - 1], ls[i], ls[i + 1]));
        i += 1;
    }
    ok
}

/// in 3D, after the first inner point the one with the smallest triangle among those left goes
// @fixed
// @sizes 5
// @assume
// @limit 200
// @alias triangle_area_squared_times_4 area3
pub fn renewed3_first__holds<T: GenericVector3>(ls: &Vec<T>) -> bool {
    let (w, sure) = without_smallest(ls, 2, area3);
    !sure || all_but_last(&ls.simplify_vw(2), &w)
}
pub fn renewed3_first__pre<T: GenericVector3>(ls: &Vec<T>) -> bool {
    smallest3_is(ls, 1)
}

/// in 3D, after the second inner point the one with the smallest triangle among those left goes
// @fixed
// @sizes 5
// @assume
// @limit 200
// @alias triangle_area_squared_times_4 area3
pub fn renewed3_second__holds<T: GenericVector3>(ls: &Vec<T>) -> bool {
    let (w, sure) = without_smallest(ls, 2, area3);
    !sure || all_but_last(&ls.simplify_vw(2), &w)
}
pub fn renewed3_second__pre<T: GenericVector3>(ls: &Vec<T>) -> bool {
    smallest3_is(ls, 2)
}

/// in 3D, after the third inner point the one with the smallest triangle among those left goes
// @fixed
// @sizes 5
// @assume
// @limit 200
// @alias triangle_area_squared_times_4 area3
pub fn renewed3_third__holds<T: GenericVector3>(ls: &Vec<T>) -> bool {
    let (w, sure) = without_smallest(ls, 2, area3);
    !sure || all_but_last(&ls.simplify_vw(2), &w)
}
pub fn renewed3_third__pre<T: GenericVector3>(ls: &Vec<T>) -> bool {
    smallest3_is(ls, 3)
}

/// the inner points of smallest area go in the order `gone`, each the only smallest when it goes
fn goes2<T: GenericVector2>(ls: &Vec<T>, gone: &[usize]) -> bool {
    let mut left: Vec<usize> = (0..ls.len()).collect();
    let mut ok = !ls.is_connected();
    for g in gone {
        let mut at = 0;
        for i in 1..left.len() - 1 {
            if left[i] == *g {
                at = i;
            }
        }
        let best = area2(ls[left[at - 1]], ls[*g], ls[left[at + 1]]);
        for i in 1..left.len() - 1 {
            ok = ok && (i == at || best < area2(ls[left[i - 1]], ls[left[i]], ls[left[i + 1]]));
        }
        left.remove(at);
    }
    ok
}
fn without2<T: GenericVector2>(ls: &Vec<T>, gone: &[usize]) -> Vec<T> {
    let mut r = vec![];
    for i in 0..ls.len() {
        if !gone.contains(&i) {
            r.push(ls[i]);
        }
    }
    r
}

/// inner points 5, 4 and 3 go when each in turn has the smallest triangle among those left
// @fixed
// @sizes 7
// @assume
// @limit 200
// @alias triangle_area_squared_times_4 area2
pub fn chain2_543__holds<T: GenericVector2>(ls: &Vec<T>) -> bool {
    ls.simplify_vw(3) == without2(ls, &[5, 4, 3])
}
pub fn chain2_543__pre<T: GenericVector2>(ls: &Vec<T>) -> bool {
    goes2(ls, &[5, 4, 3])
}

/// inner points 5, 4 and 1 go when each in turn has the smallest triangle among those left
// @fixed
// @sizes 7
// @assume
// @limit 200
// @alias triangle_area_squared_times_4 area2
pub fn chain2_541__holds<T: GenericVector2>(ls: &Vec<T>) -> bool {
    ls.simplify_vw(3) == without2(ls, &[5, 4, 1])
}
pub fn chain2_541__pre<T: GenericVector2>(ls: &Vec<T>) -> bool {
    goes2(ls, &[5, 4, 1])
}

/// inner points 1, 2 and 3 go when each in turn has the smallest triangle among those left
// @fixed
// @sizes 7
// @assume
// @limit 200
// @alias triangle_area_squared_times_4 area2
pub fn chain2_123__holds<T: GenericVector2>(ls: &Vec<T>) -> bool {
    ls.simplify_vw(3) == without2(ls, &[1, 2, 3])
}
pub fn chain2_123__pre<T: GenericVector2>(ls: &Vec<T>) -> bool {
    goes2(ls, &[1, 2, 3])
}

/// inner points 1, 2 and 5 go when each in turn has the smallest triangle among those left
// @fixed
// @sizes 7
// @assume
// @limit 200
// @alias triangle_area_squared_times_4 area2
pub fn chain2_125__holds<T: GenericVector2>(ls: &Vec<T>) -> bool {
    ls.simplify_vw(3) == without2(ls, &[1, 2, 5])
}
pub fn chain2_125__pre<T: GenericVector2>(ls: &Vec<T>) -> bool {
    goes2(ls, &[1, 2, 5])
}

/// the inner points of smallest area go in the order `gone`, each the only smallest when it goes
fn goes3<T: GenericVector3>(ls: &Vec<T>, gone: &[usize]) -> bool {
    let mut left: Vec<usize> = (0..ls.len()).collect();
    let mut ok = true;
    for g in gone {
        let mut at = 0;
        for i in 1..left.len() - 1 {
            if left[i] == *g {
                at = i;
            }
        }
        let best = area3(ls[left[at - 1]], ls[*g], ls[left[at + 1]]);
        for i in 1..left.len() - 1 {
            ok = ok && (i == at || best < area3(ls[left[i - 1]], ls[left[i]], ls[left[i + 1]]));
        }
        left.remove(at);
    }
    ok
}
fn without3<T: GenericVector3>(ls: &Vec<T>, gone: &[usize]) -> Vec<T> {
    let mut r = vec![];
    for i in 0..ls.len() {
        if !gone.contains(&i) {
            r.push(ls[i]);
        }
    }
    r
}

/// in 3D, inner points 4, 3 and 2 go when each in turn has the smallest triangle among those left
// @fixed
// @sizes 6
// @assume
// @limit 200
// @alias triangle_area_squared_times_4 area3
pub fn chain3_432__holds<T: GenericVector3>(ls: &Vec<T>) -> bool {
    all_but_last(&ls.simplify_vw(3), &without3(ls, &[4, 3, 2]))
}
pub fn chain3_432__pre<T: GenericVector3>(ls: &Vec<T>) -> bool {
    goes3(ls, &[4, 3, 2])
}

/// in 3D, inner points 4, 3 and 1 go when each in turn has the smallest triangle among those left
// @fixed
// @sizes 6
// @assume
// @limit 200
// @alias triangle_area_squared_times_4 area3
pub fn chain3_431__holds<T: GenericVector3>(ls: &Vec<T>) -> bool {
    all_but_last(&ls.simplify_vw(3), &without3(ls, &[4, 3, 1]))
}
pub fn chain3_431__pre<T: GenericVector3>(ls: &Vec<T>) -> bool {
    goes3(ls, &[4, 3, 1])
}

/// in 3D, inner points 1, 2 and 3 go when each in turn has the smallest triangle among those left
// @fixed
// @sizes 6
// @assume
// @limit 200
// @alias triangle_area_squared_times_4 area3
pub fn chain3_123__holds<T: GenericVector3>(ls: &Vec<T>) -> bool {
    all_but_last(&ls.simplify_vw(3), &without3(ls, &[1, 2, 3]))
}
pub fn chain3_123__pre<T: GenericVector3>(ls: &Vec<T>) -> bool {
    goes3(ls, &[1, 2, 3])
}

/// in 3D, inner points 1, 2 and 4 go when each in turn has the smallest triangle among those left
// @fixed
// @sizes 6
// @assume
// @limit 200
// @alias triangle_area_squared_times_4 area3
pub fn chain3_124__holds<T: GenericVector3>(ls: &Vec<T>) -> bool {
    all_but_last(&ls.simplify_vw(3), &without3(ls, &[1, 2, 4]))
}
pub fn chain3_124__pre<T: GenericVector3>(ls: &Vec<T>) -> bool {
    goes3(ls, &[1, 2, 4])
}

