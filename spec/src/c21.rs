use crate::*;
use linestring::linestring_3d::{save_to_obj_file, Line3};

// what is in the file afterwards (lib/text.py: comments, blanks and number formats do not matter)
fn saved<T: GenericVector3>(lines: &[Vec<Line3<T>>]) -> Option<String> {
    save_to_obj_file("file.obj", "name", lines).ok()?;
    std::fs::read_to_string("file.obj").ok()
}
fn wanted<T: GenericVector3>(points: &[T], ends: &[(usize, usize)]) -> Option<String> {
    let mut f = std::fs::File::create("file.obj").ok()?;
    let mut s = String::new();
    s += "o name\n";
    for p in points.iter() {
        s += &format!("v {} {} {}\n", p.x(), p.y(), p.z());
    }
    for e in ends.iter() {
        s += &format!("l {} {}\n", e.0, e.1);
    }
    std::fs::write("file.obj", s).ok()?;
    std::fs::read_to_string("file.obj").ok()
}
fn same<T: GenericVector3>(p: T, q: T) -> bool {
    p.x() == q.x() && p.y() == q.y() && p.z() == q.z()
}

/// without lines only the object is named
// @fixed
pub fn none__got<T: GenericVector3>(a: T) -> Option<String> {
    saved::<T>(&[])
}
pub fn none__want<T: GenericVector3>(a: T) -> Option<String> {
    wanted::<T>(&[], &[])
}

/// groups without lines add nothing
// @fixed
pub fn hollow__got<T: GenericVector3>(a: T) -> Option<String> {
    saved::<T>(&[vec![], vec![]])
}
pub fn hollow__want<T: GenericVector3>(a: T) -> Option<String> {
    wanted::<T>(&[], &[])
}

/// one line: its two end points, or the one point it consists of
// @fixed
pub fn one__got<T: GenericVector3>(a: T, b: T) -> Option<String> {
    saved(&[vec![Line3::new(a, b)]])
}
pub fn one__want<T: GenericVector3>(a: T, b: T) -> Option<String> {
    if same(a, b) {
        wanted(&[a], &[(1, 1)])
    } else {
        wanted(&[a, b], &[(1, 2)])
    }
}

// the distinct end points in order of first appearance, and where each end is among them
fn numbered<T: GenericVector3>(ends: &[T]) -> (Vec<T>, Vec<usize>) {
    let mut points: Vec<T> = Vec::new();
    let mut index = Vec::new();
    let mut n = 0;
    for i in 0..ends.len() {
        let mut k = n + 1;
        for j in 0..i {
            if same(ends[i], ends[j]) {
                k = index[j];
                break;
            }
        }
        if k == n + 1 {
            points.push(ends[i]);
            n += 1;
        }
        index.push(k);
    }
    (points, index)
}
fn two<T: GenericVector3>(a: T, b: T, c: T, d: T) -> Option<String> {
    let (points, i) = numbered(&[a, b, c, d]);
    wanted(&points, &[(i[0], i[1]), (i[2], i[3])])
}

/// two lines of one group, with any of their end points in common
// @fixed
pub fn two__got<T: GenericVector3>(a: T, b: T, c: T, d: T) -> Option<String> {
    saved(&[vec![Line3::new(a, b), Line3::new(c, d)]])
}
pub fn two__want<T: GenericVector3>(a: T, b: T, c: T, d: T) -> Option<String> {
    two(a, b, c, d)
}

/// two lines of different groups
// @fixed
pub fn groups__got<T: GenericVector3>(a: T, b: T, c: T, d: T) -> Option<String> {
    saved(&[vec![Line3::new(a, b)], vec![], vec![Line3::new(c, d)]])
}
pub fn groups__want<T: GenericVector3>(a: T, b: T, c: T, d: T) -> Option<String> {
    two(a, b, c, d)
}

/// a closed chain of three lines refers to its first point again
// @fixed
pub fn ring__got<T: GenericVector3>(a: T, b: T, c: T) -> Option<String> {
    saved(&[vec![Line3::new(a, b), Line3::new(b, c), Line3::new(c, a)]])
}
pub fn ring__pre<T: GenericVector3>(a: T, b: T, c: T) -> bool {
    !same(a, b) && !same(b, c) && !same(c, a)
}
pub fn ring__want<T: GenericVector3>(a: T, b: T, c: T) -> Option<String> {
    wanted(&[a, b, c], &[(1, 2), (2, 3), (3, 1)])
}

/// three lines in two groups, the last going back to the first point
// @fixed
pub fn three__got<T: GenericVector3>(a: T, b: T, c: T, d: T) -> Option<String> {
    saved(&[vec![Line3::new(a, b), Line3::new(c, d)], vec![Line3::new(d, a)]])
}
pub fn three__want<T: GenericVector3>(a: T, b: T, c: T, d: T) -> Option<String> {
    let (points, i) = numbered(&[a, b, c, d, d, a]);
    wanted(&points, &[(i[0], i[1]), (i[2], i[3]), (i[4], i[5])])
}

/// six lines without common points: the numbers go on beyond ten
// @fixed
pub fn many__got<T: GenericVector3>(a: T) -> Option<String> {
    let p: Vec<T> = along(a);
    saved(&[
        vec![Line3::new(p[0], p[1]), Line3::new(p[2], p[3]), Line3::new(p[4], p[5])],
        vec![Line3::new(p[6], p[7]), Line3::new(p[8], p[9]), Line3::new(p[10], p[11])],
    ])
}
pub fn many__want<T: GenericVector3>(a: T) -> Option<String> {
    wanted(&along(a), &[(1, 2), (3, 4), (5, 6), (7, 8), (9, 10), (11, 12)])
}
fn along<T: GenericVector3>(a: T) -> Vec<T> {
    let mut p = vec![a];
    for i in 0..11 {
        let q = p[i];
        p.push(T::new_3d(q.x() + T::Scalar::ONE, q.y(), q.z()));
    }
    p
}
