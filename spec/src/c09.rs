use crate::*;
use linestring::linestring_2d::{self, Intersection, Line2, LineString2};

fn eq<T: GenericVector2>(a: T, b: T) -> bool {
    near(a.x(), b.x()) && near(a.y(), b.y())
}

/// the first intersection of a line string with a segment is the intersection with its first edge that has one
// @stop intersection_point
pub fn first__got<T: GenericVector2>(ls: &Vec<T>, m: Line2<T>) -> Option<Intersection<T>> {
    ls.intersection(&m)
}
pub fn first__want<T: GenericVector2>(ls: &Vec<T>, m: Line2<T>) -> Option<Intersection<T>> {
    for w in ls.windows(2) {
        if let Some(p) = Line2::new(w[0], w[1]).intersection_point(m) {
            return Some(p);
        }
    }
    None
}

/// all intersections are the intersections with every edge, in edge order
// @stop intersection_point
pub fn all__got<T: GenericVector2>(ls: &Vec<T>, m: Line2<T>) -> Vec<Intersection<T>> {
    ls.find_all_intersections(&m)
}
pub fn all__want<T: GenericVector2>(ls: &Vec<T>, m: Line2<T>) -> Vec<Intersection<T>> {
    ls.windows(2).filter_map(|w| Line2::new(w[0], w[1]).intersection_point(m)).collect()
}

/// a ray that is not parallel to an edge meets it at the solution of the two line equations iff that lies on the edge and not behind the origin
pub fn ray_edge__got<T: GenericVector2>(o: T, d: T, p: T, q: T) -> Option<T::Scalar> {
    <Vec<T> as LineString2<T>>::ray_edge_intersection(o, d, p, q)
}
pub fn ray_edge__pre<T: GenericVector2>(o: T, d: T, p: T, q: T) -> bool {
    !near(d.x() * (q.y() - p.y()) - d.y() * (q.x() - p.x()), T::Scalar::ZERO)
}
pub fn ray_edge__want<T: GenericVector2>(o: T, d: T, p: T, q: T) -> Option<T::Scalar> {
    let (sx, sy) = (q.x() - p.x(), q.y() - p.y());
    let (wx, wy) = (p.x() - o.x(), p.y() - o.y());
    let det = d.x() * sy - d.y() * sx;
    let t = (wx * sy - wy * sx) / det;
    let u = (wx * d.y() - wy * d.x()) / det;
    if t >= T::Scalar::ZERO && u >= T::Scalar::ZERO && u <= T::Scalar::ONE {
        Some(t)
    } else {
        None
    }
}

/// a ray parallel to an edge meets it iff the edge lies on the ray's line, and then at the end point it reaches first
pub fn ray_parallel__got<T: GenericVector2>(o: T, d: T, p: T, q: T) -> Option<T::Scalar> {
    <Vec<T> as LineString2<T>>::ray_edge_intersection(o, d, p, q)
}
pub fn ray_parallel__pre<T: GenericVector2>(o: T, d: T, p: T, q: T) -> bool {
    near(d.x() * (q.y() - p.y()) - d.y() * (q.x() - p.x()), T::Scalar::ZERO)
}
pub fn ray_parallel__want<T: GenericVector2>(o: T, d: T, p: T, q: T) -> Option<T::Scalar> {
    let (wx, wy) = (p.x() - o.x(), p.y() - o.y());
    if !near(wx * d.y() - wy * d.x(), T::Scalar::ZERO) {
        return None;
    }
    let dd = d.x() * d.x() + d.y() * d.y();
    let t0 = (wx * d.x() + wy * d.y()) / dd;
    let t1 = t0 + ((q.x() - p.x()) * d.x() + (q.y() - p.y()) * d.y()) / dd;
    Some(fmin(t0, t1))
}

/// the closest ray intersection is the point at the smallest positive ray parameter over all edges
// @stop ray_edge_intersection
pub fn closest_ray__got<T: GenericVector2>(ls: &Vec<T>, d: T, o: T) -> Option<T> {
    ls.closest_ray_intersection(d, o)
}
pub fn closest_ray__want<T: GenericVector2>(ls: &Vec<T>, d: T, o: T) -> Option<T> {
    let mut best: Option<T::Scalar> = None;
    for w in ls.windows(2) {
        if let Some(t) = <Vec<T> as LineString2<T>>::ray_edge_intersection(o, d, w[0], w[1]) {
            if t > T::Scalar::ZERO {
                let closer = match best {
                    Some(b) => t < b,
                    None => true,
                };
                if closer {
                    best = Some(t);
                }
            }
        }
    }
    match best {
        Some(t) => Some(T::new_2d(o.x() + d.x() * t, o.y() + d.y() * t)),
        None => None,
    }
}

/// nothing is hit by a ray in a line string without edges
pub fn closest_ray_empty__got<T: GenericVector2>(ls: &Vec<T>, d: T, o: T) -> Option<T> {
    ls.closest_ray_intersection(d, o)
}
pub fn closest_ray_empty__pre<T: GenericVector2>(ls: &Vec<T>, d: T, o: T) -> bool {
    ls.len() <= 1
}
pub fn closest_ray_empty__want<T: GenericVector2>(ls: &Vec<T>, d: T, o: T) -> Option<T> {
    None
}

/// the one point of an intersection is the point itself, or the start of an overlap
pub fn single__got<T: GenericVector2>(i: Intersection<T>) -> T {
    i.single()
}
pub fn single__want<T: GenericVector2>(i: Intersection<T>) -> T {
    match i {
        Intersection::Intersection(p) => p,
        Intersection::Overlap(l) => l.start,
    }
}

/// two intersections of a line string: the distinct points met, in edge order, at most two, an overlap contributing start and end
// @stop intersection_point
pub fn two__got<T: GenericVector2>(ls: &Vec<T>, m: Line2<T>) -> (Option<T>, Option<T>) {
    ls.find_two_intersections(&m)
}
pub fn two__want<T: GenericVector2>(ls: &Vec<T>, m: Line2<T>) -> (Option<T>, Option<T>) {
    let mut f: Vec<T> = Vec::new();
    for w in ls.windows(2) {
        match Line2::new(w[0], w[1]).intersection_point(m) {
            Some(Intersection::Intersection(p)) => {
                if !f.contains(&p) {
                    f.push(p);
                }
            }
            Some(Intersection::Overlap(l)) => {
                if !f.contains(&l.start) {
                    f.push(l.start);
                }
                if f.len() < 2 && !f.contains(&l.end) {
                    f.push(l.end);
                }
            }
            None => {}
        }
        if f.len() == 2 {
            break;
        }
    }
    (f.first().copied(), f.get(1).copied())
}

/// two intersections of one or two edges: an overlap contributes start and end, repeats are dropped, at most two are kept
// @stop intersection_point
pub fn two_of_one_edge__got<T: GenericVector2>(a: T, b: T, m: Line2<T>) -> (Option<T>, Option<T>) {
    vec![a, b].find_two_intersections(&m)
}
pub fn two_of_one_edge__want<T: GenericVector2>(a: T, b: T, m: Line2<T>) -> (Option<T>, Option<T>) {
    match Line2::new(a, b).intersection_point(m) {
        Some(Intersection::Intersection(p)) => (Some(p), None),
        Some(Intersection::Overlap(l)) => (Some(l.start), if l.start == l.end { None } else { Some(l.end) }),
        None => (None, None),
    }
}

/// two intersections of two edges: those of the first edge, then those of the second that are new
// @stop intersection_point
pub fn two_of_two_edges__got<T: GenericVector2>(a: T, b: T, c: T, m: Line2<T>) -> (Option<T>, Option<T>) {
    vec![a, b, c].find_two_intersections(&m)
}
fn ends<T: GenericVector2>(i: Option<Intersection<T>>) -> (Option<T>, Option<T>) {
    match i {
        Some(Intersection::Intersection(p)) => (Some(p), None),
        Some(Intersection::Overlap(l)) => (Some(l.start), Some(l.end)),
        None => (None, None),
    }
}
fn add<T: GenericVector2>(r: (Option<T>, Option<T>), p: Option<T>) -> (Option<T>, Option<T>) {
    match (r, p) {
        ((None, _), p) => (p, None),
        ((Some(a), None), Some(p)) => (Some(a), if p == a { None } else { Some(p) }),
        (r, _) => r,
    }
}
pub fn two_of_two_edges__want<T: GenericVector2>(a: T, b: T, c: T, m: Line2<T>) -> (Option<T>, Option<T>) {
    let (p, q) = ends(Line2::new(a, b).intersection_point(m));
    let (r, s) = ends(Line2::new(b, c).intersection_point(m));
    add(add(add(add((None, None), p), q), r), s)
}
