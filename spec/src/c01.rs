use crate::*;
use linestring::linestring_2d::*;

/// a new box is exactly its point
pub fn new__got<T: GenericVector2>(p: T) -> Option<(T, T)> {
    Aabb2::new(p).min_max()
}
pub fn new__want<T: GenericVector2>(p: T) -> Option<(T, T)> {
    Some((p, p))
}

/// a default box has no extent
pub fn default__got<T: GenericVector2>() -> Option<(T, T)> {
    Aabb2::<T>::default().min_max()
}
pub fn default__want<T: GenericVector2>() -> Option<(T, T)> {
    None
}

fn grow<T: GenericVector2>(b: (T, T), pts: &[T]) -> (T, T) {
    let (mut lo, mut hi) = b;
    for p in pts {
        lo = min2(lo, *p);
        hi = max2(hi, *p);
    }
    (lo, hi)
}

/// the box of a point set is the coordinate-wise minimum and maximum over all of its points; empty for no points
pub fn with_points__got<T: GenericVector2>(pts: &[T]) -> Option<(T, T)> {
    Aabb2::with_points(pts).min_max()
}
pub fn with_points__want<T: GenericVector2>(pts: &[T]) -> Option<(T, T)> {
    if pts.is_empty() {
        None
    } else {
        Some(grow((pts[0], pts[0]), pts))
    }
}

/// adding a point extends the box to exactly contain it
pub fn update_point__got<T: GenericVector2>(b: Aabb2<T>, p: T) -> Option<(T, T)> {
    let mut b = b;
    b.update_with_point(p);
    b.min_max()
}
pub fn update_point__want<T: GenericVector2>(b: Aabb2<T>, p: T) -> Option<(T, T)> {
    match b.min_max() {
        None => Some((p, p)),
        Some((lo, hi)) => Some((min2(lo, p), max2(hi, p))),
    }
}

/// adding several points extends the box over all of them and keeps its old extent
pub fn update_points__got<T: GenericVector2>(b: Aabb2<T>, pts: &[T]) -> Option<(T, T)> {
    let mut b = b;
    b.update_with_points(pts);
    b.min_max()
}
pub fn update_points__want<T: GenericVector2>(b: Aabb2<T>, pts: &[T]) -> Option<(T, T)> {
    if pts.is_empty() {
        b.min_max()
    } else {
        match b.min_max() {
            None => Some(grow((pts[0], pts[0]), pts)),
            Some(b) => Some(grow(b, pts)),
        }
    }
}

/// merging another box gives the union of both extents
pub fn merge__got<T: GenericVector2>(a: Aabb2<T>, b: Aabb2<T>) -> Option<(T, T)> {
    let mut a = a;
    a.update_with_aabb(b);
    a.min_max()
}
pub fn merge__pre<T: GenericVector2>(a: Aabb2<T>, b: Aabb2<T>) -> bool {
    ordered(&a) && ordered(&b)
}
pub fn merge__want<T: GenericVector2>(a: Aabb2<T>, b: Aabb2<T>) -> Option<(T, T)> {
    match (a.min_max(), b.min_max()) {
        (None, x) => x,
        (x, None) => x,
        (Some((l0, h0)), Some((l1, h1))) => Some((min2(l0, l1), max2(h0, h1))),
    }
}
pub fn ordered<T: GenericVector2>(a: &Aabb2<T>) -> bool {
    match a.min_max() {
        None => true,
        Some((l, h)) => le2(l, h),
    }
}

/// merging a box into an empty one gives that box
// @assume
pub fn merge_into_empty__got<T: GenericVector2>(b: Aabb2<T>) -> Option<(T, T)> {
    let mut a = Aabb2::<T>::default();
    a.update_with_aabb(b);
    a.min_max()
}
pub fn merge_into_empty__pre<T: GenericVector2>(b: Aabb2<T>) -> bool {
    ordered(&b)
}
pub fn merge_into_empty__want<T: GenericVector2>(b: Aabb2<T>) -> Option<(T, T)> {
    b.min_max()
}

/// merging an empty box changes nothing
pub fn merge_of_empty__got<T: GenericVector2>(a: Aabb2<T>) -> Option<(T, T)> {
    let mut a = a;
    a.update_with_aabb(Aabb2::default());
    a.min_max()
}
pub fn merge_of_empty__want<T: GenericVector2>(a: Aabb2<T>) -> Option<(T, T)> {
    a.min_max()
}

/// merging a box of one point adds that point
pub fn merge_of_point__got<T: GenericVector2>(a: Aabb2<T>, p: T) -> Option<(T, T)> {
    let mut a = a;
    a.update_with_aabb(Aabb2::new(p));
    a.min_max()
}
pub fn merge_of_point__pre<T: GenericVector2>(a: Aabb2<T>, p: T) -> bool {
    ordered(&a)
}
pub fn merge_of_point__want<T: GenericVector2>(a: Aabb2<T>, p: T) -> Option<(T, T)> {
    match a.min_max() {
        None => Some((p, p)),
        Some((l, h)) => Some((min2(l, p), max2(h, p))),
    }
}

/// low, high, extents and the corner pair describe the same box; the delta is high minus low
pub fn queries__got<T: GenericVector2>(b: Aabb2<T>) -> (Option<T>, Option<T>, Option<(T, T, T)>) {
    (b.low(), b.high(), b.extents())
}
pub fn queries__want<T: GenericVector2>(b: Aabb2<T>) -> (Option<T>, Option<T>, Option<(T, T, T)>) {
    match b.min_max() {
        None => (None, None, None),
        Some((l, h)) => (Some(l), Some(h), Some((l, h, T::new_2d(h.x() - l.x(), h.y() - l.y())))),
    }
}

/// the centre is the arithmetic middle of low and high
pub fn center__got<T: GenericVector2>(b: Aabb2<T>) -> Option<T> {
    b.center()
}
pub fn center__want<T: GenericVector2>(b: Aabb2<T>) -> Option<T> {
    match b.min_max() {
        None => None,
        Some((l, h)) => Some(T::new_2d((l.x() + h.x()) / T::Scalar::TWO, (l.y() + h.y()) / T::Scalar::TWO)),
    }
}

/// the box outline: five corners, counter clockwise, starting and ending at the minimum
pub fn corners__got<T: GenericVector2>(b: Aabb2<T>) -> Option<Vec<T>> {
    b.convex_hull()
}
pub fn corners__want<T: GenericVector2>(b: Aabb2<T>) -> Option<Vec<T>> {
    match b.min_max() {
        None => None,
        Some((l, h)) => Some(vec![
            l,
            T::new_2d(h.x(), l.y()),
            h,
            T::new_2d(l.x(), h.y()),
            l,
        ]),
    }
}

/// converting a box to a point list yields the same closed outline, and nothing for an empty box
pub fn to_vec__got<T: GenericVector2>(b: Aabb2<T>) -> Vec<T> {
    b.into()
}
pub fn to_vec__want<T: GenericVector2>(b: Aabb2<T>) -> Vec<T> {
    match b.min_max() {
        None => vec![],
        Some((l, h)) => vec![
            l,
            T::new_2d(h.x(), l.y()),
            h,
            T::new_2d(l.x(), h.y()),
            l,
        ],
    }
}

/// a box built from an iterator of points is the box of those points
pub fn from_iter__got<T: GenericVector2>(pts: &[T]) -> Option<(T, T)> {
    let b: Aabb2<T> = pts.iter().into();
    b.min_max()
}
pub fn from_iter__want<T: GenericVector2>(pts: &[T]) -> Option<(T, T)> {
    if pts.is_empty() {
        None
    } else {
        Some(grow((pts[0], pts[0]), pts))
    }
}

/// transforming a box applies the operation to both of its corners
pub fn apply__got<T: GenericVector2, F: Fn(T) -> T>(b: Aabb2<T>, f: F) -> Option<(T, T)> {
    let mut b = b;
    b.apply(&f);
    b.min_max()
}
pub fn apply__want<T: GenericVector2, F: Fn(T) -> T>(b: Aabb2<T>, f: F) -> Option<(T, T)> {
    match b.min_max() {
        None => None,
        Some((l, h)) => Some((f(l), f(h))),
    }
}
