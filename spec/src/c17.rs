use crate::*;
use linestring::linestring_2d::{Line2, LineString2};
use linestring::linestring_3d::LineString3;
use vector_traits::num_traits::AsPrimitive;

fn up<S: GenericScalar>(x: S) -> S {
    vector_traits::num_traits::Float::ceil(x)
}
fn whole<S: GenericScalar>(x: S) -> usize {
    AsPrimitive::<usize>::as_(x)
}

// the edge from a to b is cut into n parts: its length is above n-1 and up to n times the distance
fn parts2<T: GenericVector2>(a: T, b: T, d: T::Scalar, n: usize, m: T::Scalar) -> bool {
    let l = (b - a).magnitude();
    let k = up(l / d);
    let u: usize = whole(k);
    d > T::Scalar::ZERO && l > T::Scalar::ZERO && PartialEq::eq(&u, &n) && PartialEq::eq(&k, &m) && l <= d * m && l > d * (m - T::Scalar::ONE)
}
fn parts3<T: GenericVector3>(a: T, b: T, d: T::Scalar, n: usize, m: T::Scalar) -> bool {
    let l = (b - a).magnitude();
    let k = up(l / d);
    let u: usize = whole(k);
    d > T::Scalar::ZERO && l > T::Scalar::ZERO && PartialEq::eq(&u, &n) && PartialEq::eq(&k, &m) && l <= d * m && l > d * (m - T::Scalar::ONE)
}

/// an empty line string yields nothing, one point yields itself
// @fixed
// @assume
pub fn trivial2__got<T: GenericVector2>(a: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>)
where
    usize: AsPrimitive<T::Scalar>,
{
    let (v, w) = (Vec::<T>::new(), vec![a]);
    let (mut i, mut j) = (v.discretize(d), w.discretize(d));
    (i.next(), j.next(), j.next(), j.next())
}
pub fn trivial2__want<T: GenericVector2>(a: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>) {
    (None, Some(a), None, None)
}

/// an edge not longer than the distance yields its two ends
// @fixed
// @assume
pub fn one2__got<T: GenericVector2>(a: T, b: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>)
where
    usize: AsPrimitive<T::Scalar>,
{
    let v = vec![a, b];
    let mut i = v.discretize(d);
    (i.next(), i.next(), i.next(), i.next())
}
pub fn one2__pre<T: GenericVector2>(a: T, b: T, d: T::Scalar) -> bool {
    parts2(a, b, d, 1, T::Scalar::ONE)
}
pub fn one2__want<T: GenericVector2>(a: T, b: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>) {
    (Some(a), Some(b), None, None)
}

/// an edge between two and three times the distance is cut into three equal parts
// @fixed
// @assume
pub fn three2__got<T: GenericVector2>(a: T, b: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>, Option<T>)
where
    usize: AsPrimitive<T::Scalar>,
{
    let v = vec![a, b];
    let mut i = v.discretize(d);
    (i.next(), i.next(), i.next(), i.next(), i.next())
}
pub fn three2__pre<T: GenericVector2>(a: T, b: T, d: T::Scalar) -> bool {
    parts2(a, b, d, 3, T::Scalar::THREE)
}
pub fn three2__want<T: GenericVector2>(a: T, b: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>, Option<T>) {
    let n = up((b - a).magnitude() / d);
    (Some(a), Some(a + (b - a) / n), Some(a + (b - a) / n * T::Scalar::TWO), Some(b), None)
}

/// a repeated point is yielded once per occurrence
// @fixed
// @assume
pub fn zero2__got<T: GenericVector2>(a: T, b: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>)
where
    usize: AsPrimitive<T::Scalar>,
{
    let v = vec![a, a, b];
    let mut i = v.discretize(d);
    (i.next(), i.next(), i.next(), i.next())
}
pub fn zero2__pre<T: GenericVector2>(a: T, b: T, d: T::Scalar) -> bool {
    parts2(a, b, d, 1, T::Scalar::ONE)
}
pub fn zero2__want<T: GenericVector2>(a: T, b: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>) {
    (Some(a), Some(a), Some(b), None)
}

/// every edge is cut on its own: two parts of the first, one of the second
// @fixed
// @assume
pub fn edges2__got<T: GenericVector2>(a: T, b: T, c: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>, Option<T>)
where
    usize: AsPrimitive<T::Scalar>,
{
    let v = vec![a, b, c];
    let mut i = v.discretize(d);
    (i.next(), i.next(), i.next(), i.next(), i.next())
}
pub fn edges2__pre<T: GenericVector2>(a: T, b: T, c: T, d: T::Scalar) -> bool {
    parts2(a, b, d, 2, T::Scalar::TWO) && parts2(b, c, d, 1, T::Scalar::ONE)
}
pub fn edges2__want<T: GenericVector2>(a: T, b: T, c: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>, Option<T>) {
    (Some(a), Some(a + (b - a) / up((b - a).magnitude() / d)), Some(b), Some(c), None)
}

/// every edge is cut on its own: one part of the first, two of the second
// @fixed
// @assume
pub fn later2__got<T: GenericVector2>(a: T, b: T, c: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>, Option<T>)
where
    usize: AsPrimitive<T::Scalar>,
{
    let v = vec![a, b, c];
    let mut i = v.discretize(d);
    (i.next(), i.next(), i.next(), i.next(), i.next())
}
pub fn later2__pre<T: GenericVector2>(a: T, b: T, c: T, d: T::Scalar) -> bool {
    parts2(a, b, d, 1, T::Scalar::ONE) && parts2(b, c, d, 2, T::Scalar::TWO)
}
pub fn later2__want<T: GenericVector2>(a: T, b: T, c: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>, Option<T>) {
    (Some(a), Some(b), Some(b + (c - b) / up((c - b).magnitude() / d)), Some(c), None)
}

/// an empty line string yields nothing, one point yields itself
// @fixed
// @assume
pub fn trivial3__got<T: GenericVector3>(a: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>)
where
    usize: AsPrimitive<T::Scalar>,
{
    let (v, w) = (Vec::<T>::new(), vec![a]);
    let (mut i, mut j) = (v.discretize(d), w.discretize(d));
    (i.next(), j.next(), j.next(), j.next())
}
pub fn trivial3__want<T: GenericVector3>(a: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>) {
    (None, Some(a), None, None)
}

/// an edge not longer than the distance yields its two ends
// @fixed
// @assume
pub fn one3__got<T: GenericVector3>(a: T, b: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>)
where
    usize: AsPrimitive<T::Scalar>,
{
    let v = vec![a, b];
    let mut i = v.discretize(d);
    (i.next(), i.next(), i.next(), i.next())
}
pub fn one3__pre<T: GenericVector3>(a: T, b: T, d: T::Scalar) -> bool {
    parts3(a, b, d, 1, T::Scalar::ONE)
}
pub fn one3__want<T: GenericVector3>(a: T, b: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>) {
    (Some(a), Some(b), None, None)
}

/// an edge between two and three times the distance is cut into three equal parts
// @fixed
// @assume
pub fn three3__got<T: GenericVector3>(a: T, b: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>, Option<T>)
where
    usize: AsPrimitive<T::Scalar>,
{
    let v = vec![a, b];
    let mut i = v.discretize(d);
    (i.next(), i.next(), i.next(), i.next(), i.next())
}
pub fn three3__pre<T: GenericVector3>(a: T, b: T, d: T::Scalar) -> bool {
    parts3(a, b, d, 3, T::Scalar::THREE)
}
pub fn three3__want<T: GenericVector3>(a: T, b: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>, Option<T>) {
    let n = up((b - a).magnitude() / d);
    (Some(a), Some(a + (b - a) / n), Some(a + (b - a) / n * T::Scalar::TWO), Some(b), None)
}

/// a repeated point is yielded once per occurrence
// @fixed
// @assume
pub fn zero3__got<T: GenericVector3>(a: T, b: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>)
where
    usize: AsPrimitive<T::Scalar>,
{
    let v = vec![a, a, b];
    let mut i = v.discretize(d);
    (i.next(), i.next(), i.next(), i.next())
}
pub fn zero3__pre<T: GenericVector3>(a: T, b: T, d: T::Scalar) -> bool {
    parts3(a, b, d, 1, T::Scalar::ONE)
}
pub fn zero3__want<T: GenericVector3>(a: T, b: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>) {
    (Some(a), Some(a), Some(b), None)
}

/// every edge is cut on its own: two parts of the first, one of the second
// @fixed
// @assume
pub fn edges3__got<T: GenericVector3>(a: T, b: T, c: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>, Option<T>)
where
    usize: AsPrimitive<T::Scalar>,
{
    let v = vec![a, b, c];
    let mut i = v.discretize(d);
    (i.next(), i.next(), i.next(), i.next(), i.next())
}
pub fn edges3__pre<T: GenericVector3>(a: T, b: T, c: T, d: T::Scalar) -> bool {
    parts3(a, b, d, 2, T::Scalar::TWO) && parts3(b, c, d, 1, T::Scalar::ONE)
}
pub fn edges3__want<T: GenericVector3>(a: T, b: T, c: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>, Option<T>) {
    (Some(a), Some(a + (b - a) / up((b - a).magnitude() / d)), Some(b), Some(c), None)
}

/// every edge is cut on its own: one part of the first, two of the second
// @fixed
// @assume
pub fn later3__got<T: GenericVector3>(a: T, b: T, c: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>, Option<T>)
where
    usize: AsPrimitive<T::Scalar>,
{
    let v = vec![a, b, c];
    let mut i = v.discretize(d);
    (i.next(), i.next(), i.next(), i.next(), i.next())
}
pub fn later3__pre<T: GenericVector3>(a: T, b: T, c: T, d: T::Scalar) -> bool {
    parts3(a, b, d, 1, T::Scalar::ONE) && parts3(b, c, d, 2, T::Scalar::TWO)
}
pub fn later3__want<T: GenericVector3>(a: T, b: T, c: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>, Option<T>) {
    (Some(a), Some(b), Some(b + (c - b) / up((c - b).magnitude() / d)), Some(c), None)
}

/// a point repeated in the middle and at the end is yielded as often as it occurs
// @fixed
// @assume
pub fn twice2__got<T: GenericVector2>(a: T, b: T, c: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>, Option<T>, Option<T>)
where
    usize: AsPrimitive<T::Scalar>,
{
    let v = vec![a, b, b, c, c];
    let mut i = v.discretize(d);
    (i.next(), i.next(), i.next(), i.next(), i.next(), i.next())
}
pub fn twice2__pre<T: GenericVector2>(a: T, b: T, c: T, d: T::Scalar) -> bool {
    parts2(a, b, d, 1, T::Scalar::ONE) && parts2(b, c, d, 1, T::Scalar::ONE)
}
pub fn twice2__want<T: GenericVector2>(a: T, b: T, c: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>, Option<T>, Option<T>) {
    (Some(a), Some(b), Some(b), Some(c), Some(c), None)
}

/// a point given three times is yielded three times, whatever the positive distance
// @fixed
// @assume
pub fn same2__got<T: GenericVector2>(a: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>)
where
    usize: AsPrimitive<T::Scalar>,
{
    let v = vec![a, a, a];
    let mut i = v.discretize(d);
    (i.next(), i.next(), i.next(), i.next())
}
pub fn same2__pre<T: GenericVector2>(a: T, d: T::Scalar) -> bool {
    d > T::Scalar::ZERO
}
pub fn same2__want<T: GenericVector2>(a: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>) {
    (Some(a), Some(a), Some(a), None)
}

/// a point repeated in the middle and at the end is yielded as often as it occurs
// @fixed
// @assume
pub fn twice3__got<T: GenericVector3>(a: T, b: T, c: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>, Option<T>, Option<T>)
where
    usize: AsPrimitive<T::Scalar>,
{
    let v = vec![a, b, b, c, c];
    let mut i = v.discretize(d);
    (i.next(), i.next(), i.next(), i.next(), i.next(), i.next())
}
pub fn twice3__pre<T: GenericVector3>(a: T, b: T, c: T, d: T::Scalar) -> bool {
    parts3(a, b, d, 1, T::Scalar::ONE) && parts3(b, c, d, 1, T::Scalar::ONE)
}
pub fn twice3__want<T: GenericVector3>(a: T, b: T, c: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>, Option<T>, Option<T>) {
    (Some(a), Some(b), Some(b), Some(c), Some(c), None)
}

/// a point given three times is yielded three times, whatever the positive distance
// @fixed
// @assume
pub fn same3__got<T: GenericVector3>(a: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>)
where
    usize: AsPrimitive<T::Scalar>,
{
    let v = vec![a, a, a];
    let mut i = v.discretize(d);
    (i.next(), i.next(), i.next(), i.next())
}
pub fn same3__pre<T: GenericVector3>(a: T, d: T::Scalar) -> bool {
    d > T::Scalar::ZERO
}
pub fn same3__want<T: GenericVector3>(a: T, d: T::Scalar) -> (Option<T>, Option<T>, Option<T>, Option<T>) {
    (Some(a), Some(a), Some(a), None)
}

