use crate::*;
use linestring::linestring_2d::{Line2, LineString2};
use linestring::linestring_3d::{Aabb3, Line3, LineString3, Plane};

/// mapping a 2D point onto a plane and back is the identity
pub fn round_trip_point__got<T: GenericVector3>(plane: Plane, p: T::Vector2) -> T::Vector2 {
    plane.point_to_2d::<T>(plane.point_to_3d::<T>(p))
}
pub fn round_trip_point__want<T: GenericVector3>(plane: Plane, p: T::Vector2) -> T::Vector2 {
    p
}

/// the coordinate off the plane is zero, the two in-plane coordinates keep x,y,z order
pub fn to_3d_axes__got<T: GenericVector3>(plane: Plane, p: T::Vector2) -> T {
    plane.point_to_3d::<T>(p)
}
pub fn to_3d_axes__want<T: GenericVector3>(plane: Plane, p: T::Vector2) -> T {
    match plane {
        Plane::XY => T::new_3d(p.x(), p.y(), T::Scalar::ZERO),
        Plane::XZ => T::new_3d(p.x(), T::Scalar::ZERO, p.y()),
        Plane::YZ => T::new_3d(T::Scalar::ZERO, p.x(), p.y()),
    }
}

/// dropping to 2D keeps the two in-plane coordinates in x,y,z order
pub fn to_2d_axes__got<T: GenericVector3>(plane: Plane, p: T) -> T::Vector2 {
    plane.point_to_2d::<T>(p)
}
pub fn to_2d_axes__want<T: GenericVector3>(plane: Plane, p: T) -> T::Vector2 {
    match plane {
        Plane::XY => T::Vector2::new_2d(p.x(), p.y()),
        Plane::XZ => T::Vector2::new_2d(p.x(), p.z()),
        Plane::YZ => T::Vector2::new_2d(p.y(), p.z()),
    }
}

/// copying a 2D line string onto a plane and back gives the same points in the same order
pub fn round_trip_string__got<T: GenericVector2>(v: &Vec<T>, plane: Plane) -> Vec<T> {
    let w: Vec<T::Vector3> = LineString2::copy_to_3d(v, plane);
    LineString3::<T::Vector3>::copy_to_2d(&w, plane)
}
pub fn round_trip_string__want<T: GenericVector2>(v: &Vec<T>, plane: Plane) -> Vec<T> {
    v.clone()
}

/// copying a 2D line onto a plane and back gives the same line
pub fn round_trip_line__got<T: GenericVector2>(l: Line2<T>, plane: Plane) -> (T, T) {
    let m: Line3<T::Vector3> = l.copy_to_3d(plane);
    let b: Line2<T> = m.copy_to_2d(plane);
    (b.start, b.end)
}
pub fn round_trip_line__want<T: GenericVector2>(l: Line2<T>, plane: Plane) -> (T, T) {
    (l.start, l.end)
}

/// a line is placed on a plane by placing its two end points
pub fn line_to_3d__got<T: GenericVector2>(l: Line2<T>, plane: Plane) -> (T::Vector3, T::Vector3) {
    let m: Line3<T::Vector3> = l.copy_to_3d(plane);
    (m.start, m.end)
}
pub fn line_to_3d__want<T: GenericVector2>(l: Line2<T>, plane: Plane) -> (T::Vector3, T::Vector3) {
    let z = T::Scalar::ZERO;
    match plane {
        Plane::XY => (T::Vector3::new_3d(l.start.x(), l.start.y(), z), T::Vector3::new_3d(l.end.x(), l.end.y(), z)),
        Plane::XZ => (T::Vector3::new_3d(l.start.x(), z, l.start.y()), T::Vector3::new_3d(l.end.x(), z, l.end.y())),
        Plane::YZ => (T::Vector3::new_3d(z, l.start.x(), l.start.y()), T::Vector3::new_3d(z, l.end.x(), l.end.y())),
    }
}

/// a line is projected to a plane by projecting its two end points
pub fn line_to_2d__got<T: GenericVector3>(l: Line3<T>, plane: Plane) -> (T::Vector2, T::Vector2) {
    let m: Line2<T::Vector2> = l.copy_to_2d(plane);
    (m.start, m.end)
}
pub fn line_to_2d__want<T: GenericVector3>(l: Line3<T>, plane: Plane) -> (T::Vector2, T::Vector2) {
    (plane.point_to_2d::<T>(l.start), plane.point_to_2d::<T>(l.end))
}

/// a line string is placed on a plane point by point: the off-plane coordinate is zero and a coordinate keeps its axis where it can
pub fn string_to_3d__got<T: GenericVector2>(v: &Vec<T>, plane: Plane) -> Vec<T::Vector3> {
    LineString2::copy_to_3d(v, plane)
}
pub fn string_to_3d__want<T: GenericVector2>(v: &Vec<T>, plane: Plane) -> Vec<T::Vector3> {
    let z = T::Scalar::ZERO;
    match plane {
        Plane::XY => v.iter().map(|p| T::Vector3::new_3d(p.x(), p.y(), z)).collect(),
        Plane::XZ => v.iter().map(|p| T::Vector3::new_3d(p.x(), z, p.y())).collect(),
        Plane::YZ => v.iter().map(|p| T::Vector3::new_3d(z, p.y(), p.x())).collect(),
    }
}

/// a 3D line string is projected to a plane point by point, each in-plane coordinate read from the axis the inverse writes
pub fn string_to_2d__got<T: GenericVector3>(v: &Vec<T>, plane: Plane) -> Vec<T::Vector2> {
    LineString3::copy_to_2d(v, plane)
}
pub fn string_to_2d__want<T: GenericVector3>(v: &Vec<T>, plane: Plane) -> Vec<T::Vector2> {
    match plane {
        Plane::XY => v.iter().map(|p| T::Vector2::new_2d(p.x(), p.y())).collect(),
        Plane::XZ => v.iter().map(|p| T::Vector2::new_2d(p.x(), p.z())).collect(),
        Plane::YZ => v.iter().map(|p| T::Vector2::new_2d(p.z(), p.y())).collect(),
    }
}

/// a line and a line string place the same point at the same position on the YZ plane
pub fn same_axes_yz__holds<T: GenericVector2>(p: T) -> bool {
    let m: Line3<T::Vector3> = Line2::new(p, p).copy_to_3d(Plane::YZ);
    let v = vec![p];
    let w: Vec<T::Vector3> = LineString2::copy_to_3d(&v, Plane::YZ);
    m.start == w[0]
}

fn flat<S: GenericScalar>(d: S, widest: S, e: S, u: u32) -> bool {
    approx::UlpsEq::ulps_eq(&(d / widest), &S::ZERO, e, u)
}

/// a plane is reported iff exactly one extent vanishes relative to the widest one, and it is the plane of the other two
pub fn plane_relaxed__got<T: GenericVector3>(b: Aabb3<T>, e: T::Scalar, u: u32) -> Option<Plane> {
    Plane::get_plane_relaxed(b, e, u)
}
pub fn plane_relaxed__pre<T: GenericVector3>(b: Aabb3<T>, e: T::Scalar, u: u32) -> bool {
    match b.extents() {
        None => true,
        Some((l, h, _)) => le3(l, h) && (l.x() < h.x() || l.y() < h.y() || l.z() < h.z()),
    }
}
pub fn plane_relaxed__want<T: GenericVector3>(b: Aabb3<T>, e: T::Scalar, u: u32) -> Option<Plane> {
    match b.extents() {
        None => None,
        Some((_, _, d)) => {
            let w = mx(mx(d.x(), d.y()), d.z());
            let fx = flat(d.x(), w, e, u);
            let fy = flat(d.y(), w, e, u);
            let fz = flat(d.z(), w, e, u);
            match (fx, fy, fz) {
                (true, false, false) => Some(Plane::YZ),
                (false, true, false) => Some(Plane::XZ),
                (false, false, true) => Some(Plane::XY),
                _ => None,
            }
        }
    }
}

/// plane detection without explicit tolerance uses the default tolerances
pub fn plane__got<T: GenericVector3>(b: Aabb3<T>) -> Option<Plane> {
    Plane::get_plane(b)
}
pub fn plane__want<T: GenericVector3>(b: Aabb3<T>) -> Option<Plane> {
    Plane::get_plane_relaxed(
        b,
        <T::Scalar as approx::AbsDiffEq>::default_epsilon(),
        <T::Scalar as approx::UlpsEq>::default_max_ulps(),
    )
}
