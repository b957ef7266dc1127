use crate::*;
use linestring::{linestring_2d, linestring_3d};

/// moving from a point along a vector scales every component of the vector
pub fn along__got<T: GenericVector2>(p: T, v: T, s: T::Scalar) -> T {
    linestring_2d::scale_to_coordinate(p, v, s)
}
pub fn along__want<T: GenericVector2>(p: T, v: T, s: T::Scalar) -> T {
    T::new_2d(p.x() + v.x() * s, p.y() + v.y() * s)
}

fn seg2<T: GenericVector2>(a: T, b: T, p: T) -> T::Scalar {
    let d = T::new_2d(b.x() - a.x(), b.y() - a.y());
    let len2 = d.x() * d.x() + d.y() * d.y();
    let t = ((p.x() - a.x()) * d.x() + (p.y() - a.y()) * d.y()) / len2;
    let (nx, ny) = if t < T::Scalar::ZERO {
        (a.x(), a.y())
    } else if t > T::Scalar::ONE {
        (b.x(), b.y())
    } else {
        (a.x() + d.x() * t, a.y() + d.y() * t)
    };
    (p.x() - nx) * (p.x() - nx) + (p.y() - ny) * (p.y() - ny)
}

/// 2D point to segment distance: squared distance to the nearest point of the segment
pub fn segment2__got<T: GenericVector2>(a: T, b: T, p: T) -> T::Scalar {
    linestring_2d::distance_to_line_squared(a, b, p)
}
pub fn segment2__want<T: GenericVector2>(a: T, b: T, p: T) -> T::Scalar {
    seg2(a, b, p)
}

/// 2D safe form: a degenerate segment is its point, otherwise the same as the plain form
pub fn segment2_safe__got<T: GenericVector2>(a: T, b: T, p: T) -> T::Scalar {
    linestring_2d::distance_to_line_squared_safe(a, b, p)
}
pub fn segment2_safe__want<T: GenericVector2>(a: T, b: T, p: T) -> T::Scalar {
    if near(a.x(), b.x()) && near(a.y(), b.y()) {
        (p.x() - a.x()) * (p.x() - a.x()) + (p.y() - a.y()) * (p.y() - a.y())
    } else {
        linestring_2d::distance_to_line_squared(a, b, p)
    }
}

/// the 2D distance does not depend on the direction of the segment
pub fn segment2_sym__got<T: GenericVector2>(a: T, b: T, p: T) -> T::Scalar {
    linestring_2d::distance_to_line_squared(a, b, p)
}
pub fn segment2_sym__want<T: GenericVector2>(a: T, b: T, p: T) -> T::Scalar {
    linestring_2d::distance_to_line_squared(b, a, p)
}

fn line3<T: GenericVector3>(a: T, b: T, p: T) -> T::Scalar {
    let (dx, dy, dz) = (b.x() - a.x(), b.y() - a.y(), b.z() - a.z());
    let (ex, ey, ez) = (p.x() - a.x(), p.y() - a.y(), p.z() - a.z());
    let len2 = dx * dx + dy * dy + dz * dz;
    let t = (dx * ex + dy * ey + dz * ez) / len2;
    let (fx, fy, fz) = (ex - dx * t, ey - dy * t, ez - dz * t);
    fx * fx + fy * fy + fz * fz
}

/// 3D point to line distance: squared length of the part of the offset perpendicular to the line
pub fn line3__got<T: GenericVector3>(a: T, b: T, p: T) -> T::Scalar {
    linestring_3d::distance_to_line_squared(a, b, p)
}
pub fn line3__want<T: GenericVector3>(a: T, b: T, p: T) -> T::Scalar {
    line3(a, b, p)
}

/// 3D safe form: a degenerate line is its point, otherwise the same as the plain form
pub fn line3_safe__got<T: GenericVector3>(a: T, b: T, p: T) -> T::Scalar {
    linestring_3d::distance_to_line_squared_safe(a, b, p)
}
pub fn line3_safe__want<T: GenericVector3>(a: T, b: T, p: T) -> T::Scalar {
    if near(a.x(), b.x()) && near(a.y(), b.y()) && near(a.z(), b.z()) {
        (p.x() - a.x()) * (p.x() - a.x()) + (p.y() - a.y()) * (p.y() - a.y()) + (p.z() - a.z()) * (p.z() - a.z())
    } else {
        line3(a, b, p)
    }
}
