L2="src/linestring_2d.rs"; L3="src/linestring_3d.rs"; CH="src/linestring_2d/convex_hull.rs"; I2="src/linestring_2d/impls.rs"; I3="src/linestring_3d/impls.rs"
EDITS=[
dict(id="box2-iter-fold", mods="c01,c02", edits=[(L2,"""        let (mut aabb_min, mut aabb_max) = self.min_max.unwrap();
        for point in points.iter() {
            aabb_min.set_x(aabb_min.x().min(point.x()));
            aabb_min.set_y(aabb_min.y().min(point.y()));
            aabb_max.set_x(aabb_max.x().max(point.x()));
            aabb_max.set_y(aabb_max.y().max(point.y()));
        }
        self.min_max = Some((aabb_min, aabb_max));
""","""        for point in points.iter() {
            self.update_with_point(*point);
        }
""")]),
dict(id="box2-iter-fold2", mods="c01", edits=[(L2,"""        let (mut aabb_min, mut aabb_max) = self.min_max.unwrap();
        for point in points.iter() {
            aabb_min.set_x(aabb_min.x().min(point.x()));
            aabb_min.set_y(aabb_min.y().min(point.y()));
            aabb_max.set_x(aabb_max.x().max(point.x()));
            aabb_max.set_y(aabb_max.y().max(point.y()));
        }
        self.min_max = Some((aabb_min, aabb_max));
""","""        self.min_max = points.iter().fold(self.min_max, |mm, point| {
            mm.map(|(lo, hi)| {
                (
                    T::new_2d(lo.x().min(point.x()), lo.y().min(point.y())),
                    T::new_2d(hi.x().max(point.x()), hi.y().max(point.y())),
                )
            })
        });
""")]),
dict(id="box2-while", mods="c01", edits=[(L2,"""        for point in points.iter() {
            aabb_min.set_x(aabb_min.x().min(point.x()));
            aabb_min.set_y(aabb_min.y().min(point.y()));
            aabb_max.set_x(aabb_max.x().max(point.x()));
            aabb_max.set_y(aabb_max.y().max(point.y()));
        }
""","""        let mut i = 0;
        while i < points.len() {
            let (x, y) = (points[i].x(), points[i].y());
            if x < aabb_min.x() {
                aabb_min.set_x(x);
            }
            if y < aabb_min.y() {
                aabb_min.set_y(y);
            }
            if x > aabb_max.x() {
                aabb_max.set_x(x);
            }
            if y > aabb_max.y() {
                aabb_max.set_y(y);
            }
            i += 1;
        }
""")]),
dict(id="box2-skip-first", mods="c01", edits=[(L2,"""        if self.min_max.is_none() {
            self.update_with_point(points[0]);
        }
        let (mut aabb_min, mut aabb_max) = self.min_max.unwrap();
        for point in points.iter() {
            aabb_min""","""        let (mut aabb_min, mut aabb_max) = self.min_max.unwrap_or((points[0], points[0]));
        for point in points {
            aabb_min""")]),
dict(id="box2-point-match", mods="c01,c02", edits=[(L2,"""        if self.min_max.is_none() {
            self.min_max = Some((point, point));
            return;
        }
        let (mut aabb_min, mut aabb_max) = self.min_max.unwrap();
        aabb_min.set_x(aabb_min.x().min(point.x()));
        aabb_min.set_y(aabb_min.y().min(point.y()));
        aabb_max.set_x(aabb_max.x().max(point.x()));
        aabb_max.set_y(aabb_max.y().max(point.y()));
        self.min_max = Some((aabb_min, aabb_max));
""","""        self.min_max = match self.min_max {
            None => Some((point, point)),
            Some((lo, hi)) => Some((
                T::new_2d(point.x().min(lo.x()), point.y().min(lo.y())),
                T::new_2d(point.x().max(hi.x()), point.y().max(hi.y())),
            )),
        };
""")]),
dict(id="box2-query-map", mods="c01,c05", edits=[(L2,"""        if let Some((_, high)) = self.min_max {
            return Some(high);
        }
        None
""","""        self.min_max.map(|(_, h)| h)
"""),(L2,"""        if let Some((low, _)) = self.min_max {
            return Some(low);
        }
        None
""","""        match self.min_max {
            Some(mm) => Some(mm.0),
            None => None,
        }
"""),(L2,"""            return Some(T::new_2d(
                (low.x() + high.x()) / T::Scalar::TWO,
                (low.y() + high.y()) / T::Scalar::TWO,
            ));
""","""            let half = T::Scalar::ONE / T::Scalar::TWO;
            let c = low + high;
            return Some(T::new_2d(c.x() * half, c.y() * half));
""")] if False else [(L2,"""        if let Some((_, high)) = self.min_max {
            return Some(high);
        }
        None
""","""        self.min_max.map(|(_, h)| h)
"""),(L2,"""        if let Some((low, _)) = self.min_max {
            return Some(low);
        }
        None
""","""        match self.min_max {
            Some(mm) => Some(mm.0),
            None => None,
        }
"""),(L2,"""            return Some(T::new_2d(
                (low.x() + high.x()) / T::Scalar::TWO,
                (low.y() + high.y()) / T::Scalar::TWO,
            ));
""","""            let half = T::Scalar::ONE / T::Scalar::TWO;
            return Some(T::new_2d((high.x() + low.x()) * half, (high.y() + low.y()) * half));
""")]),
dict(id="box2-contains-ge", mods="c01,c02", edits=[(L2,"""        (aabb.0.x() < point.x() || ulps_eq!(&aabb.0.x(), &point.x()))
            && (aabb.0.y() < point.y() || ulps_eq!(&aabb.0.y(), &point.y()))
            && (aabb.1.x() > point.x() || ulps_eq!(&aabb.1.x(), &point.x()))
            && (aabb.1.y() > point.y() || ulps_eq!(&aabb.1.y(), &point.y()))
""","""        let (min, max) = aabb;
        let inside = |lo: T::Scalar, v: T::Scalar, hi: T::Scalar| {
            (v > lo || ulps_eq!(lo, v)) && (v < hi || ulps_eq!(v, hi))
        };
        inside(min.x(), point.x(), max.x()) && inside(min.y(), point.y(), max.y())
""")]),
dict(id="box2-contains-not", mods="c01,c02", edits=[(L2,"""        (aabb.0.x() < point.x() || ulps_eq!(&aabb.0.x(), &point.x()))
            && (aabb.0.y() < point.y() || ulps_eq!(&aabb.0.y(), &point.y()))
            && (aabb.1.x() > point.x() || ulps_eq!(&aabb.1.x(), &point.x()))
            && (aabb.1.y() > point.y() || ulps_eq!(&aabb.1.y(), &point.y()))
""","""        if aabb.0.x() > point.x() && !ulps_eq!(aabb.0.x(), point.x()) {
            return false;
        }
        if aabb.0.y() > point.y() && !ulps_eq!(aabb.0.y(), point.y()) {
            return false;
        }
        if aabb.1.x() < point.x() && !ulps_eq!(aabb.1.x(), point.x()) {
            return false;
        }
        !(aabb.1.y() < point.y() && !ulps_eq!(aabb.1.y(), point.y()))
""")]),
dict(id="box2-contains-box", mods="c02", edits=[(L2,"""        if let Some(self_aabb) = self.min_max {
            if let Some(other_aabb) = other.min_max {
                return Self::contains_point_inclusive_(self_aabb, other_aabb.0)
                    && Self::contains_point_inclusive_(self_aabb, other_aabb.1);
            }
        }
        false
    }
""","""        match (self.min_max, other.min_max) {
            (Some(_), Some((lo, hi))) => {
                let line = Line2 { start: lo, end: hi };
                self.contains_line_inclusive(&line)
            }
            _ => false,
        }
    }
""")]),
dict(id="box2-hull-push", mods="c01,c02,c03", edits=[(L2,"""            Some(vec![
                (R::new_2d(min.x(), min.y())),
                (R::new_2d(max.x(), min.y())),
                (R::new_2d(max.x(), max.y())),
                (R::new_2d(min.x(), max.y())),
                (R::new_2d(min.x(), min.y())),
            ])
""","""            let mut rv = Vec::with_capacity(5);
            for (x, y) in [
                (min.x(), min.y()),
                (max.x(), min.y()),
                (max.x(), max.y()),
                (min.x(), max.y()),
            ] {
                rv.push(R::new_2d(x, y));
            }
            let first = rv[0];
            rv.push(first);
            Some(rv)
""")]),
dict(id="box2-from-vec", mods="c01,c02,c03", edits=[(I2,"""        if let Some(min_max) = other.min_max {
            let points = vec![
                min_max.0,
                T::new_2d(min_max.1.x(), min_max.0.y()),
                min_max.1,
                T::new_2d(min_max.0.x(), min_max.1.y()),
                min_max.0,
            ];
            points
        } else {
            Vec::<T>::default()
        }
""","""        let (lo, hi) = match other.min_max {
            Some(mm) => mm,
            None => return Vec::new(),
        };
        let (mut a, mut b) = (lo, hi);
        a.set_x(hi.x());
        b.set_x(lo.x());
        [lo, a, hi, b, lo].to_vec()
""")]),
dict(id="box3-merge-points", mods="c01,c02,c03", edits=[(L3,"""        if let Some((min, max)) = aabb.min_max {
            self.update_with_point(min);
            self.update_with_point(max);
        }
""","""        if let Some((min, max)) = aabb.min_max {
            self.update_with_points(&[max, min]);
        }
""")]),
dict(id="box3-min-max", mods="c03,c02", edits=[(L3,"""        if point.x() < aabb_min.x() {
            aabb_min.set_x(point.x());
        }
        if point.y() < aabb_min.y() {
            aabb_min.set_y(point.y());
        }
        if point.z() < aabb_min.z() {
            aabb_min.set_z(point.z());
        }
        if point.x() > aabb_max.x() {
            aabb_max.set_x(point.x());
        }
        if point.y() > aabb_max.y() {
            aabb_max.set_y(point.y());
        }
        if point.z() > aabb_max.z() {
            aabb_max.set_z(point.z());
        }
""","""        let lo = T::new_3d(
            aabb_min.x().min(point.x()),
            aabb_min.y().min(point.y()),
            aabb_min.z().min(point.z()),
        );
        aabb_min = lo;
        aabb_max.set_z(aabb_max.z().max(point.z()));
        aabb_max.set_y(aabb_max.y().max(point.y()));
        aabb_max.set_x(aabb_max.x().max(point.x()));
""")]),
dict(id="box3-fold", mods="c03", edits=[(L3,"""        let (mut aabb_min, mut aabb_max) = self.min_max.unwrap();
        for point in points.iter() {
            aabb_min.set_x(aabb_min.x().min(point.x()));
            aabb_min.set_y(aabb_min.y().min(point.y()));
            aabb_min.set_z(aabb_min.z().min(point.z()));
            aabb_max.set_x(aabb_max.x().max(point.x()));
            aabb_max.set_y(aabb_max.y().max(point.y()));
            aabb_max.set_z(aabb_max.z().max(point.z()));
        }
        self.min_max = Some((aabb_min, aabb_max));
""","""        points.iter().for_each(|p| self.update_with_point(*p));
""")]),
dict(id="plane-mul", mods="c04", edits=[(L3,"""            Plane::XY => T::new_3d(point.x(), point.y(), T::Scalar::ZERO),
            Plane::XZ => T::new_3d(point.x(), T::Scalar::ZERO, point.y()),
            Plane::YZ => T::new_3d(T::Scalar::ZERO, point.x(), point.y()),
""","""            Plane::XY => point.to_3d(T::Scalar::ZERO),
            _ => {
                let zero = T::Scalar::ZERO;
                let (a, b) = (point.x(), point.y());
                if *self == Plane::XZ {
                    T::new_3d(a, zero, b)
                } else {
                    T::new_3d(zero, a, b)
                }
            }
""")]),
dict(id="ls-copy3d-loop", mods="c04,c10", edits=[(L2,"""        match plane {
            Plane::XY => self.iter().map(|p2d| p2d.to_3d(T::Scalar::ZERO)).collect(),
            Plane::XZ => self
                .iter()
                .map(|p2d| T::Vector3::new_3d(p2d.x(), T::Scalar::ZERO, p2d.y()))
                .collect(),
            Plane::YZ => self
                .iter()
                .map(|p2d| T::Vector3::new_3d(T::Scalar::ZERO, p2d.y(), p2d.x()))
                .collect(),
        }
""","""        let mut rv = Vec::with_capacity(self.len());
        for p in self {
            rv.push(match plane {
                Plane::XY => T::Vector3::new_3d(p.x(), p.y(), T::Scalar::ZERO),
                Plane::XZ => T::Vector3::new_3d(p.x(), T::Scalar::ZERO, p.y()),
                Plane::YZ => T::Vector3::new_3d(T::Scalar::ZERO, p.y(), p.x()),
            });
        }
        rv
""")]),
dict(id="affine-helper", mods="c05", edits=[(L2,"""        let x = (point.x() - self.b_offset[0]) / self.scale[0] - self.a_offset[0];
        let y = (point.y() - self.b_offset[1]) / self.scale[1] - self.a_offset[1];
        if x.is_finite() && y.is_finite() {
            Ok(T::new_2d(x, y))
        } else {
            Err(LinestringError::TransformError(
                "Transformation out of bounds".to_string(),
            ))
        }
""","""        let inv = |v: T::Scalar, i: usize| (v - self.b_offset[i]) / self.scale[i] - self.a_offset[i];
        let p = T::new_2d(inv(point.x(), 0), inv(point.y(), 1));
        if !p.x().is_finite() || !p.y().is_finite() {
            return Err(LinestringError::TransformError(
                "Transformation out of bounds".to_string(),
            ));
        }
        Ok(p)
"""),(L2,"""        if x1.is_finite() && y1.is_finite() && x2.is_finite() && y2.is_finite() {
            Ok([x1, y1, x2, y2])
        } else {
            Err(LinestringError::TransformError(
                "Transformation out of bounds".to_string(),
            ))
        }
    }
}
""","""        let rv = [x1, y1, x2, y2];
        if rv.iter().all(|v| v.is_finite()) {
            return Ok(rv);
        }
        Err(LinestringError::TransformError("out of bounds".to_string()))
    }
}
""")]),
dict(id="affine-a-via-points", mods="c05", edits=[(L2,"""        let x1 = (points[0] - self.b_offset[0]) / self.scale[0] - self.a_offset[0];
        let y1 = (points[1] - self.b_offset[1]) / self.scale[1] - self.a_offset[1];
        let x2 = (points[2] - self.b_offset[0]) / self.scale[0] - self.a_offset[0];
        let y2 = (points[3] - self.b_offset[1]) / self.scale[1] - self.a_offset[1];
        if x1.is_finite() && y1.is_finite() && x2.is_finite() && y2.is_finite() {
            Ok([x1, y1, x2, y2])
        } else {
            Err(LinestringError::TransformError(
                "Transformation out of bounds".to_string(),
            ))
        }
""","""        let p = self.transform_ba(T::new_2d(points[0], points[1]))?;
        let q = self.transform_ba(T::new_2d(points[2], points[3]))?;
        Ok([p.x(), p.y(), q.x(), q.y()])
""")]),
dict(id="affine-new-question", mods="c05", edits=[(L2,"""                        let source_aabb_size = source_aabb_size[0].max(source_aabb_size[1]);
                        let dest_aabb_size = dest_aabb_size[0].min(dest_aabb_size[1]);
                        let scale = dest_aabb_size / source_aabb_size;
""","""                        let largest = if source_aabb_size[1] > source_aabb_size[0] {
                            source_aabb_size[1]
                        } else {
                            source_aabb_size[0]
                        };
                        let smallest = if dest_aabb_size[0] <= dest_aabb_size[1] {
                            dest_aabb_size[0]
                        } else {
                            dest_aabb_size[1]
                        };
                        let scale = smallest / largest;
""")]),
dict(id="dist2-clamp", mods="c07", edits=[(L2,"""    if dot < T::Scalar::ZERO {
        l0_sub_p.magnitude_sq()
    } else if dot > T::Scalar::ONE {
        (l1 - p).magnitude_sq()
    } else {
        let a_sub_p_cross_a_sub_b = l0_sub_p.perp_dot(l0_sub_l1);
        a_sub_p_cross_a_sub_b * a_sub_p_cross_a_sub_b / l0_sub_l1_sq_mag
    }
""","""    if dot > T::Scalar::ONE {
        return l1.distance_sq(p);
    }
    if dot < T::Scalar::ZERO {
        return p.distance_sq(l0);
    }
    let cross = l0_sub_l1.x() * l0_sub_p.y() - l0_sub_l1.y() * l0_sub_p.x();
    cross * cross / l0_sub_l1_sq_mag
""")]),
dict(id="dist3-safe", mods="c07", edits=[(L3,"""        let l0_sub_l1 = l0 - l1;
        let l0_sub_p = l0 - p;
        cross_abs_squared(l0_sub_p, l0_sub_l1)
            / (l0_sub_l1.x() * l0_sub_l1.x()
                + l0_sub_l1.y() * l0_sub_l1.y()
                + l0_sub_l1.z() * l0_sub_l1.z())
""","""        distance_to_line_squared(l0, l1, p)
"""),(L3,"""    let x = a.y() * b.z() - a.z() * b.y();
    let y = a.z() * b.x() - a.x() * b.z();
    let z = a.x() * b.y() - a.y() * b.x();
    x * x + y * y + z * z
""","""    a.cross(b).magnitude_sq()
""")]),
dict(id="seg-bbox-helper", mods="c08", edits=[(L2,"""        if self_max_x < other_min_x
            || self_min_x > other_max_x
            || self_max_y < other_min_y
            || self_min_y > other_max_y
        {
            return None;
        }
""","""        let x_apart = self_max_x < other_min_x || other_max_x < self_min_x;
        let y_apart = other_max_y < self_min_y || self_max_y < other_min_y;
        if x_apart || y_apart {
            return None;
        }
""")]),
dict(id="seg-params", mods="c08", edits=[(L2,"""            if (T::Scalar::ZERO..=T::Scalar::ONE).contains(&t)
                && (T::Scalar::ZERO..=T::Scalar::ONE).contains(&u)
            {
                Some(Intersection::Intersection(p + r * t))
            } else {
                None
            }
""","""            if t < T::Scalar::ZERO || t > T::Scalar::ONE || u < T::Scalar::ZERO || u > T::Scalar::ONE {
                return None;
            }
            let x = p.x() + t * r.x();
            let y = p.y() + t * r.y();
            Some(Intersection::Intersection(T::new_2d(x, y)))
""")]),
dict(id="seg-point-expr", mods="c08", edits=[(L2,"""    if ulps_eq!(line.start.x(), point.x()) && ulps_eq!(line.start.y(), point.y()) {
        return Some(Intersection::Intersection(point));
    }
    if ulps_eq!(line.end.x(), point.x()) && ulps_eq!(line.end.y(), point.y()) {
        return Some(Intersection::Intersection(point));
    }
""","""    for end in [line.start, line.end] {
        if ulps_eq!(end.x(), point.x()) && ulps_eq!(end.y(), point.y()) {
            return Some(Intersection::Intersection(point));
        }
    }
""")]),
dict(id="seg-parallel-if", mods="c08", edits=[(L2,"""            ulps_eq!(q_minus_p_cross_r, T::Scalar::ZERO).then(|| {
                let r_dot_r = r.dot(r);
                let t0 = q_minus_p.dot(r) / r_dot_r;
                let t1 = t0 + s.dot(r) / r_dot_r;

                let overlap_start = p + r * t0.max(T::Scalar::ZERO);
                let overlap_end = p + r * t1.min(T::Scalar::ONE);

                if overlap_start == overlap_end {
                    Intersection::Intersection(overlap_start)
                } else {
                    Intersection::Overlap(Line2::new(overlap_start, overlap_end))
                }
            })
""","""            if !ulps_eq!(q_minus_p_cross_r, T::Scalar::ZERO) {
                return None;
            }
            let r_dot_r = r.magnitude_sq();
            let t0 = r.dot(q_minus_p) / r_dot_r;
            let t1 = (q_minus_p + s).dot(r) / r_dot_r;
            let t_start = if t0 > T::Scalar::ZERO { t0 } else { T::Scalar::ZERO };
            let t_end = if t1 < T::Scalar::ONE { t1 } else { T::Scalar::ONE };
            let start = p + r * t_start;
            let end = p + r * t_end;
            Some(if start != end {
                Intersection::Overlap(Line2 { start, end })
            } else {
                Intersection::Intersection(start)
            })
""")]),
dict(id="closest-flip", mods="c08", edits=[(L2,"""                if other.distance_sq(a.start) < other.distance_sq(a.end) {
                    a.start
                } else {
                    a.end
                }
""","""                let ds = (a.start - other).magnitude_sq();
                let de = (a.end - other).magnitude_sq();
                if ds >= de {
                    a.end
                } else {
                    a.start
                }
""")]),
dict(id="first-find-map", mods="c09", edits=[(L2,"""        for l in self.window_iter() {
            let intersection = l.intersection_point(*other);
            if intersection.is_some() {
                return intersection;
            }
        }
        None
""","""        self.window_iter().find_map(|l| l.intersection_point(*other))
""")]),
dict(id="first-index", mods="c09", edits=[(L2,"""        for l in self.window_iter() {
            let intersection = l.intersection_point(*other);
            if intersection.is_some() {
                return intersection;
            }
        }
        None
""","""        let mut i = 1;
        while i < self.len() {
            let l = Line2::new(self[i - 1], self[i]);
            if let Some(hit) = l.intersection_point(*other) {
                return Some(hit);
            }
            i += 1;
        }
        None
""")]),
dict(id="all-filter-map", mods="c09", edits=[(L2,"""        let mut intersections: Vec<Intersection<T>> = Vec::new();

        for edge in self.window_iter() {
            if let Some(intersection) = edge.intersection_point(*other) {
                intersections.push(intersection);
            }
        }
        intersections
""","""        self.window_iter()
            .filter_map(|edge| edge.intersection_point(*other))
            .collect()
""")]),
dict(id="all-windows", mods="c09", edits=[(L2,"""        for edge in self.window_iter() {
            if let Some(intersection) = edge.intersection_point(*other) {
                intersections.push(intersection);
            }
        }
        intersections
""","""        for w in self.windows(2) {
            intersections.extend(Line2::new(w[0], w[1]).intersection_point(*other));
        }
        intersections
""")]),
dict(id="two-helper", mods="c09", edits=[(L2,"""            match intersection {
                Some(Intersection::Intersection(int_pt)) => {
                    if !intersections.contains(&int_pt) {
                        intersections.push(int_pt);
                    }
                }
                Some(Intersection::Overlap(overlap_line)) => {
                    if !intersections.contains(&overlap_line.start) {
                        intersections.push(overlap_line.start);
                    }
                    if intersections.len() < 2 && !intersections.contains(&overlap_line.end) {
                        intersections.push(overlap_line.end);
                    }
                }
                None => {}
            }

            // If we already found two unique intersections, break
            if intersections.len() == 2 {
                break;
            }
""","""            let mut add = |p: T| {
                if intersections.len() < 2 && !intersections.contains(&p) {
                    intersections.push(p);
                }
            };
            match intersection {
                Some(Intersection::Intersection(int_pt)) => add(int_pt),
                Some(Intersection::Overlap(overlap_line)) => {
                    add(overlap_line.start);
                    add(overlap_line.end);
                }
                None => continue,
            }
            if intersections.len() >= 2 {
                break;
            }
""")]),
dict(id="ray-closest-for", mods="c09", edits=[(L2,"""        self.windows(2).for_each(|v| {
            match (
                Self::ray_edge_intersection(origin, ray_dir, v[0], v[1]),
                nearest_t,
            ) {
                (Some(t), Some(nt)) if t > T::Scalar::ZERO && t < nt => nearest_t = Some(t),
                (Some(t), None) if t > T::Scalar::ZERO => nearest_t = Some(t),
                _ => (),
            }
        });
""","""        for e in self.window_iter() {
            if let Some(t) = Self::ray_edge_intersection(origin, ray_dir, e.start, e.end) {
                if t <= T::Scalar::ZERO {
                    continue;
                }
                nearest_t = match nearest_t {
                    Some(nt) if nt <= t => Some(nt),
                    _ => Some(t),
                };
            }
        }
""")]),
dict(id="ray-edge-if", mods="c09", edits=[(L2,"""            (t >= T::Scalar::ZERO && (T::Scalar::ZERO..=T::Scalar::one()).contains(&u)).then_some(t)
""","""            if t < T::Scalar::ZERO {
                None
            } else if u >= T::Scalar::ZERO && u <= T::Scalar::ONE {
                Some(t)
            } else {
                None
            }
""")]),
dict(id="win-index", mods="c10", edits=[(I2,"""        self.0.next().map(|window| Line2 {
            start: window[0],
            end: window[1],
        })
""","""        match self.0.next() {
            Some([a, b]) => Some(Line2 { start: *a, end: *b }),
            _ => None,
        }
""",2)]),
dict(id="connected-match", mods="c10,c11", edits=[(L2,"""        self.is_empty() || self.first().unwrap() == self.last().unwrap()
""","""        match (self.first(), self.last()) {
            (Some(a), Some(b)) => a == b,
            _ => true,
        }
"""),(L3,"""        self.is_empty() || self.first().unwrap() == self.last().unwrap()
""","""        if self.is_empty() {
            return true;
        }
        self[0] == self[self.len() - 1]
""")]),
dict(id="count-sub", mods="c10", edits=[(L2,"""        if self.len() > 2 && self.is_connected() {
            self.len() - 1
        } else {
            self.len()
        }
""","""        let closed = self.len() >= 3 && self.is_connected();
        self.len() - usize::from(closed)
""")]),
dict(id="apply-index", mods="c10", edits=[(L2,"""        for v in self.iter_mut() {
            *v = f(*v)
        }
""","""        for i in 0..self.len() {
            self[i] = f(self[i]);
        }
"""),(L3,"""        self.iter_mut().for_each(|v| *v = f(*v));
""","""        let moved: Vec<T> = self.iter().map(|v| f(*v)).collect();
        *self = moved;
""")]),
dict(id="apply-while", mods="c10", edits=[(L2,"""        for v in self.iter_mut() {
            *v = f(*v)
        }
""","""        let mut rest = self.as_mut_slice();
        while let Some((v, tail)) = rest.split_first_mut() {
            *v = f(*v);
            rest = tail;
        }
"""),(L3,"""        self.iter_mut().for_each(|v| *v = f(*v));
""","""        for v in self.as_mut_slice() {
            let old = *v;
            *v = f(old);
        }
""")]),
dict(id="self-helper", mods="c12", edits=[(L2,"""                        if (point.is_ulps_eq(
                            l0.1.start,
                            T::Scalar::default_epsilon(),
                            T::Scalar::default_max_ulps(),
                        ) || point.is_ulps_eq(
                            l0.1.end,
                            T::Scalar::default_epsilon(),
                            T::Scalar::default_max_ulps(),
                        )) && (point.is_ulps_eq(
                            l1.1.start,
                            T::Scalar::default_epsilon(),
                            T::Scalar::default_max_ulps(),
                        ) || point.is_ulps_eq(
                            l1.1.end,
                            T::Scalar::default_epsilon(),
                            T::Scalar::default_max_ulps(),
                        )) {
                            continue;
                        } else {
                            return Ok(true);
                        }
""","""                        let at = |q: T| {
                            point.is_ulps_eq(
                                q,
                                T::Scalar::default_epsilon(),
                                T::Scalar::default_max_ulps(),
                            )
                        };
                        let at_l0 = at(l0.1.start) || at(l0.1.end);
                        let at_l1 = at(l1.1.start) || at(l1.1.end);
                        if !(at_l0 && at_l1) {
                            return Ok(true);
                        }
""")]),
dict(id="self-index", mods="c12", edits=[(L2,"""            let iter = self.window_iter();
            let iter_len = iter.len();
            for l0 in iter.enumerate().take(iter_len - 1) {
                for l1 in self.window_iter().enumerate().skip(l0.0 + 1) {
                    if l0.0 == l1.0 {
                        continue;
                    } else if l0.0 + 1 == l1.0 {
""","""            let edges: Vec<Line2<T>> = self.window_iter().collect();
            for i in 0..edges.len() {
                for j in (i + 1)..edges.len() {
                    let l0 = (i, edges[i]);
                    let l1 = (j, edges[j]);
                    if j == i + 1 {
""")]),
dict(id="self-3pt", mods="c12", edits=[(L2,"""            return if (middle_sub_start.x() * middle_sub_start.x()
                + middle_sub_start.y() * middle_sub_start.y())
                < (middle_sub_end.x() * middle_sub_end.x()
                    + middle_sub_end.y() * middle_sub_end.y())
            {
""","""            return if middle_sub_start.magnitude_sq() < middle_sub_end.magnitude_sq() {
"""),(L2,"""        let middle_sub_start = T::new_2d(middle.x() - start.x(), middle.y() - start.y());
        let middle_sub_end = T::new_2d(middle.x() - end.x(), middle.y() - end.y());
""","""        let middle_sub_start = middle - start;
        let middle_sub_end = middle - end;
""")]),
dict(id="orient-cmp", mods="c11", edits=[(CH,"""    (b - a).perp_dot(c - a)
""","""    (b.x() - a.x()) * (c.y() - a.y()) - (b.y() - a.y()) * (c.x() - a.x())
"""),(CH,"""    if value == T::Scalar::ZERO || ulps_eq!(value, T::Scalar::ZERO) {
        Orientation::Collinear
    } else if value > T::Scalar::ZERO {
        Orientation::Left
    } else {
        Orientation::Right
    }
""","""    match value.partial_cmp(&T::Scalar::ZERO) {
        _ if ulps_eq!(value, T::Scalar::ZERO) => Orientation::Collinear,
        Some(Ordering::Greater) => Orientation::Left,
        Some(Ordering::Equal) => Orientation::Collinear,
        _ => Orientation::Right,
    }
""")]),
]
