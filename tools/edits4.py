L2="src/linestring_2d.rs"; L3="src/linestring_3d.rs"; I2="src/linestring_2d/impls.rs"; I3="src/linestring_3d/impls.rs"
EDITS=[
dict(id="disc-loop", mods="c17", edits=[(L2,"""        match self.points.len() - 1 {
            n if self.current_index < n => {
                if self.substep_index == 0 {""","""        let n = self.points.len() - 1;
        while self.current_index < n {
            {
                if self.substep_index == 0 {"""),
 (L2,"""                self.current_index += 1;
                self.substep_index = 0;
                self.next()
            }
            n if self.current_index == n => {
                // return the very last point of the list
                self.current_index += 1;
                self.substep_index = 0;
                return self.points.last().copied();
            }
            _ => None,
        }""","""                self.current_index += 1;
                self.substep_index = 0;
            }
        }
        if self.current_index == n {
            // return the very last point of the list
            self.current_index += 1;
            self.substep_index = 0;
            return self.points.last().copied();
        }
        None""")]),
dict(id="disc-get", mods="c17", edits=[(L3,"""        if self.points.is_empty() {
            return None;
        }
        match self.points.len() - 1 {
            n if self.current_index < n => {""","""        let last = self.points.len().checked_sub(1)?;
        match last {
            n if n > self.current_index => {"""),
 (L3,"""        let start_point = self.points[self.current_index];
        let end_point = self.points[self.current_index + 1];
        let direction = end_point - start_point;
        let segment_length = direction.magnitude();
        if segment_length > T::Scalar::ZERO {""","""        let ends = &self.points[self.current_index..self.current_index + 2];
        let direction = ends[1] - ends[0];
        let segment_length = direction.magnitude();
        if !(segment_length <= T::Scalar::ZERO) {""")]),
dict(id="arc-last", mods="c18", edits=[(L2,"""        while !point_stack.is_empty() {
            let new_x = point_stack[point_stack.len() - 1]; // was .top();
            let new_y = Self::parabola_y(new_x, rot_x, rot_y);

            // Compute coordinates of the point of the parabola that is
            // furthest from the current line segment.
            let mid_x = (new_y - cur_y) / (new_x - cur_x) * rot_y + rot_x;
            let mid_y = Self::parabola_y(mid_x, rot_x, rot_y);

            // Compute maximum distance between the given parabolic arc
            // and line segment that discretize it.
            let mut dist = (new_y - cur_y) * (mid_x - cur_x) - (new_x - cur_x) * (mid_y - cur_y);
            #[allow(clippy::suspicious_operation_groupings)]
            {
                dist = dist * dist
                    / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
            }
            if dist <= max_dist_transformed {
                // Distance between parabola and line segment is less than max_dist.
                let _ = point_stack.pop();
                let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length
                    + self.segment.start.x();
                let inter_y = (segm_vec_x * new_y + segm_vec_y * new_x) / sqr_segment_length
                    + self.segment.start.y();
                let p = T::new_2d(inter_x, inter_y);
                rv.push(p);
                cur_x = new_x;
                cur_y = new_y;
            } else {
                point_stack.push(mid_x);
            }
        }
""","""        while let Some(&new_x) = point_stack.last() {
            let new_y = Self::parabola_y(new_x, rot_x, rot_y);
            let (dx, dy) = (new_x - cur_x, new_y - cur_y);

            // Compute coordinates of the point of the parabola that is
            // furthest from the current line segment.
            let mid_x = dy / dx * rot_y + rot_x;
            let mid_y = Self::parabola_y(mid_x, rot_x, rot_y);

            // Compute maximum distance between the given parabolic arc
            // and line segment that discretize it.
            let area = dy * (mid_x - cur_x) - dx * (mid_y - cur_y);
            if area * area / (dx * dx + dy * dy) > max_dist_transformed {
                point_stack.push(mid_x);
                continue;
            }
            // Distance between parabola and line segment is less than max_dist.
            point_stack.pop();
            rv.push(T::new_2d(
                self.segment.start.x() + (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length,
                self.segment.start.y() + (segm_vec_x * new_y + segm_vec_y * new_x) / sqr_segment_length,
            ));
            cur_x = new_x;
            cur_y = new_y;
        }
""")]),
dict(id="arc-tail", mods="c18", edits=[(L2,"""        let last_position = rv.len() - 1;
        rv[last_position] = last_point;""","""        if let Some(l) = rv.last_mut() {
            *l = last_point;
        }"""),(L2,"""        let last_position = rv.len() - 1;
        rv[last_position] = self.end_point;
        rv""","""        rv.pop();
        rv.push(self.end_point);
        rv""")]),
dict(id="approx-loop", mods="c16", edits=[(L2,"""        self.len() == other.len()
            && self
                .iter()
                .zip(other.iter())
                .all(|(a, b)| a.is_ulps_eq(*b, epsilon, max_ulps))""","""        if self.len() != other.len() {
            return false;
        }
        for (i, a) in self.iter().enumerate() {
            if !a.is_ulps_eq(other[i], epsilon, max_ulps) {
                return false;
            }
        }
        true"""),(L3,"""        self.len() == other.len()
            && self
                .iter()
                .zip(other.iter())
                .all(|(a, b)| a.is_abs_diff_eq(*b, epsilon))""","""        self.len() == other.len()
            && !self
                .iter()
                .zip(other)
                .any(|(a, b)| !b.is_abs_diff_eq(*a, epsilon))""")]),
dict(id="eq-helper", mods="c16", edits=[(I2,"""        ulps_eq!(self.start.x(), other.start.x())
            && ulps_eq!(self.start.y(), other.start.y())
            && ulps_eq!(self.end.x(), other.end.x())
            && ulps_eq!(self.end.y(), other.end.y())
    }""","""        fn point_eq<T: GenericVector2>(a: T, b: T) -> bool {
            ulps_eq!(a.x(), b.x()) && ulps_eq!(a.y(), b.y())
        }
        point_eq(self.end, other.end) && point_eq(other.start, self.start)
    }"""),(I2,"""        match (self.min_max, other.min_max) {
            (Some(slf), Some(other)) => {
                ulps_eq!(slf.0.x(), other.0.x())
                    && ulps_eq!(slf.1.x(), other.1.x())
                    && ulps_eq!(slf.0.y(), other.0.y())
                    && ulps_eq!(slf.1.y(), other.1.y())
            }
            (None, None) => true,
            _ => false,
        }""","""        if let (Some((a, b)), Some((c, d))) = (self.min_max, other.min_max) {
            return Line2 { start: a, end: b } == Line2 { start: c, end: d };
        }
        self.min_max.is_none() && other.min_max.is_none()""")]),
]
