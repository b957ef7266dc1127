"""A blind round over C01-C21: changes that break a property (b-…) and changes that keep the behaviour (q-…)"""
L2="src/linestring_2d.rs"; L3="src/linestring_3d.rs"; H="src/linestring_2d/convex_hull.rs"; S2="src/linestring_2d/simplify.rs"; S3="src/linestring_3d/simplify.rs"
I="src/linestring_2d/intersection.rs"; X="src/linestring_2d/indexed_intersection.rs"; M2="src/linestring_2d/impls.rs"; M3="src/linestring_3d/impls.rs"
def e(id, mods, *eds): return dict(id=id, mods=mods, edits=list(eds))
EDITS=[
e("b-flat","c13",(S2,"if max_dist_sq <= distance_predicate_sq {\n        rv.push","if max_dist_sq < distance_predicate_sq {\n        rv.push")),
e("b-nosq3","c13",(S3,"simplify_rdp_recursive(&mut rv, line, distance_predicate * distance_predicate)","simplify_rdp_recursive(&mut rv, line, distance_predicate)")),
e("b-nosq3ix","c13",(S3,"        indices,\n        distance_predicate * distance_predicate,\n","        indices,\n        distance_predicate,\n")),
e("b-area3","c15",(L3,"let z = v1_x * v2_y - v2_x * v1_y;","let z = v1_x * v2_y + v2_x * v1_y;")),
e("b-any3","c16",(L3,".all(|(a, b)| a.is_abs_diff_eq(*b, epsilon))",".any(|(a, b)| a.is_abs_diff_eq(*b, epsilon))")),
e("b-len3","c16",(L3,"        self.len() == other.len()\n            && self\n                .iter()\n                .zip(other.iter())\n                .all(|(a, b)| a.is_abs","        self.len() <= other.len()\n            && self\n                .iter()\n                .zip(other.iter())\n                .all(|(a, b)| a.is_abs")),
e("q-short","c17",(L2,"if segment_length > T::Scalar::ZERO {","if segment_length > self.distance {")),
e("b-floor1","c17",(L3,"(segment_length / self.distance).ceil()","(segment_length / self.distance).floor() + T::Scalar::ONE")),
e("b-strict18","c18",(L2,"            if dist <= max_dist_transformed {\n                // Distance between parabola and line segment is less than max_dist.\n                let _ = point_stack.pop();\n                let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length\n                    + self.segment.start.x();\n                let inter_y = (segm_vec_x * new_y + segm_vec_y * new_x) / sqr_segment_length\n                    + self.segment.start.y();\n                let p","            if dist < max_dist_transformed {\n                // Distance between parabola and line segment is less than max_dist.\n                let _ = point_stack.pop();\n                let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length\n                    + self.segment.start.x();\n                let inter_y = (segm_vec_x * new_y + segm_vec_y * new_x) / sqr_segment_length\n                    + self.segment.start.y();\n                let p")),
e("b-straight","c18",(L2,"            -distance_to_line_squared_safe(self.segment.start, self.segment.end, self.start_point)","            -distance_to_line_squared_safe(self.segment.start, self.segment.end, self.end_point)")),
e("b-z","c18",(L2,"let z_comp = -T::new_2d(inter_x, inter_y).distance(self.cell_point);","let z_comp = -T::new_2d(inter_x, inter_y).distance_sq(self.cell_point).sqrt().max(-rv[0].z());")),
e("b-pc","c10",(L2,"if self.len() > 2 && self.is_connected()","if self.len() > 3 && self.is_connected()")),
e("q-tie9","c09",(L2,"t > T::Scalar::ZERO && t < nt =>","t > T::Scalar::ZERO && t <= nt =>")),
e("b-par9","c09",(L2,"                t0.min(t1)\n","                if t0 < T::Scalar::ZERO { t0.max(t1) } else { t0 }\n")),
e("q-three","c09",(L2,"if intersections.len() < 2 && !intersections.contains(&overlap_line.end)","if !intersections.contains(&overlap_line.end)"),(L2,"            if intersections.len() == 2 {\n                break;","            if intersections.len() >= 2 {\n                break;")),
e("b-aabb","c08",(L2,"|| self_max_y < other_min_y","|| self_max_y <= other_min_y")),
e("b-u1","c08",(L2,"                && (T::Scalar::ZERO..=T::Scalar::ONE).contains(&u)\n            {","                && (T::Scalar::ZERO..T::Scalar::ONE).contains(&u)\n            {")),
e("b-t1","c08",(L2,"let overlap_end = p + r * t1.min(T::Scalar::ONE);","let overlap_end = p + r * t1;")),
e("q-tie8","c08",(L2,"if other.distance_sq(a.start) < other.distance_sq(a.end) {","if other.distance_sq(a.start) <= other.distance_sq(a.end) {")),
e("q-seg","c07",(L2,"} else if dot > T::Scalar::ONE {","} else if dot >= T::Scalar::ONE {")),
e("b-safe7","c07",(L2,"        l0.distance_sq(p)\n    } else {\n        distance","        (l0 - p).dot(l0)\n    } else {\n        distance")),
e("b-dest","c05",(L2,"(destination_high[1] - destination_low[1]).max(min_dim),","destination_high[1] - destination_low[1],")),
e("b-fin","c05",(L2,"if x1.is_finite() && y1.is_finite() && x2.is_finite() && y2.is_finite() {\n            Ok([x1, y1, x2, y2])\n        } else {\n            Err(LinestringError::TransformError(\n                \"Transformation out of bounds\".to_string(),\n            ))\n        }\n    }\n\n    /// transform an array from source","if x1.is_finite() && y1.is_finite() && x2.is_finite() {\n            Ok([x1, y1, x2, y2])\n        } else {\n            Err(LinestringError::TransformError(\n                \"Transformation out of bounds\".to_string(),\n            ))\n        }\n    }\n\n    /// transform an array from source")),
e("b-swapxz","c04",(L3,".map(|p3d| T::Vector2::new_2d(p3d.x(), p3d.z()))",".map(|p3d| T::Vector2::new_2d(p3d.z(), p3d.x()))"),(L2,".map(|p2d| T::Vector3::new_3d(p2d.x(), T::Scalar::ZERO, p2d.y()))",".map(|p2d| T::Vector3::new_3d(p2d.y(), T::Scalar::ZERO, p2d.x()))")),
e("b-reldx","c04",(L3,"&(dz / max_delta), epsilon","&dz, epsilon")),
e("b-box2","c03",(L2,"                    && Self::contains_point_inclusive_(self_aabb, other_aabb.1);","                    && (other_aabb.0.x() == other_aabb.1.x() || self_aabb.1.x() >= other_aabb.1.x() && self_aabb.1.y() >= other_aabb.1.y());")),
e("b-skip3","c02",(L3,"        if point.y() > aabb_max.y() {","        else if point.y() > aabb_max.y() {")),
e("b-elseif2","c02",(L3,"        if point.z() < aabb_min.z() {\n            aabb_min.set_z(point.z());\n        }\n        if point.x() > aabb_max.x() {","        if point.z() < aabb_min.z() {\n            aabb_min.set_z(point.z());\n        } else if point.x() > aabb_max.x() {")),
e("b-skipfirst","c01",(L2,"        let (mut aabb_min, mut aabb_max) = self.min_max.unwrap();\n        for point in points.iter() {","        let (mut aabb_min, mut aabb_max) = self.min_max.unwrap();\n        for point in points.iter().skip(1) {")),
e("b-centre","c01",(L2,"                (low.y() + high.y()) / T::Scalar::TWO,\n            ));","                low.y() + (high.x() - low.x()) / T::Scalar::TWO,\n            ));")),
e("b-left","c06",(H,"cross_2d(a, b, c) > T::Scalar::ZERO","cross_2d(a, b, c) >= T::Scalar::ZERO")),
e("b-hull3","c11",(H,"        if !is_point_left(slice[slice.len() - 1], input[input_offset], p) {","        if !is_point_left_allow_collinear(slice[slice.len() - 1], input[input_offset], p) {")),
e("b-onept","c11",(H,"        1 => return p == input[0],\n        2 => {\n            if input[0] != input[1] {\n                return false;","        1 => return p.x() == input[0].x(),\n        2 => {\n            if input[0] != input[1] {\n                return false;")),
e("b-parempty","c11",(H,"    b.par_iter().all(|p| contains_point_inclusive(a, *p))","    b.par_iter().skip(1).all(|p| contains_point_inclusive(a, *p))")),
e("b-rev21","c21",(L3,'writeln!(file, "l {} {}", p0 + 1, p1 + 1)?;','writeln!(file, "l {} {}", p0.min(p1) + 1, p0.max(p1) + 1)?;')),
e("b-name21","c21",(L3,'writeln!(file, "o {}", object_name)?;','writeln!(file, "o {:.8}", object_name)?;')),
]
HEAVY=[
e("b-comb-lt","c14",(H,"found_a_legit_a_point = true;\n                } else if orient == Orientation::Collinear {\n                    let distance_sq_candidate =\n                        vertices[point_on_hull.index].distance_sq(vertices[j]);\n                    let distance_sq_end_point =\n                        vertices[point_on_hull.index].distance_sq(vertices[end_point.index]);\n\n                    if distance_sq_candidate > distance_sq_end_point","found_a_legit_a_point = true;\n                } else if orient == Orientation::Collinear {\n                    let distance_sq_candidate =\n                        vertices[point_on_hull.index].distance_sq(vertices[j]);\n                    let distance_sq_end_point =\n                        vertices[point_on_hull.index].distance_sq(vertices[end_point.index]);\n\n                    if distance_sq_candidate < distance_sq_end_point")),
e("b-comb-break-a","c14",(H,"                    if found_a_legit_a_point {\n                        break;","                    if found_a_legit_a_point || jj > 1 {\n                        break;")),
e("b-comb-break-b","c14",(H,"                    if found_a_legit_b_point {\n                        break;","                    if found_a_legit_b_point || jj > 1 {\n                        break;")),
e("b-par-start","c14",(H,"start_indexes[indexed_find_lowest_x(vertices, &start_indexes)?.0]","start_indexes[indexed_find_lowest_x(vertices, &start_indexes)?.0.min(1)]")),
e("b-gw-mark","c14",(H,"                } else if j != starting_point {\n","                } else if j != starting_point || hull.len() > 1 {\n")),
e("b-gs-coll","c14",(H,"            let cross = cross_2d(hull[last - 1], hull[last], *p);\n            if T::Scalar::ZERO > cross || ulps_eq!(cross, T::Scalar::ZERO) {","            let cross = cross_2d(hull[last - 1], hull[last], *p);\n            if T::Scalar::ZERO > cross {")),
e("b-wo-dist","c14",(H,"if dist_sb > dist_sc {","if dist_sb < dist_sc {")),
e("b-ix-last","c14",(H,"        // disregard the duplicated loop point if it exists\n        indices = &indices[0..indices.len() - 1];\n    }\n    if indices.len() <= 2 {\n        return Ok(indices.to_vec());\n    }\n    if indices.len() == 3 {\n        return if is_point_left(\n            vertices[indices[0]],\n            vertices[indices[1]],\n            vertices[indices[2]],\n        ) {\n            // input_indices was already CCW\n            Ok(indices.to_vec())\n        } else {\n            // Convert from CW to CCW\n            Ok(vec![indices[0], indices[2], indices[1]])\n        };\n    }\n    let starting_index","        // disregard the duplicated loop point if it exists\n        indices = &indices[0..indices.len() - 1];\n    }\n    if indices.len() <= 2 {\n        return Ok(indices.to_vec());\n    }\n    if indices.len() == 3 {\n        return if is_point_left(\n            vertices[indices[0]],\n            vertices[indices[1]],\n            vertices[indices[2]],\n        ) {\n            // input_indices was already CCW\n            Ok(indices.to_vec())\n        } else {\n            // Convert from CW to CCW\n            Ok(vec![indices[2], indices[0], indices[1]])\n        };\n    }\n    let starting_index")),
e("b-vw-two","c15",(S2,"link_tree.len() == 2 ||","link_tree.len() <= 3 ||")),
e("b-vw-prevlink","c15",(S2,"                    let _ = link_tree.insert(prev, (prev_prev, next, area));\n                    continue;\n                };","                    let _ = link_tree.insert(prev, (prev, next, area));\n                    continue;\n                };")),
e("b-vw-stale","c15",(S3,"if smallest.key != area {","if smallest.key > area {")),
e("b-si-skip","c12",(L2,".enumerate().skip(l0.0 + 1) {",".enumerate().skip(l0.0 + 2) {")),
e("b-si-vert","c12",(L2,"                Ok(Some(Intersection::Overlap(Line2 { start, end: middle })))\n            } else {\n                Ok(Some(Intersection::Overlap(Line2 { start: middle, end })))\n            };\n        }","                Ok(Some(Intersection::Overlap(Line2 { start, end: middle })))\n            } else {\n                Ok(None)\n            };\n        }")),
e("b-si-end","c12",(L2,"                        )) && (point.is_ulps_eq(","                        )) || (point.is_ulps_eq(")),
e("b-sw-gt","c19",(I,"if intersection_p.y() >= self.sweepline_pos.y()","if intersection_p.y() > self.sweepline_pos.y()")),
e("b-sw-drop","c19",(I,"                !event.drop.iter().flatten().any(|d| d == i)\n                    && is_at","                is_at")),
e("b-sw-stop","c19",(I,"if !result.is_empty() && self.stop_at_first_intersection {","if result.len() > 1 && self.stop_at_first_intersection {")),
e("b-sx-stop","c19",(X,"if !result.is_empty() && self.stop_at_first_intersection {","if result.len() > 1 && self.stop_at_first_intersection {")),
e("b-sx-fin","c19",(X,"is_finite()","is_normal()",7)),
]
import os
if os.environ.get("HEAVY"): EDITS=HEAVY
