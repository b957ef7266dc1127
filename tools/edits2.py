L2="src/linestring_2d.rs"; L3="src/linestring_3d.rs"; CH="src/linestring_2d/convex_hull.rs"; I2="src/linestring_2d/impls.rs"; I3="src/linestring_3d/impls.rs"; S2="src/linestring_2d/simplify.rs"; S3="src/linestring_3d/simplify.rs"
EDITS=[
dict(id="rdp-loop-max", mods="c13", edits=[(S3,"""    let (max_dist_sq, index) = points
        .iter()
        .enumerate()
        .skip(1)
        .take(points.len() - 2)
        .map(|(i, &point)| {
            (
                super::distance_to_line_squared_safe(start_point, end_point, point),
                i,
            )
        })
        .max_by(|(dist1, _), (dist2, _)| {
            dist1
                .partial_cmp(dist2)
                .unwrap_or(std::cmp::Ordering::Equal)
        })
        .unwrap_or((-T::Scalar::ONE, 0)); // default that's unlikely to be used
""","""    let mut max_dist_sq = -T::Scalar::ONE;
    let mut index = 0;
    for i in 1..points.len() - 1 {
        let dist = super::distance_to_line_squared_safe(start_point, end_point, points[i]);
        if index == 0 || dist >= max_dist_sq {
            max_dist_sq = dist;
            index = i;
        }
    }
""")]),
dict(id="rdp-stack", mods="c13", edits=[(S2,"""    if max_dist_sq <= distance_predicate_sq {
        rv.push(end_point);
    } else {
        simplify_rdp_recursive(rv, &points[..index + 1], distance_predicate_sq);
        simplify_rdp_recursive(rv, &points[index..], distance_predicate_sq);
    }
""","""    if max_dist_sq > distance_predicate_sq {
        let (head, _) = points.split_at(index + 1);
        let tail = &points[index..];
        for part in [head, tail] {
            simplify_rdp_recursive(rv, part, distance_predicate_sq);
        }
    } else {
        rv.push(end_point);
    }
""")]),
dict(id="rdp-index-early", mods="c13", edits=[(S2,"""    let mut simplified_indices = Vec::new();
    simplified_indices.push(indices[0]);
""","""    let distance_predicate_sq = distance_predicate * distance_predicate;
    let mut simplified_indices = Vec::with_capacity(indices.len());
    simplified_indices.extend(indices.first());
"""),(S2,"""        indices,
        distance_predicate * distance_predicate,
    );
""","""        indices,
        distance_predicate_sq,
    );
""")]),
dict(id="graham-helper", mods="c14", edits=[(CH,"""    for (p, _, _) in input_points.iter() {
        if *p == starting_point {
            continue;
        }
        while hull.len() > 1 {
            let last = hull.len() - 1;
            let cross = cross_2d(hull[last - 1], hull[last], *p);
            if T::Scalar::ZERO > cross || ulps_eq!(cross, T::Scalar::ZERO) {
                let _ = hull.pop();
            } else {
                break;
            }
        }
        //println!("pushing p:{:?}", p);
        hull.push(*p);
    }
""","""    for (p, _, _) in input_points.iter().filter(|(p, _, _)| *p != starting_point) {
        while hull.len() > 1
            && !point_orientation(hull[hull.len() - 2], hull[hull.len() - 1], *p).is_left()
        {
            hull.truncate(hull.len() - 1);
        }
        hull.push(*p);
    }
""")]),
dict(id="wrap-helper", mods="c14", edits=[(CH,"""            let orient =
                point_orientation(vertices[point_on_hull], vertices[end_point], vertices[j]);
            if orient == Orientation::Right {
                // replace end_point with the candidate if candidate is to the right,
                end_point = j;
            } else if orient == Orientation::Collinear {""","""            let from = vertices[point_on_hull];
            match point_orientation(from, vertices[end_point], vertices[j]) {
                Orientation::Left => continue,
                Orientation::Right => end_point = j,
                Orientation::Collinear => {"""),(CH,"""                    // This is a collinear point that is closer to the current point, mark it as visited
                    //println!("coll marking {:?}:{} as visited", input_points[j], j);
                    let _ = visited.set(j, true);
                }
            }
        }
""","""                    // This is a collinear point that is closer to the current point, mark it as visited
                    //println!("coll marking {:?}:{} as visited", input_points[j], j);
                    let _ = visited.set(j, true);
                }
                }
            }
        }
""")]),
dict(id="wrap-vec-bool", mods="c14", edits=[(CH,"""    let mut visited: vob::Vob<u32> = vob::Vob::new_with_storage_type(vertices.len());
    visited.resize(vertices.len(), false);
""","""    let mut visited = vec![false; vertices.len()];
"""),(CH,"""            let _ = visited.set(point_on_hull, true);
        }
        let mut end_point = (point_on_hull + 1) % vertices.len();
""","""            visited[point_on_hull] = true;
        }
        let mut end_point = if point_on_hull + 1 == vertices.len() {
            0
        } else {
            point_on_hull + 1
        };
"""),(CH,"""                    //println!("coll marking {:?}:{} as visited", input_points[j], j);
                    let _ = visited.set(j, true);
""","""                    visited[j] = true;
""")]),
dict(id="par-match", mods="c14", edits=[(CH,"""            |result, partial_hull| {
                match result {
                    Ok(indices) => combine_indexed_convex_hull(vertices, Ok(indices), partial_hull),
                    Err(some_err) => Err(some_err), // Pass through error
                }
            },
""","""            |result, partial_hull| combine_indexed_convex_hull(vertices, result, partial_hull),
""")]),
dict(id="lowest-fold", mods="c14", edits=[(CH,"""    let starting_point = find_lowest_x(vertices)?.0;

    let mut hull = Vec::with_capacity(vertices.len() / 2);
""","""    let (starting_point, _) = find_lowest_x(vertices)?;

    let mut hull = Vec::new();
""")]),
]
