L2="src/linestring_2d.rs"; L3="src/linestring_3d.rs"; I2="src/linestring_2d/impls.rs"; I3="src/linestring_3d/impls.rs"; S2="src/linestring_2d/simplify.rs"; S3="src/linestring_3d/simplify.rs"
EDITS=[
dict(id="vw-btree", mods="c15", edits=[(S2,"let mut link_tree = ahash::AHashMap::<usize, (usize, usize, T::Scalar)>::default();","let mut link_tree = std::collections::BTreeMap::<usize, (usize, usize, T::Scalar)>::new();"),
 (S2,"""                link_tree
                    .keys()
                    .sorted_unstable()
                    .copied()
""","""                link_tree
                    .keys()
                    .copied()
"""),(S2,"""            .chain(link_tree.keys().sorted_unstable().copied())
            .map(|x| line[x])
            .collect()
    }""","""            .chain(link_tree.keys().copied())
            .map(|x| line[x])
            .collect()
    }"""),(S2,"use itertools::Itertools;\n","")]),
dict(id="vw-while", mods="c15", edits=[(S3,"""    loop {
        if search_tree.is_empty() || deleted_nodes >= points_to_delete {
            break;
        }
        if let Some(smallest) = search_tree.pop() {
            if let Some(old_links) = link_tree.get(&smallest.index).copied() {
                let area = old_links.2;
                if smallest.key != area {
                    // we hit a lazily deleted node, try again
                    continue;
                } else {
                    let _ = link_tree.remove(&smallest.index);
                }
                deleted_nodes += 1;
""","""    while deleted_nodes < points_to_delete {
        let Some(smallest) = search_tree.pop() else {
            break;
        };
        {
            if let Some(old_links) = link_tree.get(&smallest.index).copied() {
                if !(smallest.key == old_links.2) {
                    continue;
                }
                link_tree.remove(&smallest.index);
                deleted_nodes += 1;
""")]),
dict(id="vw-vec", mods="c15", edits=[(S3,"""    [0_usize]
        .iter()
        .copied()
        .chain(link_tree.keys().sorted_unstable().copied())
        .map(|x| line[x])
        .collect()
""","""    let mut kept: Vec<usize> = link_tree.into_keys().collect();
    kept.sort_unstable();
    let mut rv = Vec::with_capacity(kept.len() + 1);
    rv.push(line[0]);
    for k in kept {
        rv.push(line[k]);
    }
    rv
"""),(S3,"use itertools::Itertools;\n","")]),
dict(id="vw-area", mods="c15", edits=[(L2,"""        let area = p1.x() * p2.y() + p2.x() * p3.y() + p3.x() * p1.y()
            - p1.x() * p3.y()
            - p2.x() * p1.y()
            - p3.x() * p2.y();
        area * area""","""        let u = p2 - p1;
        let v = p3 - p1;
        let area = u.perp_dot(v);
        area * area""")]),
dict(id="vw-links", mods="c15", edits=[(S2,"""                let prev_prev: Option<usize> = link_tree.get(&prev).map(|link| link.0);
                let next_next: Option<usize> = link_tree.get(&next).map(|link| link.1);

                if let Some(next_next) = next_next {
                    if let Some(prev_prev) = prev_prev {
                        let area = Line2::triangle_area_squared_times_4(
                            line[prev],
                            line[next % line_points_len],
                            line[next_next % line_points_len],
                        );
                        search_tree.push(PriorityDistance {
                            key: area,
                            index: next,
                        });
                        let _ = link_tree.insert(next, (prev, next_next, area));

                        let area = Line2::triangle_area_squared_times_4(
                            line[prev_prev],
                            line[prev],
                            line[next % line_points_len],
                        );
                        search_tree.push(PriorityDistance {
                            key: area,
                            index: prev,
                        });
                        let _ = link_tree.insert(prev, (prev_prev, next, area));
                        continue;
                    }
                }
""","""                let prev_prev: Option<usize> = link_tree.get(&prev).map(|link| link.0);
                let next_next: Option<usize> = link_tree.get(&next).map(|link| link.1);
"""),(S2,"""                    search_tree.push(PriorityDistance {
                        key: area,
                        index: prev,
                    });
                    let _ = link_tree.insert(prev, (prev_prev, next, area));
                    continue;
                };
""","""                    search_tree.push(PriorityDistance {
                        key: area,
                        index: prev,
                    });
                    let _ = link_tree.insert(prev, (prev_prev, next, area));
                };
""")]),
dict(id="vw-entry", mods="c15", edits=[(S2,"""            // point j is connected to point i and k
            let _ = link_tree.insert(j.0, (i.0, k.0, area));""","""            // point j is connected to point i and k
            link_tree.entry(j.0).or_insert((i.0, k.0, area));"""),(I2,"""        self.key.partial_cmp(&other.key).unwrap().reverse()""","""        other.key.partial_cmp(&self.key).unwrap()""")]),
]
