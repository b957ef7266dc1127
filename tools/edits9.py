H="src/linestring_2d/convex_hull.rs"; L2="src/linestring_2d.rs"; I="src/linestring_2d/intersection.rs"; X="src/linestring_2d/indexed_intersection.rs"
S2="src/linestring_2d/simplify.rs"; S3="src/linestring_3d/simplify.rs"
def e(i,m,*ed): return dict(id=i,mods=m,edits=list(ed))
COLL="                    let distance_sq_candidate =\n                        vertices[point_on_hull.index].distance_sq(vertices[j]);\n                    let distance_sq_end_point =\n                        vertices[point_on_hull.index].distance_sq(vertices[end_point.index]);\n\n                    if distance_sq_candidate %s distance_sq_end_point"
src=open("/repo/"+H).read()
k=src.index("for (jj, j) in indices_a.iter().enumerate()"); m=src.index(COLL%">",k); 
tail=src[m:m+len(COLL%">")+400]
k2=src.index("for (jj, j) in indices_b.iter().enumerate()"); m2=src.index(COLL%">",k2); tail2=src[m2:m2+len(COLL%">")+330]
EDITS=[
e("b-comb-lt","c14",(H,tail,tail.replace(COLL%">",COLL%"<"))),
e("b-comb-ltb","c14",(H,tail2,tail2.replace(COLL%">",COLL%"<"))),
e("b-par-start","c14",(H,"start_indexes[indexed_find_lowest_x(vertices, &start_indexes)?.0]","start_indexes[indexed_find_lowest_x(vertices, &start_indexes)?.0.min(1)]")),
e("b-comb-skip","c14",(H,"for (jj, j) in indices_b.iter().enumerate() {","for (jj, j) in indices_b.iter().enumerate().skip(1) {")),
e("b-comb-skipa","c14",(H,"for (jj, j) in indices_a.iter().enumerate() {","for (jj, j) in indices_a.iter().enumerate().skip(1) {")),
e("b-coll3","c14",(H,"            Orientation::Collinear => {}","            Orientation::Collinear => return Ok(indices.to_vec()),")),
e("b-wo-dist","c14",(H,"if dist_sb > dist_sc {","if dist_sb < dist_sc {")),
e("b-wo-pop","c14",(H,"            if cross < T::Scalar::ZERO || ulps_eq!(cross, T::Scalar::ZERO) {","            if cross < T::Scalar::ZERO {")),
e("b-vw-prevlink","c15",(S2,"                    let _ = link_tree.insert(prev, (prev_prev, next, area));\n                    continue;\n                };","                    let _ = link_tree.insert(prev, (prev, next, area));\n                    continue;\n                };")),
e("b-vw-nextlink","c15",(S2,"                    let _ = link_tree.insert(next, (prev, next_next, area));\n\n","                    let _ = link_tree.insert(next, (next, next_next, area));\n\n")),
e("b-vw3-prev","c15",(S3,"link_tree.insert(next, (prev, next_next, area));","link_tree.insert(next, (next, next_next, area));",src and open("/repo/"+S3).read().count("link_tree.insert(next, (prev, next_next, area));"))),
e("b-sx-stop","c19",(X,"if !result.is_empty() && self.stop_at_first_intersection {","if result.len() > 1 && self.stop_at_first_intersection {")),
e("b-strict18","c18",(L2,"            if dist <= max_dist_transformed {","            if dist < max_dist_transformed {",2)),
e("q-short","c17",(L2,"if segment_length > T::Scalar::ZERO {","if segment_length > self.distance {")),
e("q-seg","c07",(L2,"} else if dot > T::Scalar::ONE {","} else if dot >= T::Scalar::ONE {")),
e("q-comb-both","c14",(H,"                if j == point_on_hull.index || j == end_point.index\n                /*|| visited.contains(&j)*/\n                {\n                    continue;\n                }\n","                if j == end_point.index || j == point_on_hull.index {\n                    continue;\n                }\n",2)),
e("q-coll3","c14",(H,"    if indices.len() == 3 {\n        match point_orientation(","    if indices.len() == 3 && !indices.is_empty() {\n        match point_orientation(")),
]
