"""C22: edits that keep the behaviour (BAD: edits that do not, reported)"""
S2="src/linestring_2d/simplify.rs"; L3="src/linestring_3d.rs"; SH="src/shape.rs"; H="src/linestring_2d/convex_hull.rs"; S3="src/linestring_3d/simplify.rs"
OPEN='''                link_tree
                    .keys()
                    .sorted_unstable()
                    .copied()
                    .chain('''
CL='''            .chain(link_tree.keys().sorted_unstable().copied())
            .map(|x| line[x])
            .collect()
'''
OBJ='''    for (k, v) in point_set.iter().sorted_unstable_by(|a, b| a.1.cmp(b.1)) {
        writeln!(file, "{} #{}", k, v + 1)?;
    }
'''
def e(id, *eds): return dict(id=id, mods="order", edits=list(eds))
EDITS=[
e("vw-btree",(S2,CL,'''            .chain(link_tree.keys().copied().collect::<std::collections::BTreeSet<_>>())
            .map(|x| line[x])
            .collect()
''')),
e("vw-vecsort",(S2,CL,'''            .chain({
                let mut left: Vec<usize> = link_tree.keys().copied().collect();
                left.sort();
                left
            })
            .map(|x| line[x])
            .collect()
''')),
e("vw-forpush",(S2,CL,'''            .chain({
                let mut left: Vec<usize> = Vec::with_capacity(link_tree.len());
                for k in link_tree.keys() {
                    left.push(*k);
                }
                left.sort_unstable();
                left
            })
            .map(|x| line[x])
            .collect()
''')),
e("vw-extend",(S2,CL,'''            .chain({
                let mut left: Vec<usize> = Vec::with_capacity(link_tree.len());
                left.extend(link_tree.keys());
                left.sort_unstable();
                left
            })
            .map(|x| line[x])
            .collect()
''')),
e("vw-foreach-set",(S2,CL,'''            .chain({
                let mut left = std::collections::BTreeSet::new();
                for k in link_tree.keys() {
                    let _ = left.insert(*k);
                }
                left
            })
            .map(|x| line[x])
            .collect()
''')),
e("vw-foreach-sort",(S2,CL,'''            .chain({
                let mut left: Vec<usize> = Vec::with_capacity(link_tree.len());
                link_tree.keys().for_each(|k| left.push(*k));
                left.sort();
                left
            })
            .map(|x| line[x])
            .collect()
''')),
e("vw-helper",(S2,CL,'''            .chain(in_order(link_tree.keys().copied()))
            .map(|x| line[x])
            .collect()
'''),(S2,'''/// A simple [Visvalingam''','''fn in_order(it: impl Iterator<Item = usize>) -> Vec<usize> {
    let mut v: Vec<usize> = it.collect();
    v.sort_unstable();
    v
}

/// A simple [Visvalingam''') if False else (S2,"pub(super) fn simplify_vw","""fn in_order(it: impl Iterator<Item = usize>) -> Vec<usize> {
    let mut v: Vec<usize> = it.collect();
    v.sort_unstable();
    v
}

pub(super) fn simplify_vw""")),
e("vw-filter",(S2,CL,'''            .chain((1..line.len()).filter(|i| link_tree.contains_key(i)))
            .map(|x| line[x])
            .collect()
''')),
e("vw-count",(S2,CL,'''            .chain({
                let n = link_tree.keys().filter(|k| **k < line.len()).count();
                debug_assert!(n <= line.len() && link_tree.values().all(|v| v.0 < v.1));
                let hi = link_tree.keys().copied().max().unwrap_or(0);
                (1..=hi).filter(|i| link_tree.contains_key(i)).take(n)
            })
            .map(|x| line[x])
            .collect()
''')),
e("obj-vec",(L3,OBJ,'''    let mut points: Vec<(&String, &usize)> = point_set.iter().collect();
    points.sort_by_key(|(_, v)| **v);
    for (k, v) in points {
        writeln!(file, "{} #{}", k, v + 1)?;
    }
''')),
e("obj-btree",(L3,OBJ,'''    let points: collections::BTreeMap<usize, &String> = point_set.iter().map(|(k, v)| (*v, k)).collect();
    for (v, k) in points {
        writeln!(file, "{} #{}", k, v + 1)?;
    }
''')),
e("obj-slots",(L3,OBJ,'''    let mut points: Vec<&str> = vec![""; point_set.len()];
    for (k, v) in point_set.iter() {
        points[*v] = k;
    }
    for (v, k) in points.iter().enumerate() {
        writeln!(file, "{} #{}", k, v + 1)?;
    }
''')),
e("obj-intoiter",(L3,OBJ,'''    for (k, v) in (&point_set).into_iter().sorted_by_key(|x| x.1) {
        writeln!(file, "{} #{}", k, v + 1)?;
    }
''')),
]
BAD=[
e("b-vw-open",(S2,OPEN,OPEN.replace("                    .sorted_unstable()\n",""))),
e("b-vw-closed",(S2,CL,CL.replace(".sorted_unstable()",""))),
e("b-vw-rev",(S2,CL,CL.replace("link_tree.keys().sorted_unstable().copied()","link_tree.keys().copied().collect::<Vec<_>>()"))),
e("b-vw-forpush",(S2,CL,'''            .chain({
                let mut left: Vec<usize> = Vec::with_capacity(link_tree.len());
                for k in link_tree.keys() {
                    left.push(*k);
                }
                left
            })
            .map(|x| line[x])
            .collect()
''')),
e("b-vw-foreach",(S2,CL,'''            .chain({
                let mut left: Vec<usize> = Vec::with_capacity(link_tree.len());
                link_tree.keys().for_each(|k| left.push(*k));
                left
            })
            .map(|x| line[x])
            .collect()
''')),
e("b-obj-walk",(L3,OBJ,OBJ.replace(".sorted_unstable_by(|a, b| a.1.cmp(b.1))",""))),
e("b-obj-len",(L3,OBJ,OBJ.replace("a.1.cmp(b.1)","a.0.len().cmp(&b.0.len())"))),
e("b-obj-enum",(L3,OBJ,'''    for (n, (k, _)) in point_set.iter().enumerate().sorted_unstable_by(|a, b| a.0.cmp(&b.0)) {
        writeln!(file, "{} #{}", k, n + 1)?;
    }
''')),
e("b-shape",(SH,'''    for v_id in 0..max_index + 1 {
        if let Some(neighbours) = adjacency_map.get(&v_id) {
            if neighbours.len() != 2 {
                termination_nodes.set(v_id);
                candidate_nodes.push((v_id, neighbours.clone()));
            }
        } else {
            // vertices not even mentioned in the indices list
            termination_nodes.set(v_id)
        }
    }
''','''    for (v_id, neighbours) in adjacency_map.iter() {
        if neighbours.len() != 2 {
            termination_nodes.set(*v_id);
            candidate_nodes.push((*v_id, neighbours.clone()));
        }
    }
''')),
e("b-shape-helper",(SH,'''    for v_id in 0..max_index + 1 {
        if let Some(neighbours) = adjacency_map.get(&v_id) {''','''    for v_id in adjacency_map.keys().copied().collect::<Vec<_>>() {
        if let Some(neighbours) = adjacency_map.get(&v_id) {''')),
e("b-float-sum",(S3,'''    let mut link_tree = AHashMap::<usize, (usize, usize, T::Scalar)>::default();''','''    let mut link_tree = AHashMap::<usize, (usize, usize, T::Scalar)>::default();
    let total: T::Scalar = link_tree.values().fold(T::Scalar::ZERO, |a, v| a + v.2);
    if total > T::Scalar::ONE {
        return vec![];
    }''')),
]
import os
if os.environ.get("BAD"):
    EDITS=BAD
