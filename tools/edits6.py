L3="src/linestring_3d.rs"; L2="src/linestring_2d.rs"; H="src/linestring_2d/convex_hull.rs"; IA="src/linestring_2d/intersection.rs"; IB="src/linestring_2d/indexed_intersection.rs"
TAIL='''        writeln!(file, "{} #{}", k, v + 1)?;
    }
    for i in lines.iter() {
        for j in i.iter() {
            let str0 = format!("v {:+e} {:+e} {:+e}", j.start.x(), j.start.y(), j.start.z());
            if let Some(p0) = point_set.get(&str0) {
                let str1 = format!("v {:+e} {:+e} {:+e}", j.end.x(), j.end.y(), j.end.z());
                if let Some(p1) = point_set.get(&str1) {
                    writeln!(file, "l {} {}", p0 + 1, p1 + 1)?;
                } else {
                    return Err(LinestringError::InternalError(format!(
                        "HashMap can't find the key:{}",
                        str1
                    )));
                }
            } else {
                return Err(LinestringError::InternalError(format!(
                    "HashMap can't find the key:{}",
                    str0
                )));
            }
        }
    }
    file.flush()?;
    Ok(())
}
'''
FILE="    let mut file = io::BufWriter::new(fs::File::create(filename)?);\n"
HEAD='    writeln!(file, "o {}", object_name)?;\n'
LOOP='''    for (k, v) in point_set.iter().sorted_unstable_by(|a, b| a.1.cmp(b.1)) {
        writeln!(file, "{} #{}", k, v + 1)?;
    }
'''
EDITS=[
dict(id="obj-match",mods="flow,c21",edits=[(L3,FILE,'''    let file = match fs::File::create(filename) {
        Ok(f) => f,
        Err(e) => return Err(e.into()),
    };
    let mut file = io::BufWriter::new(file);
''')]),
dict(id="obj-iflet",mods="flow,c21",edits=[(L3,HEAD,'''    if let Err(e) = writeln!(file, "o {}", object_name) {
        return Err(LinestringError::from(e));
    }
''')]),
dict(id="obj-tail",mods="flow,c21",edits=[(L3,"    file.flush()?;\n    Ok(())\n","    Ok(file.flush()?)\n")]),
dict(id="obj-tail2",mods="flow,c21",edits=[(L3,"    file.flush()?;\n    Ok(())\n","    file.flush().map_err(LinestringError::from)\n")]),
dict(id="obj-tail3",mods="flow,c21",edits=[(L3,"    file.flush()?;\n    Ok(())\n","    let done = file.flush();\n    if done.is_err() {\n        done?;\n    }\n    Ok(())\n")]),
dict(id="obj-into-inner",mods="flow,c21",edits=[(L3,"    file.flush()?;\n    Ok(())\n","    let _ = file.into_inner().map_err(|e| e.into_error())?;\n    Ok(())\n")]),
dict(id="obj-helper",mods="flow,c21",edits=[(L3,LOOP,'''    write_points(&mut file, &point_set)?;
'''),(L3,"pub struct DiscreteLineSegmentIterator<'a, T: GenericVector3> {",'''fn write_points<W: Write>(file: &mut W, point_set: &collections::HashMap<String, usize>) -> io::Result<()> {
    for (k, v) in point_set.iter().sorted_unstable_by(|a, b| a.1.cmp(b.1)) {
        writeln!(file, "{} #{}", k, v + 1)?;
    }
    Ok(())
}

pub struct DiscreteLineSegmentIterator<'a, T: GenericVector3> {''')]),
dict(id="obj-helper-all",mods="flow,c21",edits=[(L3,FILE,FILE+'''    write_obj(&mut file, object_name, lines, &point_set)?;
    file.flush()?;
    Ok(())
}

fn write_obj<T: GenericVector3, W: Write>(
    file: &mut W,
    object_name: &str,
    lines: &[Vec<Line3<T>>],
    point_set: &collections::HashMap<String, usize>,
) -> Result<(), LinestringError> {
'''),(L3,"    file.flush()?;\n    Ok(())\n}\n\npub struct","    Ok(())\n}\n\npub struct")]),
dict(id="obj-tryforeach",mods="flow,c21",edits=[(L3,LOOP,'''    point_set
        .iter()
        .sorted_unstable_by(|a, b| a.1.cmp(b.1))
        .try_for_each(|(k, v)| writeln!(file, "{} #{}", k, v + 1))?;
''')]),
dict(id="obj-string",mods="flow,c21",edits=[(L3,FILE+HEAD,'''    let mut text = Vec::<u8>::new();
    writeln!(text, "o {}", object_name)?;
'''),(L3,'        writeln!(file, "{} #{}", k, v + 1)?;','        writeln!(text, "{} #{}", k, v + 1)?;'),
 (L3,'                    writeln!(file, "l {} {}", p0 + 1, p1 + 1)?;','                    writeln!(text, "l {} {}", p0 + 1, p1 + 1)?;'),
 (L3,"    file.flush()?;\n    Ok(())\n","    fs::write(filename, text)?;\n    Ok(())\n"),]),
dict(id="obj-closure",mods="flow,c21",edits=[(L3,LOOP,'''    let mut put = |k: &String, v: &usize| -> io::Result<()> { writeln!(file, "{} #{}", k, v + 1) };
    for (k, v) in point_set.iter().sorted_unstable_by(|a, b| a.1.cmp(b.1)) {
        put(k, v)?;
    }
''')]),
dict(id="obj-okor",mods="flow,c21",edits=[(L3,TAIL[TAIL.index("            let str0"):TAIL.index("        }\n    }\n    file.flush")],'''            let id = |p: &T| {
                let key = format!("v {:+e} {:+e} {:+e}", p.x(), p.y(), p.z());
                point_set.get(&key).copied().ok_or_else(|| {
                    LinestringError::InternalError(format!("HashMap can't find the key:{}", key))
                })
            };
            writeln!(file, "l {} {}", id(&j.start)? + 1, id(&j.end)? + 1)?;
''')]),
dict(id="obj-andthen",mods="flow,c21",edits=[(L3,HEAD,'''    writeln!(file, "o {}", object_name).and_then(|_| file.flush())?;
''')]),
dict(id="obj-bytes",mods="flow,c21",edits=[(L3,HEAD,'''    file.write_all(b"o ")?;
    file.write_all(object_name.as_bytes())?;
    file.write_all(b"\\n")?;
''')]),
dict(id="obj-drop",mods="flow,c21",edits=[(L3,"    file.flush()?;\n    Ok(())\n","    file.flush()?;\n    drop(file);\n    Ok(())\n")]),
dict(id="par-and-then",mods="flow",edits=[(H,'''                match result {
                    Ok(indices) => combine_indexed_convex_hull(vertices, Ok(indices), partial_hull),
                    Err(some_err) => Err(some_err), // Pass through error
                }''','''                result.and_then(|indices| {
                    combine_indexed_convex_hull(vertices, Ok(indices), partial_hull)
                })''')]),
dict(id="par-direct",mods="flow",edits=[(H,'''                match result {
                    Ok(indices) => combine_indexed_convex_hull(vertices, Ok(indices), partial_hull),
                    Err(some_err) => Err(some_err), // Pass through error
                }''','''                combine_indexed_convex_hull(vertices, result, partial_hull)''')]),
dict(id="par-seq",mods="flow",edits=[(H,'''        let start_indexes = chunks
            .par_iter()
            .map(|chunk| {
                indexed_find_lowest_x(vertices, chunk).map(|(index_index, _)| chunk[index_index])
            })
            .collect::<Result<Vec<usize>, LinestringError>>()?;''','''        let mut start_indexes = Vec::with_capacity(chunks.len());
        for chunk in chunks.iter() {
            match indexed_find_lowest_x(vertices, chunk) {
                Ok((i, _)) => start_indexes.push(chunk[i]),
                Err(e) => return Err(e),
            }
        }''')]),
dict(id="par-tryreduce",mods="flow",edits=[(H,'''        .reduce(
            || Ok(vec![start_index]),
            |result, partial_hull| {
                match result {
                    Ok(indices) => combine_indexed_convex_hull(vertices, Ok(indices), partial_hull),
                    Err(some_err) => Err(some_err), // Pass through error
                }
            },
        )?;''','''        .try_reduce(
            || vec![start_index],
            |result, partial_hull| combine_indexed_convex_hull(vertices, Ok(result), Ok(partial_hull)),
        )?;''')]),

dict(id="obj-contains",mods="flow,c21",edits=[(L3,"            let _ = point_set.entry(a_str).or_insert(len);","            if !point_set.contains_key(&a_str) {\n                let _ = point_set.insert(a_str, len);\n            }",2)]),
dict(id="obj-ends",mods="flow,c21",edits=[(L3,"""            let a_str = format!("v {:+e} {:+e} {:+e}", j.start.x(), j.start.y(), j.start.z());
            let len = point_set.len();
            let _ = point_set.entry(a_str).or_insert(len);
            let a_str = format!("v {:+e} {:+e} {:+e}", j.end.x(), j.end.y(), j.end.z());
            let len = point_set.len();
            let _ = point_set.entry(a_str).or_insert(len);
""","""            for p in [j.start, j.end] {
                let len = point_set.len();
                let _ = point_set.entry(obj_vertex(p)).or_insert(len);
            }
"""),(L3,"pub struct DiscreteLineSegmentIterator<'a, T: GenericVector3> {","""fn obj_vertex<T: GenericVector3>(p: T) -> String {
    format!("v {:+e} {:+e} {:+e}", p.x(), p.y(), p.z())
}

pub struct DiscreteLineSegmentIterator<'a, T: GenericVector3> {""")]),
dict(id="obj-flatten",mods="flow,c21",edits=[(L3,"""    for i in lines.iter() {
        for j in i.iter() {
            let a_str = format!""","""    for i in [0] {
        let _ = i;
        for j in lines.iter().flatten() {
            let a_str = format!""")]),
dict(id="obj-sortvec",mods="flow,c21",edits=[(L3,"    for (k, v) in point_set.iter().sorted_unstable_by(|a, b| a.1.cmp(b.1)) {","    let mut sorted: Vec<(&String, &usize)> = point_set.iter().collect();\n    sorted.sort_by_key(|e| *e.1);\n    for (k, v) in sorted {")]),
dict(id="obj-list",mods="flow,c21",edits=[(L3,"""            let _ = point_set.entry(a_str).or_insert(len);
""","""            let _ = point_set.entry(a_str.clone()).or_insert_with(|| {
                listed.push(a_str);
                len
            });
""",2),(L3,"    // try to de-duplicate points\n","    let mut listed = Vec::new();\n"),(L3,LOOP,"""    for (i, k) in listed.iter().enumerate() {
        writeln!(file, "{} #{}", k, i + 1)?;
    }
""")]),
dict(id="obj-nocomment",mods="flow,c21",edits=[(L3,'writeln!(file, "{} #{}", k, v + 1)?;','let _ = v;\n        writeln!(file, "{}", k)?;')]),
dict(id="obj-index",mods="flow,c21",edits=[(L3,"            if let Some(p0) = point_set.get(&str0) {","            let known = point_set.get(&str0);\n            if let Some(p0) = known {")]),
]
