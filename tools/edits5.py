IA="src/linestring_2d/intersection.rs"; IB="src/linestring_2d/indexed_intersection.rs"
BOTH=lambda o,n,c=1: [(IA,o,n,c),(IB,o,n,c)]
EDITS=[
dict(id="sweep-formula", mods="c19", edits=BOTH("""    let slope = (y2 - y1) / (x2 - x1);

    let d = y1 - slope * x1;
    Some(((sweepline.y() - d) / slope, slope))""","""    let slope = (y2 - y1) / (x2 - x1);
    Some((x1 + (sweepline.y() - y1) / slope, slope))""")),
dict(id="sweep-any", mods="c19", edits=BOTH("""        'active_lines: for line_index in active_lines.iter() {
            for i in event.intersection.iter().flatten() {
                // lines intersecting at this point can never be left/right candidates
                if i == line_index {
                    continue 'active_lines;
                }
            }
""","""        for line_index in active_lines.iter() {
            // lines intersecting at this point can never be left/right candidates
            if event.intersection.iter().flatten().any(|i| i == line_index) {
                continue;
            }
""")),
dict(id="sweep-entry", mods="c19", edits=[(IA,"""        let value = if let Some(value) = result.get_mut(&key) {
            value
        } else {
            let _ = result.insert(key, Vec::default());
            result.get_mut(&key).unwrap()
        };

        for line in intersecting_lines {
            value.push(*line);
        }
        value.sort_unstable();""","""        let value = result.entry(key).or_default();
        value.extend(intersecting_lines.copied());
        value.sort_unstable();""")]),
dict(id="sweep-popfirst", mods="c19", edits=[(IA,"""                    if let Some((first_key, _)) = site_events.iter().next() {
                        let first_key = *first_key;
                        let v = site_events.remove(&first_key).ok_or_else(|| {
                            LinestringError::InternalError(format!(
                                "Found a key to pop but could not remove the value. {}:{}",
                                file!(),
                                line!()
                            ))
                        })?;
                        Some((first_key, v))
                    } else {
                        None
                    }""","""                    site_events.pop_first()""")]),
dict(id="sweep-queue", mods="c19", edits=[(IA,"""            if let Some(event) = site_events.get_mut(&key_start) {
                let mut lower = event.add.take().map_or(Vec::<usize>::new(), identity);
                lower.push(index);
                event.add = Some(lower);
            } else {
                let event = SiteEvent::with_add(&[index]);
                let _ = site_events.insert(key_start, event);
            }""","""            match site_events.get_mut(&key_start) {
                Some(event) => event.add.get_or_insert_with(Vec::new).push(index),
                None => {
                    let _ = site_events.insert(key_start, SiteEvent::with_add(&[index]));
                }
            }""")]),
dict(id="sweep-helper", mods="c19", edits=[(IA,"""                    // don't allow intersection 'behind' or 'at' current sweep-line position
                    if intersection_p.y() >= self.sweepline_pos.y()
                        && !(intersection_p.y() == self.sweepline_pos.y()
                            && intersection_p.x() < self.sweepline_pos.x())
                        && !intersection_p.is_ulps_eq(
                            self.sweepline_pos,
                            T::Scalar::default_epsilon(),
                            T::Scalar::default_max_ulps(),
                        )
                    {""","""                    // don't allow intersection 'behind' or 'at' current sweep-line position
                    if self.is_ahead(intersection_p) {"""),
 (IA,"""    fn find_new_events(""","""    fn is_ahead(&self, p: T) -> bool {
        if p.is_ulps_eq(
            self.sweepline_pos,
            T::Scalar::default_epsilon(),
            T::Scalar::default_max_ulps(),
        ) || p.y() < self.sweepline_pos.y()
        {
            return false;
        }
        p.y() > self.sweepline_pos.y() || p.x() >= self.sweepline_pos.x()
    }

    fn find_new_events(""")]),
dict(id="sweep-finite", mods="c19", edits=BOTH("""            if !(""","""            let bad = !("""),) if False else
dict(id="sweep-order", mods="c19", edits=[(IB,"""            self.lines.push(*aline);
""","""            self.lines.push((start_index, end_index));
""")]),
dict(id="sweep-minmax", mods="c19", edits=BOTH("""                    // this candidate is better.
                    self.slope
                        .update_left(true, candidate_slope, candidate_index);
                    self.best_left = Some(candidate_x);""","""                    // this candidate is better.
                    self.best_left = Some(candidate_x);
                    self.slope
                        .update_left(true, candidate_slope, candidate_index);""")),
dict(id="sweep-report", mods="c19", edits=BOTH("""        } else if removed_active_lines + added_active_lines + intersections_found > 1 {""","""        } else if removed_active_lines + added_active_lines + intersections_found >= 2 {""")),
dict(id="sweep-btreeset", mods="c19", edits=[(IA,"use ahash::AHashSet;\nuse std::{cmp::Ordering, collections::BTreeMap, convert::identity};","use std::{cmp::Ordering, collections::{BTreeMap, BTreeSet}, convert::identity};"),
 (IA,"AHashSet::<usize>","BTreeSet::<usize>"),(IA,"AHashSet<usize>","BTreeSet<usize>",2)]),
dict(id="sweep-early", mods="c19", edits=[(IA,"""        if let Some(event) = site_events.get_mut(position) {
            // there were already events at this point
            let mut intersections_added = 0;
            for new_intersection in intersecting_lines.iter() {""","""        if let Some(event) = site_events.get_mut(position) {
            // there were already events at this point
            let mut intersections_added = 0usize;
            for new_intersection in intersecting_lines {""")]),
dict(id="sweep-cmp", mods="c19", edits=BOTH("""                Some(Ordering::Equal)
            } else {
                self.pos.x().partial_cmp(&other.pos.x())
            }
        } else {
            self.pos.y().partial_cmp(&other.pos.y())
        }""","""                return Some(Ordering::Equal);
            }
            return self.pos.x().partial_cmp(&other.pos.x());
        }
        self.pos.y().partial_cmp(&other.pos.y())""")),
]
