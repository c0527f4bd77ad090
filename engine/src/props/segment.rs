//! Segment intersection, queries of a line string against a line, rays.
use super::util::*;
use crate::dom::*;
use crate::hx;
use crate::Prop;
use linestring::linestring_2d::{intersect_line_point, Intersection, Line2, LineString2};
use vector_traits::*;

fn line<D: Dom>(a: P<D>, b: P<D>) -> Line2<D::V2> {
    Line2::new(a.v, b.v)
}

/// which four points: `anchor` fixes the first one (all differences still vary)
fn four<D: Dom>(d: &mut D, g: i64, anchor: Option<(i64, i64)>, sc: Sc) -> [P<D>; 4] {
    let a = match anchor {
        Some((x, y)) => cpt(d, x, y, sc),
        None => ptr(d, "a", 0, g, sc),
    };
    [a, ptr(d, "b", 0, g, sc), ptr(d, "c", 0, g, sc), ptr(d, "e", 0, g, sc)]
}

fn exist<D: Dom>(d: &mut D, g: i64, anchor: Option<(i64, i64)>, scales: usize) {
    let sc = scale(d, scales);
    let [a, b, c, e] = four(d, g, anchor, sc);
    let r = line(a, b).intersection_point(line(c, e));
    let m = seg_meet(a, b, c, e);
    match r {
        None => {
            d.cover("none");
            d.assert(!m, "the segments share a point but no intersection is reported");
        }
        Some(i) => {
            d.assert(m, "an intersection is reported for segments without a common point");
            match i {
                Intersection::Intersection(p) => {
                    d.cover("point");
                    obs2(d, p);
                }
                Intersection::Overlap(l) => {
                    d.cover("overlap");
                    obs2(d, l.start);
                    obs2(d, l.end);
                }
            }
        }
    }
}

fn place<D: Dom>(d: &mut D, g: i64, anchor: Option<(i64, i64)>, scales: usize) {
    let sc = scale(d, scales);
    let [a, b, c, e] = four(d, g, anchor, sc);
    match line(a, b).intersection_point(line(c, e)) {
        None => d.cover("none"),
        Some(Intersection::Intersection(p)) => {
            d.cover("point");
            let q = back(d, p, sc);
            let on = on_seg(a, b, q) & on_seg(c, e, q);
            d.assert(on, "the reported point is not on both segments");
            // collinear segments with more than one common point are an overlap
            let par = ((b.x - a.x) * (e.y - c.y) - (b.y - a.y) * (e.x - c.x)).is0();
            let more = par & ne2(a, b) & ne2(c, e) & orient(a, b, c).is0() & share_more(a, b, c, e);
            d.assert(!more, "segments overlapping in more than a point reported as a single point");
        }
        Some(Intersection::Overlap(l)) => {
            d.cover("overlap");
            let (s, t) = (back(d, l.start, sc), back(d, l.end, sc));
            let on = on_seg(a, b, s) & on_seg(c, e, s) & on_seg(a, b, t) & on_seg(c, e, t);
            d.assert(on, "the reported overlap is not part of both segments");
            d.assert(ne2(s, t), "the reported overlap is a single point");
            // the overlap is all of the common part: every end point that lies on the other segment is in it
            let mut all = d.lit(true);
            for (p, u, v) in [(a, c, e), (b, c, e), (c, a, b), (e, a, b)] {
                all = all & on_seg(u, v, p).implies(in_box(s, t, p));
            }
            d.assert(all, "the reported overlap is not the whole common part");
        }
    }
}
/// collinear, non-degenerate segments share more than one point
fn share_more<D: Dom>(a: P<D>, b: P<D>, c: P<D>, e: P<D>) -> D::B {
    let overlap1 = |p: D::E, q: D::E, r: D::E, s: D::E| {
        let (lo1, hi1) = (p.min(q), p.max(q));
        let (lo2, hi2) = (r.min(s), r.max(s));
        lo1.max(lo2).lt(hi1.min(hi2))
    };
    overlap1(a.x, b.x, c.x, e.x) | overlap1(a.y, b.y, c.y, e.y)
}

fn sym_order<D: Dom>(d: &mut D, g: i64) {
    let sc = (1, 1);
    let [a, b, c, e] = four(d, g, Some((2, 2)), sc);
    // swapping the segments or reversing one of them does not change whether they meet
    let k = d.choice("variant", 3);
    let r1 = line(a, b).intersection_point(line(c, e));
    let r2 = match k {
        0 => line(c, e).intersection_point(line(a, b)),
        1 => line(b, a).intersection_point(line(c, e)),
        _ => line(a, b).intersection_point(line(e, c)),
    };
    d.check(r1.is_some() == r2.is_some(), "existence depends on the order of the segments or of their end points");
    if let (Some(x), Some(y)) = (r1, r2) {
        match (x, y) {
            (Intersection::Intersection(p), Intersection::Intersection(q)) => {
                d.cover("point");
                let (p, q) = (back(d, p, sc), back(d, q, sc));
                d.assert(eq2(p, q), "the intersection point depends on the order");
            }
            (Intersection::Overlap(p), Intersection::Overlap(q)) => {
                d.cover("overlap");
                let (s, t) = (back(d, p.start, sc), back(d, p.end, sc));
                let (u, v) = (back(d, q.start, sc), back(d, q.end, sc));
                d.assert((eq2(s, u) & eq2(t, v)) | (eq2(s, v) & eq2(t, u)), "the overlap depends on the order");
            }
            _ => d.fail("point or overlap depends on the order"),
        }
    }
}

fn linepoint<D: Dom>(d: &mut D, g: i64, scales: usize) {
    let sc = scale(d, scales);
    let (a, b) = (ptr(d, "a", 0, g, sc), ptr(d, "b", 0, g, sc));
    let p = cpt(d, g / 2, g / 2, sc);
    let m = on_seg(a, b, p);
    match intersect_line_point(line(a, b), p.v) {
        None => {
            d.cover("off");
            d.assert(!m, "a point on the segment is not found");
        }
        Some(i) => {
            d.cover("on");
            d.assert(m, "a point off the segment is reported");
            let q = back(d, i.single(), sc);
            d.assert(eq2(p, q), "the reported point is another one");
        }
    }
}

pub fn s01(deep: bool) -> Prop {
    let mut hs = vec![];
    let g = if deep { 8 } else { 6 };
    let mut h = hx!("exist", format!("2 segments, one end point at ({0},{0}), the other three on 0..={1}²", g / 2, g), |d| exist(d, g, Some((g / 2, g / 2)), 1));
    h.must_cover = vec!["none", "point", "overlap"];
    hs.push(h);
    let g = if deep { 3 } else { 2 };
    hs.push(hx!("free", format!("2 segments, all four end points on 0..={g}²"), |d| exist(d, g, None, 1)));
    let g = if deep { 4 } else { 3 };
    hs.push(hx!("scaled", format!("first end point fixed, others on 0..={g}², coordinates scaled by 2^10, 2^-25, or offset by -4096"), |d| exist(d, g, Some((1, 2)), 4)));
    for h in hs.iter_mut() {
        h.merge = false;
    }
    Prop {
        id: "S01",
        functions: &["Line2::intersection_point", "Line2::precedes", "intersect_line_point"],
        bounds: "end points on the integer grids listed per harness; scaled and shifted grids".into(),
        assumptions: vec![],
        harnesses: hs,
    }
}
pub fn s02(deep: bool) -> Prop {
    let mut hs = vec![];
    let g = if deep { 6 } else { 4 };
    let mut h = hx!("place", format!("2 segments, one end point at ({0},{0}), others on 0..={1}²", g / 2, g), |d| place(d, g, Some((g / 2, g / 2)), 1));
    h.must_cover = vec!["none", "point", "overlap"];
    hs.push(h);
    let g = if deep { 3 } else { 2 };
    hs.push(hx!("free", format!("2 segments, all four end points on 0..={g}²"), |d| place(d, g, None, 1)));
    let g = if deep { 4 } else { 3 };
    hs.push(hx!("scaled", format!("first end point fixed, others on 0..={g}², scaled by 2^10, 2^-25 or offset by -4096"), |d| place(d, g, Some((1, 2)), 4)));
    let g = if deep { 4 } else { 3 };
    let mut h = hx!("order", format!("swapped / reversed segments, one end point fixed, others on 0..={g}²"), |d| sym_order(d, g));
    h.must_cover = vec!["point", "overlap"];
    hs.push(h);
    let g = if deep { 15 } else { 8 };
    let mut h = hx!("line-point", format!("segment with end points on 0..={g}² against the middle point"), |d| linepoint(d, g, 3));
    h.must_cover = vec!["on", "off"];
    hs.push(h);
    for h in hs.iter_mut() {
        h.merge = false;
    }
    Prop {
        id: "S02",
        functions: &["Line2::intersection_point", "intersect_line_point", "Intersection::single"],
        bounds: "end points on the integer grids listed per harness; scaled and shifted grids".into(),
        assumptions: vec![],
        harnesses: hs,
    }
}

// ------------------------------------------------------------------ line string against a line
/// line strings on 0..=8²
const STRINGS: &[&[(i64, i64)]] = &[
    &[(0, 0), (1, 6), (2, 1), (3, 8), (4, 0), (5, 7), (6, 2), (7, 8), (8, 0)],
    &[(0, 0), (8, 0), (8, 8), (0, 8), (0, 2), (6, 2), (6, 6), (2, 6), (2, 4), (4, 4)],
    &[(4, 4), (8, 4), (8, 6), (4, 4), (2, 8), (0, 6), (4, 4), (0, 2), (2, 0), (4, 1), (7, 0)],
    &[(0, 4), (2, 4), (3, 4), (5, 4), (6, 5), (6, 4), (7, 4), (7, 1), (8, 1)],
];
fn queries<D: Dom>(d: &mut D, g: i64, n: usize, scales: usize) {
    let sc = scale(d, scales);
    let mut p = vec![cpt(d, 1, 1, sc)];
    for i in 1..n {
        p.push(ptr(d, &format!("p{i}"), 0, g, sc));
    }
    let (c, e) = (ptr(d, "c", 0, g, sc), ptr(d, "e", 0, g, sc));
    queries_at(d, p, c, e, sc);
}
/// a given line string and a line with one free end
fn queries_long<D: Dom>(d: &mut D, plane: bool) {
    let sc = (1, 1);
    let t = STRINGS[d.choice("string", STRINGS.len())];
    let mut p: Vec<P<D>> = t.iter().map(|(x, y)| cpt(d, *x, *y, sc)).collect();
    if plane {
        p[t.len() / 2] = ptr(d, "p", 0, 8, sc);
    }
    let (x, y) = [(0, 4), (8, 1), (3, 0), (4, 4)][d.choice("line", 4)];
    let (c, e) = (cpt(d, x, y, sc), ptr(d, "e", 0, 8, sc));
    queries_at(d, p, c, e, sc);
}
fn queries_at<D: Dom>(d: &mut D, p: Vec<P<D>>, c: P<D>, e: P<D>, sc: Sc) {
    d.assume(ne2(c, e));
    for w in p.windows(2) {
        d.assume(ne2(w[0], w[1]));
    }
    for w in p.windows(3) {
        // no segment folds back onto the previous one
        let back = (w[1].x - w[0].x) * (w[2].x - w[1].x) + (w[1].y - w[0].y) * (w[2].y - w[1].y);
        d.assume(orient(w[0], w[1], w[2]).ne(D::E::c(0)) | back.gt(D::E::c(0)));
    }
    let ls: Vec<D::V2> = p.iter().map(|q| q.v).collect();
    let l = line(c, e);
    let all = ls.find_all_intersections(&l);
    let first = ls.intersection(&l);
    let (t0, t1) = ls.find_two_intersections(&l);
    // existence, segment by segment
    let meets: Vec<D::B> = p.windows(2).map(|w| seg_meet(w[0], w[1], c, e)).collect();
    let any = meets.iter().fold(d.lit(false), |x, y| x | *y);
    let lit = d.lit(first.is_some());
    d.assert(any.iff(lit), "first-intersection query: found or not found wrongly");
    let mut cnt = D::E::c(0);
    for m in &meets {
        cnt = cnt + D::E::ite(*m, D::E::c(1), D::E::c(0));
    }
    d.assert(cnt.eq(D::E::c(all.len() as i64)), "all-intersections query: wrong number of intersections");
    let lit = d.lit(t0.is_some());
    d.assert(any.iff(lit), "two-intersections query: found or not found wrongly");
    // every reported location is on the line and on the line string
    let mut ends: Vec<P<D>> = vec![];
    for i in &all {
        match i {
            Intersection::Intersection(q) => {
                d.cover("point");
                ends.push(back(d, *q, sc))
            }
            Intersection::Overlap(o) => {
                d.cover("overlap");
                let s = back(d, o.start, sc);
                let t = back(d, o.end, sc);
                ends.push(s);
                ends.push(t);
            }
        }
    }
    let on_ls = |d: &mut D, q: P<D>| {
        let mut on = d.lit(false);
        for w in p.windows(2) {
            on = on | on_seg(w[0], w[1], q);
        }
        on & on_seg(c, e, q)
    };
    for q in &ends {
        let on = on_ls(d, *q);
        d.assert(on, "all-intersections query: a location is not on both");
    }
    if let Some(i) = &first {
        let q = back(d, i.single(), sc);
        let on = on_ls(d, q);
        d.assert(on, "first-intersection query: the location is not on both");
    }
    let mut got = vec![];
    for t in [t0, t1].into_iter().flatten() {
        let q = back(d, t, sc);
        let on = on_ls(d, q);
        d.assert(on, "two-intersections query: a location is not on both");
        got.push(q);
    }
    // two different locations when there are two
    let mut differ = d.lit(false);
    for i in 0..ends.len() {
        for j in 0..i {
            differ = differ | ne2(ends[i], ends[j]);
        }
    }
    d.check(!(t0.is_none() && t1.is_some()), "two-intersections query: second without first");
    if got.len() == 2 {
        d.cover("two");
        d.assert(ne2(got[0], got[1]), "two-intersections query: the same location twice");
    } else {
        d.assert(!differ, "two-intersections query: the second location is missing");
    }
    // in the order of the line string: the i-th report belongs to the i-th segment that meets the line
    let mut k = 0;
    for w in p.windows(2) {
        let m = seg_meet(w[0], w[1], c, e);
        if d.branch(m) {
            if let Some(i) = all.get(k) {
                let q = back(d, i.single(), sc);
                d.assert(on_seg(w[0], w[1], q), "all-intersections query: locations out of order");
                if k == 0 {
                    if let Some(f) = &first {
                        let f = back(d, f.single(), sc);
                        d.assert(on_seg(w[0], w[1], f), "first-intersection query: not the first segment");
                    }
                }
            }
            k += 1;
        }
    }
}
fn closest<D: Dom>(d: &mut D, g: i64) {
    // Intersection::closest picks the nearer end of an overlap
    let sc = (1, 1);
    let (a, b, o) = (ptr(d, "a", 0, g, sc), ptr(d, "b", 0, g, sc), ptr(d, "o", 0, g, sc));
    let i = Intersection::Overlap(line(a, b));
    let c = i.closest(o.v);
    let q = back(d, c, sc);
    let d2 = |p: P<D>| (p.x - o.x).sq() + (p.y - o.y).sq();
    d.assert(eq2(q, a) | eq2(q, b), "not an end of the overlap");
    d.assert(d2(q).le(d2(a)) & d2(q).le(d2(b)), "not the closest end of the overlap");
    let s = back(d, i.single(), sc);
    d.assert(on_seg(a, b, s), "the single location is not on the overlap");
    let j: Intersection<D::V2> = Intersection::Intersection(a.v);
    let s = back(d, j.closest(o.v), sc);
    let t = back(d, j.single(), sc);
    d.assert(eq2(s, a) & eq2(t, a), "the location of a point intersection is another point");
}

pub fn s03(deep: bool) -> Prop {
    let mut hs = vec![];
    let g = if deep { 3 } else { 2 };
    let mut h = hx!("two-segments", format!("line string of 3 points starting at (1,1), line, all on 0..={g}²"), |d| queries(d, g, 3, 1));
    h.must_cover = vec!["point", "overlap", "two"];
    hs.push(h);
    if deep {
        hs.push(hx!("three-segments", "line string of 4 points starting at (1,1), line, all on 0..=2²", |d| queries(d, 2, 4, 1)));
    }
    let g = if deep { 2 } else { 1 };
    hs.push(hx!("scaled", format!("line string of 3 points starting at (1,1), line, all on 0..={g}², at four scales and offsets"), |d| queries(d, g, 3, 4)));
    hs.push(hx!("long", format!("{} line strings of 9 to 11 points, line from one of 4 points to anywhere on 0..=8²", STRINGS.len()), |d| queries_long(d, false)));
    if deep {
        hs.push(hx!("long-free", format!("{} line strings of 9 to 11 points with the middle one anywhere, line from one of 4 points to anywhere on 0..=8²", STRINGS.len()), |d| queries_long(d, true)));
    }
    hs.push(hx!("closest", "overlap ends and reference point on 0..=7²", |d| closest(d, 7)));
    for h in hs.iter_mut() {
        h.merge = false;
    }
    Prop {
        id: "S03",
        functions: &["LineString2::intersection", "LineString2::find_two_intersections", "LineString2::find_all_intersections", "Intersection::{single,closest}", "Line2::intersection_point"],
        bounds: "line strings of 3 (thorough: 4) free points, or 9 to 11 given ones (thorough: one free), and one line on the integer grids listed; no zero-length segments".into(),
        assumptions: vec!["the segments of the line string and the line are not single points".into(), "no segment folds back onto the previous one".into()],
        harnesses: hs,
    }
}

// ------------------------------------------------------------------ rays
fn ray_edge<D: Dom>(d: &mut D, g: i64, scales: usize) {
    let sc = scale(d, scales);
    let o = cpt(d, g / 2, g / 2, sc);
    let (a, b) = (ptr(d, "a", 0, g, sc), ptr(d, "b", 0, g, sc));
    // the direction is a vector: not shifted
    let (dx, sx) = d.i("dir.x", -2, 2);
    let (dy, sy) = d.i("dir.y", -2, 2);
    let dir = D::V2::new_2d(sx, sy);
    let rs = dx * (b.y - a.y) - dy * (b.x - a.x);
    d.assume(rs.ne(D::E::c(0)));
    let r = <Vec<D::V2> as LineString2<D::V2>>::ray_edge_intersection(o.v, dir, a.v, b.v);
    // the ray o + t·dir meets the segment for some t >= 0 (unique: not parallel)
    let qx = (a.x - o.x, a.y - o.y);
    let tn = qx.0 * (b.y - a.y) - qx.1 * (b.x - a.x);
    let un = qx.0 * dy - qx.1 * dx;
    let pos = rs.gt(D::E::c(0));
    let z = D::E::c(0);
    let hit = (pos & tn.ge(z) & un.ge(z) & un.le(rs)) | (!pos & tn.le(z) & un.le(z) & un.ge(rs));
    match r {
        None => {
            d.cover("miss");
            d.assert(!hit, "the ray meets the edge but nothing is reported");
        }
        Some(t) => {
            d.cover("hit");
            d.observe(t);
            d.assert(hit, "a hit is reported for a ray that misses the edge");
            let te = d.ex(t);
            // t·scale is the exact parameter
            let te = te * inv::<D>(sc);
            d.assert((te * rs).eq(tn), "wrong ray parameter");
        }
    }
}
/// an edge (or a single point) in the direction of the ray: hit exactly when some of it is at or in front of the origin
fn ray_parallel<D: Dom>(d: &mut D, g: i64, scales: usize) {
    let sc = scale(d, scales);
    let o = cpt(d, g / 2, g / 2, sc);
    let (a, b) = (ptr(d, "a", 0, g, sc), ptr(d, "b", 0, g, sc));
    let (dx, sx) = d.i("dir.x", -2, 2);
    let (dy, sy) = d.i("dir.y", -2, 2);
    let dir = D::V2::new_2d(sx, sy);
    let z = D::E::c(0);
    d.assume((dx * (b.y - a.y) - dy * (b.x - a.x)).is0());
    let dd = dx * dx + dy * dy;
    d.assume(dd.gt(z));
    let r = <Vec<D::V2> as LineString2<D::V2>>::ray_edge_intersection(o.v, dir, a.v, b.v);
    let line = ((a.x - o.x) * dy - (a.y - o.y) * dx).is0();
    // parameters of the ends, times dd
    let (ta, tb) = ((a.x - o.x) * dx + (a.y - o.y) * dy, (b.x - o.x) * dx + (b.y - o.y) * dy);
    let hit = line & (ta.ge(z) | tb.ge(z));
    match r {
        None => {
            d.cover("miss");
            d.assert(!hit, "the ray meets the edge but nothing is reported");
        }
        Some(t) => {
            d.cover("hit");
            d.observe(t);
            d.assert(hit, "a hit is reported for a ray that misses the edge");
            let te = d.ex(t) * inv::<D>(sc) * dd;
            let nearest = (te.eq(ta) & ta.ge(z) & (tb.ge(ta))) | (te.eq(tb) & tb.ge(z) & ta.ge(tb)) | (te.is0() & (ta.lt(z) | tb.lt(z)));
            d.assert(nearest, "wrong ray parameter on an edge along the ray");
        }
    }
}
fn ray_closest<D: Dom>(d: &mut D, g: i64, n: usize, scales: usize) {
    let sc = scale(d, scales);
    let mut p = vec![];
    for i in 0..n {
        p.push(ptr(d, &format!("p{i}"), 0, g, sc));
    }
    let o = cpt(d, 1, 1, sc);
    // a fixed set of directions, including negative and non-axis ones
    ray_closest_at(d, p, o, &[(1, 0), (0, -1), (-2, 1), (1, 2)], sc);
}
/// a given line string and a ray from anywhere
fn ray_long<D: Dom>(d: &mut D) {
    let sc = (1, 1);
    let t = STRINGS[d.choice("string", STRINGS.len())];
    let p: Vec<P<D>> = t.iter().map(|(x, y)| cpt(d, *x, *y, sc)).collect();
    let o = ptr(d, "o", -1, 9, sc);
    ray_closest_at(d, p, o, &[(17, 1), (-17, 1), (1, 19), (1, -19), (-13, -11), (13, 17), (3, -5), (-5, 7)], sc);
}
fn ray_closest_at<D: Dom>(d: &mut D, p: Vec<P<D>>, o: P<D>, dirs: &[(i64, i64)], sc: Sc) {
    let k = d.choice("direction", dirs.len());
    let (dx, dy) = (D::E::c(dirs[k].0), D::E::c(dirs[k].1));
    let dir = D::V2::new_2d(d.k(dirs[k].0 as f64), d.k(dirs[k].1 as f64));
    let mut rss = vec![];
    let z = D::E::c(0);
    let along = |q: P<D>| (q.x - o.x) * dx + (q.y - o.y) * dy;
    let dd = dx * dx + dy * dy;
    for w in p.windows(2) {
        let rs = dx * (w[1].y - w[0].y) - dy * (w[1].x - w[0].x);
        // an edge along the ray that starts at or behind the origin and ends in front of it has no nearest point in front
        let on = rs.is0() & ((w[0].x - o.x) * dy - (w[0].y - o.y) * dx).is0();
        let (t0, t1) = (along(w[0]), along(w[1]));
        d.assume(!(on & ((t0.le(z) & t1.gt(z)) | (t1.le(z) & t0.gt(z)))));
        rss.push(rs);
    }
    let ls: Vec<D::V2> = p.iter().map(|q| q.v).collect();
    let r = ls.closest_ray_intersection(dir, o.v);
    // edge hit strictly in front of the origin
    let hits: Vec<(D::B, D::E, D::E, [D::B; 2], [D::E; 2])> = p
        .windows(2)
        .zip(&rss)
        .map(|(w, rs)| {
            let q = (w[0].x - o.x, w[0].y - o.y);
            let tn = q.0 * (w[1].y - w[0].y) - q.1 * (w[1].x - w[0].x);
            let un = q.0 * dy - q.1 * dx;
            let pos = rs.gt(z);
            let cross = (pos & tn.gt(z) & un.ge(z) & un.le(*rs)) | (rs.lt(z) & tn.lt(z) & un.le(z) & un.ge(*rs));
            let on = rs.is0() & un.is0();
            let (t0, t1) = (along(w[0]), along(w[1]));
            (cross, tn, *rs, [on & t0.gt(z), on & t1.gt(z)], [t0, t1])
        })
        .collect();
    match r {
        None => {
            d.cover("miss");
            for (h, _, _, e, _) in hits {
                d.assert(!h & !e[0] & !e[1], "the ray hits an edge but nothing is reported");
            }
        }
        Some(q) => {
            d.cover("hit");
            obs2(d, q);
            let q = back(d, q, sc);
            // on the ray, at parameter t = ((q-o)·dir)/|dir|²
            let (vx, vy) = (q.x - o.x, q.y - o.y);
            let tt = vx * dx + vy * dy; // t·dd
            d.assert((vx * dy - vy * dx).is0() & tt.gt(z), "the reported point is not on the ray");
            let mut some = d.lit(false);
            for (h, tn, rs, e, ends) in &hits {
                // t_i = tn/rs
                let same = (tt * *rs).eq(*tn * dd);
                some = some | (*h & same);
                let cmp = (tt * *rs - *tn * dd) * *rs; // sign of t - t_i
                d.assert(h.implies(cmp.le(z)), "a closer edge is hit first");
                for (e, t) in e.iter().zip(ends) {
                    some = some | (*e & tt.eq(*t));
                    d.assert(e.implies(tt.le(*t)), "a closer edge along the ray is hit first");
                }
            }
            d.assert(some, "the reported point is on no edge");
        }
    }
}
pub fn s04(deep: bool) -> Prop {
    let mut hs = vec![];
    let g = if deep { 6 } else { 4 };
    let mut h = hx!("ray-edge", format!("edge on 0..={g}², origin in the middle, direction on -2..=2², not parallel"), |d| ray_edge(d, g, 4));
    h.must_cover = vec!["hit", "miss"];
    hs.push(h);
    let g = if deep { 6 } else { 4 };
    let mut h = hx!("ray-parallel", format!("edge on 0..={g}², origin in the middle, direction on -2..=2², parallel"), |d| ray_parallel(d, g, 4));
    h.must_cover = vec!["hit", "miss"];
    hs.push(h);
    let g = if deep { 5 } else { 3 };
    let mut h = hx!("closest-2", format!("line string of 3 points on 0..={g}², origin (1,1), 4 directions"), |d| ray_closest(d, g, 3, 1));
    h.must_cover = vec!["hit", "miss"];
    hs.push(h);
    let g = if deep { 3 } else { 2 };
    hs.push(hx!("closest-3", format!("line string of 4 points on 0..={g}², origin (1,1), 4 directions"), |d| ray_closest(d, g, 4, 1)));
    hs.push(hx!("closest-scaled", "line string of 3 points on 0..=2², origin (1,1), 4 directions, at six scales and offsets", |d| ray_closest(d, 2, 3, 6)));
    let mut h = hx!("closest-long", format!("{} line strings of 9 to 11 points, origin anywhere on -1..=9², 8 directions", STRINGS.len()), |d| ray_long(d));
    h.must_cover = vec!["hit", "miss"];
    hs.push(h);
    Prop {
        id: "S04",
        functions: &["LineString2::ray_edge_intersection", "LineString2::closest_ray_intersection"],
        bounds: "edges on the integer grids listed; directions as listed; up to 3 free edges or 8 to 10 given ones".into(),
        assumptions: vec!["closest hit: no edge lies along the ray on both sides of its origin".into(), "hits at the ray's origin itself are not reported by the closest query".into()],
        harnesses: hs,
    }
}
