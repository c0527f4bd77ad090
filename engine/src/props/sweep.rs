//! The sweep-line intersection of many segments (plain and indexed) and self-intersection of line strings.
use vector_traits::HasXY;
use super::util::*;
use crate::dom::*;
use crate::hx;
use crate::Prop;
use linestring::linestring_2d::indexed_intersection::IntersectionTester;
use linestring::linestring_2d::intersection::IntersectionData;
use linestring::linestring_2d::{Line2, LineString2};
use linestring::LinestringError;

type Seg<D> = (P<D>, P<D>);
type T4 = (i64, i64, i64, i64);
/// concrete segment sets on 0..=6²: crossings in one point, shared end points, horizontals, verticals, T-junctions
pub const SETS: &[&[T4]] = &[
    &[(0, 0, 6, 6), (0, 6, 6, 0), (0, 3, 6, 3), (3, 0, 3, 6), (1, 0, 5, 6)],
    &[(0, 0, 6, 0), (6, 0, 6, 6), (6, 6, 0, 6), (0, 6, 0, 0), (2, 2, 4, 4)],
    &[(0, 1, 6, 2), (0, 2, 6, 1), (0, 4, 6, 5), (0, 5, 6, 4), (1, 0, 1, 6)],
    &[(3, 3, 0, 0), (3, 3, 6, 1), (3, 3, 1, 6), (3, 3, 6, 6), (0, 5, 6, 5)],
    &[(0, 0, 5, 5), (1, 0, 6, 5), (2, 0, 2, 6), (0, 4, 4, 4), (5, 1, 1, 5)],
    &[(0, 3, 2, 3), (1, 1, 1, 3), (4, 0, 4, 6), (2, 6, 6, 2), (5, 5, 6, 6)],
    &[(0, 0, 2, 2), (0, 0, 4, 4), (0, 0, 6, 6), (0, 5, 6, 4), (1, 0, 1, 6)],
    &[(4, 3, 0, 3), (2, 3, 6, 3), (1, 3, 5, 3), (2, 0, 4, 6), (0, 6, 6, 0)],
    &[(3, 0, 1, 6), (3, 0, 2, 6), (3, 0, 4, 6), (6, 5, 0, 4), (3, 0, 5, 6)],
    &[(1, 0, 3, 4), (5, 0, 3, 4), (3, 1, 3, 4), (3, 4, 0, 6), (3, 4, 6, 6)],
];

/// segments on one another, on one line, or leaving one point in one direction
pub const BUNDLES: &[&[T4]] = &[
    &[(0, 0, 4, 4), (1, 1, 6, 6), (0, 0, 5, 5), (4, 0, 0, 4)],
    &[(0, 2, 4, 2), (1, 2, 6, 2), (2, 2, 5, 2), (3, 0, 1, 6)],
    &[(2, 0, 2, 4), (2, 1, 2, 6), (2, 2, 2, 5), (0, 1, 6, 4)],
    &[(4, 0, 0, 4), (6, -2, 2, 2), (5, -1, 1, 3), (0, 0, 3, 6)],
];

/// sets of 8 to 10 segments on 0..=8²: a star, a grid, a fan crossed by a comb, chains, many through two points
pub const BIG: &[&[T4]] = &[
    &[(0, 0, 8, 8), (8, 0, 0, 8), (0, 4, 8, 4), (4, 0, 4, 8), (2, 0, 6, 8), (6, 0, 2, 8), (0, 2, 8, 6), (0, 6, 8, 2)],
    &[(1, 0, 1, 8), (3, 0, 3, 8), (5, 0, 5, 8), (7, 0, 7, 8), (0, 1, 8, 1), (0, 3, 8, 3), (0, 5, 8, 5), (0, 7, 8, 7)],
    &[(4, 0, 0, 8), (4, 0, 2, 8), (4, 0, 4, 8), (4, 0, 6, 8), (4, 0, 8, 8), (0, 4, 8, 5), (0, 6, 8, 6), (1, 2, 7, 2), (8, 0, 8, 3)],
    &[(0, 0, 2, 4), (2, 4, 4, 0), (4, 0, 6, 4), (6, 4, 8, 0), (0, 2, 8, 2), (2, 4, 2, 8), (6, 4, 6, 8), (0, 8, 8, 8), (0, 6, 8, 7), (4, 2, 4, 8)],
    &[(0, 0, 6, 6), (0, 3, 6, 3), (3, 0, 3, 6), (6, 0, 0, 6), (8, 8, 4, 4), (4, 8, 8, 4), (6, 2, 6, 8), (2, 6, 8, 6), (0, 1, 1, 0)],
];

fn seg_sets<D: Dom>(d: &mut D, count: usize, free: usize, g: i64) -> Vec<Seg<D>> {
    let s = SETS[d.choice("set", SETS.len())];
    let mut v: Vec<Seg<D>> = s[..count]
        .iter()
        .map(|(a, b, c, e)| (cpt(d, *a, *b, (1, 1)), cpt(d, *c, *e, (1, 1))))
        .collect();
    for i in 0..free {
        let p = ptr(d, &format!("a{i}"), 0, g, (1, 1));
        let q = ptr(d, &format!("b{i}"), 0, g, (1, 1));
        d.assume(ne2(p, q));
        v.insert((i * 2 + 1).min(v.len()), (p, q));
    }
    v
}
fn seg_free<D: Dom>(d: &mut D, n: usize, g: i64, anchored: bool, fixed: bool) -> Vec<Seg<D>> {
    (0..n)
        .map(|i| {
            if i == 0 && fixed {
                let (x, y) = [(2, 2), (2, 1), (0, 2)][d.choice("first-end", 3)];
                return (cpt(d, 0, 1, (1, 1)), cpt(d, x, y, (1, 1)));
            }
            let p = if i == 0 && anchored { cpt(d, g / 2, g / 2, (1, 1)) } else { ptr(d, &format!("a{i}"), 0, g, (1, 1)) };
            let q = ptr(d, &format!("b{i}"), 0, g, (1, 1));
            d.assume(ne2(p, q));
            (p, q)
        })
        .collect()
}
pub struct Ev<D: Dom> {
    p: P<D>,
    lines: Vec<usize>,
}
fn plain<D: Dom>(d: &mut D, s: &[Seg<D>], ignore: bool, stop: bool, sc: Sc) -> Option<Vec<Ev<D>>> {
    let l: Vec<Line2<D::V2>> = s.iter().map(|(a, b)| Line2::new(a.v, b.v)).collect();
    let go = || -> Result<Vec<(D::V2, Vec<usize>)>, LinestringError> {
        Ok(IntersectionData::default()
            .with_ignore_end_point_intersections(ignore)?
            .with_stop_at_first_intersection(stop)?
            .with_lines(l.into_iter())?
            .compute()?
            .collect())
    };
    match go() {
        Ok(r) => Some(events(d, r, sc)),
        Err(_) => {
            d.fail("an error is returned for finite segments");
            None
        }
    }
}
fn events<D: Dom>(d: &mut D, r: Vec<(D::V2, Vec<usize>)>, sc: Sc) -> Vec<Ev<D>> {
    r.into_iter()
        .map(|(p, lines)| {
            obs2(d, p);
            Ev { p: back(d, p, sc), lines }
        })
        .collect()
}
fn indexed<D: Dom>(d: &mut D, s: &[Seg<D>], ignore: bool, stop: bool, sc: Sc) -> Option<Vec<Ev<D>>> {
    let mut vert: Vec<D::V2> = vec![];
    let mut edges: Vec<(usize, usize)> = vec![];
    for (a, b) in s {
        vert.push(b.v);
        vert.push(a.v);
        edges.push((vert.len() - 1, vert.len() - 2));
    }
    indexed_raw(d, vert, &edges, ignore, stop, sc)
}
fn indexed_raw<D: Dom>(d: &mut D, vert: Vec<D::V2>, edges: &[(usize, usize)], ignore: bool, stop: bool, sc: Sc) -> Option<Vec<Ev<D>>> {
    let n0 = vert.len();
    let keep = vert.clone();
    let go = || -> Result<(Vec<D::V2>, Vec<(usize, Vec<usize>)>), LinestringError> {
        let (v, r) = IntersectionTester::new(vert)
            .with_ignore_end_point_intersections(ignore)?
            .with_stop_at_first_intersection(stop)?
            .with_edges(edges.iter())?
            .compute()?;
        Ok((v, r.collect()))
    };
    match go() {
        Ok((v, r)) => {
            d.check(v.len() >= n0, "input vertices are missing from the output");
            let mut same = d.lit(true);
            for (x, y) in keep.iter().zip(v.iter()) {
                let (x, y) = (back(d, *x, sc), back(d, *y, sc));
                same = same & eq2(x, y);
            }
            d.assert(same, "input vertices have been moved");
            if r.iter().any(|(i, _)| *i >= v.len()) {
                d.fail("an intersection index is outside of the vertices");
                return None;
            }
            let ev = r.into_iter().map(|(i, l)| (v[i], l)).collect();
            Some(events(d, ev, sc))
        }
        Err(_) => {
            d.fail("an error is returned for finite segments");
            None
        }
    }
}
fn meet<D: Dom>(s: &[Seg<D>], i: usize, j: usize) -> D::B {
    seg_meet(s[i].0, s[i].1, s[j].0, s[j].1)
}
fn interior<D: Dom>(s: &Seg<D>, p: P<D>) -> D::B {
    on_seg(s.0, s.1, p) & ne2(s.0, p) & ne2(s.1, p)
}
/// p is a shared point of both segments and interior to at least one of them; or they overlap partly
fn meet_inside<D: Dom>(s: &[Seg<D>], i: usize, j: usize) -> D::B {
    let (a, b) = (&s[i], &s[j]);
    proper(a.0, a.1, b.0, b.1) | interior(a, b.0) | interior(a, b.1) | interior(b, a.0) | interior(b, a.1)
}
fn sound<D: Dom>(d: &mut D, s: &[Seg<D>], ev: &[Ev<D>], ignore: bool) {
    for e in ev {
        let mut on = d.lit(true);
        let mut ids = e.lines.clone();
        ids.sort_unstable();
        ids.dedup();
        d.check(ids.len() == e.lines.len(), "a segment is listed twice at one intersection");
        d.check(ids.len() > 1, "an intersection of less than two segments is reported");
        d.check(ids.iter().all(|l| *l < s.len()), "an unknown segment is reported");
        let mut inside = d.lit(false);
        for l in ids.iter().filter(|l| **l < s.len()) {
            on = on & on_seg(s[*l].0, s[*l].1, e.p);
            inside = inside | interior(&s[*l], e.p);
        }
        d.assert(on, "a reported intersection is not on every segment listed for it");
        if ignore {
            d.assert(inside, "end points meeting end points are reported although they are to be ignored");
        }
    }
    let mut differ = d.lit(true);
    for i in 0..ev.len() {
        for j in 0..i {
            if !known_split(d, &ev[i], &ev[j]) {
                differ = differ & ne2(ev[i].p, ev[j].p);
            }
        }
    }
    d.assert(differ, "the same intersection point is reported twice");
}
/// the recorded known finding kf:split, which only the native run can show: the crossing of the same two segments
/// computed again with swapped operands, beyond the code's 4 ulps but within 64
fn known_split<D: Dom>(d: &D, a: &Ev<D>, b: &Ev<D>) -> bool {
    if d.is_symbolic() || a.lines.iter().filter(|l| b.lines.contains(l)).count() < 2 {
        return false;
    }
    let (p, q) = ((d.show(a.p.v.x()), d.show(a.p.v.y())), (d.show(b.p.v.x()), d.show(b.p.v.y())));
    let within = |n: u32| approx::ulps_eq!(p.0, q.0, max_ulps = n) && approx::ulps_eq!(p.1, q.1, max_ulps = n);
    within(64) && !within(4)
}
fn kf_split<D: Dom>(d: &mut D, idx: bool) {
    let mut s: Vec<Seg<D>> = BIG[4].iter().map(|(a, b, c, e)| (cpt(d, *a, *b, (1, 1)), cpt(d, *c, *e, (1, 1)))).collect();
    s[1].1 = ptr(d, "q", 0, 8, (1, 1));
    let ev = if idx { indexed(d, &s, true, false, (1, 1)) } else { plain(d, &s, true, false, (1, 1)) };
    if let Some(ev) = ev {
        let mut differ = d.lit(true);
        for i in 0..ev.len() {
            for j in 0..i {
                differ = differ & ne2(ev[i].p, ev[j].p);
            }
        }
        d.assert(differ, "the same intersection point is reported twice");
    }
}
/// the recorded known finding kf:reversed: the indexed algorithm computes a crossing with the given direction of a
/// segment; of segments on one line, given in different directions, the crossing with another comes out twice
fn kf_reversed<D: Dom>(d: &mut D) {
    let t: [T4; 5] = [(2, 0, 0, 1), (0, 0, 4, 4), (1, 1, 6, 6), (5, 5, 0, 0), (0, 4, 4, 0)];
    let mut s: Vec<Seg<D>> = t.iter().map(|(a, b, c, e)| (cpt(d, *a, *b, (1, 1)), cpt(d, *c, *e, (1, 1)))).collect();
    s[0].1 = ptr(d, "q", 0, 8, (1, 1));
    if let Some(ev) = indexed(d, &s, false, false, (1, 1)) {
        let mut differ = d.lit(true);
        for i in 0..ev.len() {
            for j in 0..i {
                differ = differ & ne2(ev[i].p, ev[j].p);
            }
        }
        d.assert(differ, "the same intersection point is reported twice");
    }
}
fn complete<D: Dom>(d: &mut D, s: &[Seg<D>], ev: &[Ev<D>], ignore: bool) {
    // every pair that meets is reported together
    for i in 0..s.len() {
        for j in 0..i {
            let together = ev.iter().any(|e| e.lines.contains(&i) && e.lines.contains(&j));
            if together {
                d.cover("pair");
                continue;
            }
            let m = if ignore { meet_inside(s, i, j) } else { meet(s, i, j) };
            d.assert(!m, "two segments that meet are not reported together");
        }
    }
    // every segment through a reported point is listed there
    for e in ev {
        for (l, x) in s.iter().enumerate() {
            if !e.lines.contains(&l) {
                d.assert(!on_seg(x.0, x.1, e.p), "a segment through a reported intersection is not listed");
            }
        }
    }
}
fn no_coincide<D: Dom>(d: &mut D, s: &[Seg<D>]) {
    for i in 0..s.len() {
        for j in 0..i {
            let (a, b) = (s[i], s[j]);
            let same = (eq2(a.0, b.0) & eq2(a.1, b.1)) | (eq2(a.0, b.1) & eq2(a.1, b.0));
            d.assume(!same);
        }
    }
}
#[derive(Clone, Copy, PartialEq)]
enum What {
    Sound,
    Complete,
}
fn judge<D: Dom>(d: &mut D, s: &[Seg<D>], ev: &[Ev<D>], ignore: bool, w: What) {
    if ev.is_empty() {
        d.cover("none");
    } else {
        d.cover("some");
    }
    match w {
        What::Sound => sound(d, s, ev, ignore),
        What::Complete => complete(d, s, ev, ignore),
    }
}
#[derive(Clone, Copy)]
enum Src {
    Free { n: usize, g: i64, anchored: bool, fixed: bool },
    Set { n: usize, free: usize, g: i64 },
    /// two segments at several scales and offsets
    Scaled { g: i64 },
    /// one free segment, at one of three places, among overlapping ones
    Bundle { g: i64 },
    /// many segments, one with a free end
    Big { g: i64 },
}
fn src<D: Dom>(d: &mut D, s: Src, sc: Sc) -> Vec<Seg<D>> {
    match s {
        Src::Scaled { g } => {
            let p: Vec<P<D>> = (0..4).map(|i| if i == 0 { cpt(d, g / 2, g / 2, sc) } else { ptr(d, &format!("a{i}"), 0, g, sc) }).collect();
            d.assume(ne2(p[0], p[1]) & ne2(p[2], p[3]));
            vec![(p[0], p[1]), (p[2], p[3])]
        }
        Src::Big { g } => {
            let t = BIG[d.choice("set", BIG.len())];
            let mut v: Vec<Seg<D>> = t.iter().map(|(a, b, c, e)| (cpt(d, *a, *b, sc), cpt(d, *c, *e, sc))).collect();
            let k = [1, v.len() / 2, v.len() - 1][d.choice("segment", 3)];
            let q = ptr(d, "q", 0, g, sc);
            d.assume(ne2(v[k].0, q));
            v[k].1 = q;
            v
        }
        Src::Bundle { g } => {
            let t = BUNDLES[d.choice("set", BUNDLES.len())];
            let mut v: Vec<Seg<D>> = t.iter().map(|(a, b, c, e)| (cpt(d, *a, *b, sc), cpt(d, *c, *e, sc))).collect();
            let k = [0, 2, v.len()][d.choice("place", 3)];
            let (p, q) = (ptr(d, "a", 0, g, sc), ptr(d, "b", 0, g, sc));
            d.assume(ne2(p, q));
            v.insert(k, (p, q));
            v
        }
        Src::Free { n, g, anchored, fixed } => seg_free(d, n, g, anchored, fixed),
        Src::Set { n, free, g } => seg_sets(d, n, free, g),
    }
}
fn one<D: Dom>(d: &mut D, x: Src, idx: bool, ignore: bool, w: What) {
    let sc = if let Src::Scaled { .. } = x { scale(d, 6) } else { (1, 1) };
    let s = src(d, x, sc);
    if ignore {
        no_coincide(d, &s);
    }
    let ev = if idx { indexed(d, &s, ignore, false, sc) } else { plain(d, &s, ignore, false, sc) };
    if let Some(ev) = ev {
        judge(d, &s, &ev, ignore, w);
    }
}
fn srcs(deep: bool) -> Vec<(String, String, Src)> {
    if !deep {
        return vec![
            ("free-2-scaled".to_string(), "2 segments, one end point fixed, others on 0..=2², at 6 scales and offsets".to_string(), Src::Scaled { g: 2 }),
            ("big".to_string(), format!("{} sets of 8 to 10 segments, one end of one of three of them anywhere on 0..=8²", BIG.len()), Src::Big { g: 8 }),
            ("free-2".to_string(), "2 segments, one end point fixed, others on 0..=3²".to_string(), Src::Free { n: 2, g: 3, anchored: true, fixed: false }),
            ("free-3".into(), "3 segments, the first of 3 fixed ones, the others on 0..=2²".into(), Src::Free { n: 3, g: 2, anchored: true, fixed: true }),
            ("bundle".into(), format!("{} sets of 4 segments, three of which overlap, and one free segment on 0..=3² at one of three places among them", BUNDLES.len()), Src::Bundle { g: 3 }),
            ("set".into(), format!("{} sets of 4 segments on 0..=6² and one free segment on 0..=4²", SETS.len()), Src::Set { n: 4, free: 1, g: 4 }),
        ];
    }
    vec![
        ("free-2-scaled".to_string(), "2 segments, one end point fixed, others on 0..=3², at 6 scales and offsets".to_string(), Src::Scaled { g: 3 }),
        ("big".to_string(), format!("{} sets of 8 to 10 segments, one end of one of three of them anywhere on 0..=8²", BIG.len()), Src::Big { g: 8 }),
        ("free-2d".to_string(), "2 segments, one end point fixed, others on 0..=5²".to_string(), Src::Free { n: 2, g: 5, anchored: true, fixed: false }),
        ("free-3d".into(), "3 segments, one end point fixed, others on 0..=2²".into(), Src::Free { n: 3, g: 2, anchored: true, fixed: false }),
        ("bundle".into(), format!("{} sets of 4 segments, three of which overlap, and one free segment on 0..=5² at one of three places among them", BUNDLES.len()), Src::Bundle { g: 5 }),
        ("set-4".into(), format!("{} sets of 4 segments and one free segment on 0..=6²", SETS.len()), Src::Set { n: 4, free: 1, g: 6 }),
        ("set-5".into(), format!("{} sets of 5 segments and one free segment on 0..=6²", SETS.len()), Src::Set { n: 5, free: 1, g: 6 }),
        ("set-3".into(), format!("{} sets of 3 segments and two free segments on 0..=2²", SETS.len()), Src::Set { n: 3, free: 2, g: 2 }),
        ("free-3".into(), "3 segments, the first of 3 fixed ones, the others on 0..=3²".into(), Src::Free { n: 3, g: 3, anchored: true, fixed: true }),
    ]
}
fn many(deep: bool, idx: bool, w: What) -> Vec<crate::explore::Harness> {
    let mut hs = vec![];
    for ignore in [false, true] {
        for (n, t, x) in srcs(deep) {
            let mut h = hx!(format!("{n}{}", if ignore { "-ignoring-ends" } else { "" }), t, |d| one(d, x, idx, ignore, w));
            h.must_cover = vec!["some"];
            h.merge = false;
        h.tie_flips = false;
            hs.push(h);
        }
    }
    hs
}
const FNS: &[&str] = &["IntersectionData::{with_lines,compute,with_ignore_end_point_intersections}", "Line2::intersection_point", "handle_event, find_new_events, MinMax, MinMaxSlope (through compute)"];
const IFNS: &[&str] = &["IntersectionTester::{new,with_edges,compute,with_ignore_end_point_intersections}", "Line2::intersection_point", "handle_event, find_new_events (through compute)"];
const BND: &str = "2 or 3 free segments on integer grids; 5 (thorough: 6) segments of which 1 (thorough: 2) are free; 8 to 10 segments of which one has a free end; 2 segments at six scales and offsets";
fn asm() -> Vec<String> {
    vec!["no segment is a single point".into(), "when end points are ignored: no two segments coincide".into(), "segments overlapping on one line run in one direction, except for the free one (known finding kf:reversed)".into(), "coordinates are small integers, so that no two different heights or abscissas agree within the crate's own tolerance".into()]
}
pub fn w01(deep: bool) -> Prop {
    Prop { id: "W01", functions: FNS, bounds: BND.into(), assumptions: asm(), harnesses: many(deep, false, What::Complete) }
}
fn with_split(mut hs: Vec<crate::explore::Harness>, idx: bool) -> Vec<crate::explore::Harness> {
    hs.push(hx!("kf:split", "a crossing computed twice with different rounding", |d| kf_split(d, idx)));
    if idx {
        hs.push(hx!("kf:reversed", "collinear segments in different directions", |d| kf_reversed(d)));
    }
    hs
}
pub fn w02(deep: bool) -> Prop {
    Prop { id: "W02", functions: FNS, bounds: BND.into(), assumptions: asm(), harnesses: with_split(many(deep, false, What::Sound), false) }
}
pub fn w03(deep: bool) -> Prop {
    Prop { id: "W03", functions: IFNS, bounds: BND.into(), assumptions: asm(), harnesses: many(deep, true, What::Complete) }
}
pub fn w04(deep: bool) -> Prop {
    Prop { id: "W04", functions: IFNS, bounds: BND.into(), assumptions: asm(), harnesses: with_split(many(deep, true, What::Sound), true) }
}
fn same_events<D: Dom>(d: &mut D, x: &[Ev<D>], y: &[Ev<D>], label: &str) {
    if x.len() != y.len() {
        d.fail(label);
        return;
    }
    for (p, q) in x.iter().zip(y) {
        let mut l0 = p.lines.clone();
        let mut l1 = q.lines.clone();
        l0.sort_unstable();
        l1.sort_unstable();
        d.check(l0 == l1, label);
        d.assert(eq2(p.p, q.p), label);
    }
}
/// the iteration order of hash tables must not show
fn hash_order<D: Dom>(d: &mut D, x: Src, idx: bool) {
    let s = src(d, x, (1, 1));
    let ignore = d.choice("ignore", 2) == 1;
    let base = if idx { indexed(d, &s, ignore, false, (1, 1)) } else { plain(d, &s, ignore, false, (1, 1)) };
    // the seed is chosen while the tables are built
    let l: Vec<Line2<D::V2>> = s.iter().map(|(a, b)| Line2::new(a.v, b.v)).collect();
    let r = if idx {
        let mut vert: Vec<D::V2> = vec![];
        let mut edges: Vec<(usize, usize)> = vec![];
        for (a, b) in &s {
            vert.push(b.v);
            vert.push(a.v);
            edges.push((vert.len() - 1, vert.len() - 2));
        }
        d.with_env(&["hash-seed"], || -> Result<Vec<(D::V2, Vec<usize>)>, LinestringError> {
            let (v, r) = IntersectionTester::new(vert).with_ignore_end_point_intersections(ignore)?.with_edges(edges.iter())?.compute()?;
            Ok(r.map(|(i, l)| (v[i], l)).collect())
        })
    } else {
        d.with_env(&["hash-seed"], || -> Result<Vec<(D::V2, Vec<usize>)>, LinestringError> {
            Ok(IntersectionData::default().with_ignore_end_point_intersections(ignore)?.with_lines(l.into_iter())?.compute()?.collect())
        })
    };
    match (base, r) {
        (Some(b), Ok(r)) => {
            let e = events(d, r, (1, 1));
            if !e.is_empty() {
                d.cover("some");
            }
            let label = "the result depends on the iteration order of a hash table";
            same_events(d, &b, &e, label);
            d.check(b.iter().zip(&e).all(|(x, y)| x.lines == y.lines), label);
        }
        (None, Err(_)) => (),
        _ => d.fail("success depends on the iteration order of a hash table"),
    }
}
fn agree<D: Dom>(d: &mut D, x: Src, shared: bool) {
    let s = src(d, x, (1, 1));
    let ignore = d.choice("ignore", 2) == 1;
    let a = plain(d, &s, ignore, false, (1, 1));
    let b = if shared {
        // segments joined in one vertex list: consecutive ones share the index of a vertex
        let mut vert: Vec<D::V2> = vec![s[0].0.v];
        let mut edges = vec![];
        for (_, q) in &s {
            vert.push(q.v);
            edges.push((vert.len() - 2, vert.len() - 1));
        }
        indexed_raw(d, vert, &edges, ignore, false, (1, 1))
    } else {
        indexed(d, &s, ignore, false, (1, 1))
    };
    if let (Some(a), Some(b)) = (a, b) {
        if !a.is_empty() {
            d.cover("some");
        }
        same_events(d, &a, &b, "the indexed and the plain algorithm disagree");
    }
}
fn agree_chain<D: Dom>(d: &mut D, n: usize, g: i64) {
    let mut p = vec![cpt(d, g / 2, g / 2, (1, 1))];
    for i in 1..=n {
        let q = ptr(d, &format!("p{i}"), 0, g, (1, 1));
        d.assume(ne2(q, p[i - 1]));
        p.push(q);
    }
    let s: Vec<Seg<D>> = p.windows(2).map(|w| (w[0], w[1])).collect();
    let ignore = d.choice("ignore", 2) == 1;
    let a = plain(d, &s, ignore, false, (1, 1));
    let edges: Vec<(usize, usize)> = (0..n).map(|i| (i, i + 1)).collect();
    let b = indexed_raw(d, p.iter().map(|q| q.v).collect(), &edges, ignore, false, (1, 1));
    if let (Some(a), Some(b)) = (a, b) {
        if !a.is_empty() {
            d.cover("some");
        }
        same_events(d, &a, &b, "the indexed and the plain algorithm disagree");
    }
}
pub fn w05(deep: bool) -> Prop {
    let mut hs = vec![];
    for (n, t, x) in srcs(deep) {
        hs.push(hx!(n, t, |d| agree(d, x, false)));
    }
    let g = if deep { 3 } else { 2 };
    hs.push(hx!("chain", format!("a chain of 3 segments sharing vertices on 0..={g}²"), |d| agree_chain(d, 3, g)));
    for h in hs.iter_mut() {
        h.must_cover = vec!["some"];
        h.merge = false;
        h.tie_flips = false;
    }
    let mut f = FNS.to_vec();
    f.extend(IFNS);
    Prop { id: "W05", functions: Box::leak(f.into_boxed_slice()), bounds: BND.into(), assumptions: vec!["no segment is a single point".into()], harnesses: hs }
}
pub fn w06(deep: bool) -> Prop {
    let mut hs = vec![];
    for (n, t, x) in srcs(deep).into_iter().filter(|x| x.0 == "bundle" || x.0.starts_with("set") && x.0 != "set-3") {
        for idx in [false, true] {
            hs.push(hx!(format!("{n}{}", if idx { "-indexed" } else { "" }), format!("{t}, 4 hash seeds"), |d| hash_order(d, x, idx)));
        }
    }
    for h in hs.iter_mut() {
        h.must_cover = vec!["some"];
        h.merge = false;
        h.tie_flips = false;
    }
    Prop {
        id: "W06",
        functions: &["IntersectionData::compute", "IntersectionTester::compute"],
        bounds: "5 segments of which one is free; four different hash seeds for every table".into(),
        assumptions: vec!["the hash function is replaced by the same function with four fixed keys".into()],
        harnesses: hs,
    }
}
/// stopping at the first intersection gives the first of all of them
fn stop_first<D: Dom>(d: &mut D, x: Src, idx: bool) {
    let s = src(d, x, (1, 1));
    let ignore = d.choice("ignore", 2) == 1;
    let run = |d: &mut D, stop: bool| if idx { indexed(d, &s, ignore, stop, (1, 1)) } else { plain(d, &s, ignore, stop, (1, 1)) };
    let (all, first) = (run(d, false), run(d, true));
    if let (Some(all), Some(first)) = (all, first) {
        d.check(first.len() <= 1, "more than one intersection although only the first was asked for");
        d.check(first.is_empty() == all.is_empty(), "an intersection is found or not found depending on stopping early");
        if !all.is_empty() && !first.is_empty() {
            d.cover("some");
            same_events(d, &all[..1], &first[..1], "the first intersection is not the first of all intersections");
            // ordered from the lowest point up
            for w in all.windows(2) {
                if known_split(d, &w[0], &w[1]) {
                    continue;
                }
                let (p, q) = (w[0].p, w[1].p);
                d.assert(p.y.lt(q.y) | (p.y.eq(q.y) & p.x.lt(q.x)), "intersections are not ordered by position");
            }
        } else {
            d.cover("none");
        }
    }
}
pub fn w07(deep: bool) -> Prop {
    let mut hs = vec![];
    for (n, t, x) in srcs(deep) {
        for idx in [false, true] {
            hs.push(hx!(format!("{n}{}", if idx { "-indexed" } else { "" }), t, |d| stop_first(d, x, idx)));
        }
    }
    for h in hs.iter_mut() {
        h.must_cover = vec!["some"];
        h.merge = false;
        h.tie_flips = false;
    }
    hs.push(hx!("kf:split", "a crossing computed twice with different rounding", |d| kf_split(d, false)));
    Prop {
        id: "W07",
        functions: &["IntersectionData::{with_stop_at_first_intersection,compute}", "IntersectionTester::{with_stop_at_first_intersection,compute}"],
        bounds: BND.into(),
        assumptions: vec!["no segment is a single point".into()],
        harnesses: hs,
    }
}

/// adding the segments in batches is adding them at once
fn batches<D: Dom>(d: &mut D, x: Src, idx: bool) {
    let s = src(d, x, (1, 1));
    let ignore = d.choice("ignore", 2) == 1;
    let base = if idx { indexed(d, &s, ignore, false, (1, 1)) } else { plain(d, &s, ignore, false, (1, 1)) };
    let n = s.len();
    let i = d.choice("first-batch", n + 1);
    let j = i + d.choice("second-batch", n + 1 - i);
    let r = if idx {
        let mut vert: Vec<D::V2> = vec![];
        let mut edges: Vec<(usize, usize)> = vec![];
        for (a, b) in &s {
            vert.push(b.v);
            vert.push(a.v);
            edges.push((vert.len() - 1, vert.len() - 2));
        }
        let go = || -> Result<Vec<(D::V2, Vec<usize>)>, LinestringError> {
            let (v, r) = IntersectionTester::new(vert)
                .with_edges(edges[..i].iter())?
                .with_ignore_end_point_intersections(ignore)?
                .with_edges(edges[i..j].iter())?
                .with_edges(edges[j..].iter())?
                .compute()?;
            Ok(r.map(|(i, l)| (v[i], l)).collect())
        };
        go()
    } else {
        let l: Vec<Line2<D::V2>> = s.iter().map(|(a, b)| Line2::new(a.v, b.v)).collect();
        let go = || -> Result<Vec<(D::V2, Vec<usize>)>, LinestringError> {
            Ok(IntersectionData::default()
                .with_lines(l[..i].iter().copied())?
                .with_ignore_end_point_intersections(ignore)?
                .with_lines(l[i..j].iter().copied())?
                .with_lines(l[j..].iter().copied())?
                .compute()?
                .collect())
        };
        go()
    };
    match (base, r) {
        (Some(b), Ok(r)) => {
            let e = events(d, r, (1, 1));
            if !e.is_empty() {
                d.cover("some");
            }
            same_events(d, &b, &e, "adding segments in batches differs from adding them at once");
        }
        (None, Err(_)) => (),
        _ => d.fail("success depends on adding segments in batches"),
    }
}
/// edges that share vertices, more of them than vertices, in two or three batches
const GRAPH: &[(usize, usize)] = &[(0, 1), (2, 3), (1, 2), (0, 4), (4, 2), (3, 0), (1, 4), (4, 3), (0, 2), (3, 1)];
fn batches_graph<D: Dom>(d: &mut D, n: usize, three: bool) {
    let at = [(0, 0), (6, 1), (5, 6), (1, 5)];
    let mut p: Vec<P<D>> = at.iter().map(|(x, y)| cpt(d, *x, *y, (1, 1))).collect();
    let q = ptr(d, "q", 1, 5, (1, 1));
    d.assume(ne2(q, p[3]));
    p.push(q);
    let ignore = d.choice("ignore", 2) == 1;
    let edges: Vec<(usize, usize)> = GRAPH[..n].to_vec();
    let vert: Vec<D::V2> = p.iter().map(|q| q.v).collect();
    let base = indexed_raw(d, vert.clone(), &edges, ignore, false, (1, 1));
    let i = d.choice("first-batch", n + 1);
    let j = if three { i + d.choice("second-batch", n + 1 - i) } else { n };
    let go = || -> Result<Vec<(D::V2, Vec<usize>)>, LinestringError> {
        let (v, r) = IntersectionTester::new(vert)
            .with_edges(edges[..i].iter())?
            .with_ignore_end_point_intersections(ignore)?
            .with_edges(edges[i..j].iter())?
            .with_edges(edges[j..].iter())?
            .compute()?;
        Ok(r.map(|(i, l)| (v[i], l)).collect())
    };
    match (base, go()) {
        (Some(b), Ok(r)) => {
            let e = events(d, r, (1, 1));
            if !e.is_empty() {
                d.cover("some");
            }
            same_events(d, &b, &e, "adding edges that share vertices in batches differs from adding them at once");
        }
        (None, Err(_)) => (),
        _ => d.fail("success depends on adding segments in batches"),
    }
}
/// every segment is listed once, in the order given
fn listed<D: Dom>(d: &mut D, n: usize, g: i64) {
    let p: Vec<P<D>> = (0..2 * n).map(|i| ptr(d, &format!("p{i}"), 0, g, (1, 1))).collect();
    let i = d.choice("first-batch", n + 1);
    if d.choice("indexed", 2) == 1 {
        let edges: Vec<(usize, usize)> = (0..n).map(|k| (2 * k + 1, 2 * k)).collect();
        let vert: Vec<D::V2> = p.iter().map(|q| q.v).collect();
        match IntersectionTester::new(vert).with_edges(edges[..i].iter()).and_then(|t| t.with_edges(edges[i..].iter())) {
            Ok(t) => {
                d.check(t.get_lines().len() == n, "not every edge is listed once");
                let same = t.get_lines().iter().zip(&edges).all(|(x, y)| x == y || *x == (y.1, y.0));
                d.check(same, "the edges listed are not those given, in their order");
                d.check(t.get_sweepline_pos().1.is_none(), "the sweep has a position before it starts");
            }
            Err(_) => d.fail("an error is returned for finite segments"),
        }
    } else {
        let l: Vec<Line2<D::V2>> = p.chunks(2).map(|c| Line2::new(c[0].v, c[1].v)).collect();
        match IntersectionData::default().with_lines(l[..i].iter().copied()).and_then(|t| t.with_lines(l[i..].iter().copied())) {
            Ok(t) => {
                d.check(t.get_lines().len() == n, "not every segment is listed once");
                let mut same = d.lit(true);
                for (x, c) in t.get_lines().iter().zip(p.chunks(2)) {
                    let (a, b) = (back(d, x.start, (1, 1)), back(d, x.end, (1, 1)));
                    same = same & ((eq2(a, c[0]) & eq2(b, c[1])) | (eq2(a, c[1]) & eq2(b, c[0])));
                }
                d.assert(same, "the segments listed are not those given, in their order");
            }
            Err(_) => d.fail("an error is returned for finite segments"),
        }
    }
}
pub fn w08(deep: bool) -> Prop {
    let mut hs = vec![];
    {
        let n = if deep { 3 } else { 2 };
        let mut h = hx!("listed", format!("{n} segments on 0..=7², in up to two batches, listed by get_lines"), |d| listed(d, n, 7));
        h.merge = false;
        hs.push(h);
    }
    {
        let n = if deep { 10 } else { 9 };
        let mut h = hx!("graph", format!("{n} edges between 4 fixed vertices and a free one on 1..=5², in up to {} batches", if deep { "three" } else { "two" }), |d| batches_graph(d, n, deep));
        h.must_cover = vec!["some"];
        h.merge = false;
        h.tie_flips = false;
        hs.push(h);
    }
    let x = if deep {
        vec![("set", "sets of 4 segments and one free segment on 0..=4²", Src::Set { n: 4, free: 1, g: 4 }), ("free-3", "3 segments, the first of 3 fixed ones, the others on 0..=2²", Src::Free { n: 3, g: 2, anchored: true, fixed: true })]
    } else {
        vec![("set", "sets of 2 segments and one free segment on 0..=3²", Src::Set { n: 2, free: 1, g: 3 }), ("free-2", "2 segments, one end point fixed, others on 0..=2²", Src::Free { n: 2, g: 2, anchored: true, fixed: false })]
    };
    for (n, t, x) in x {
        for idx in [false, true] {
            let mut h = hx!(format!("{n}{}", if idx { "-indexed" } else { "" }), format!("{t}, in up to three batches"), |d| batches(d, x, idx));
            h.must_cover = vec!["some"];
            h.merge = false;
            h.tie_flips = false;
            hs.push(h);
        }
    }
    Prop {
        id: "W08",
        functions: &["IntersectionData::with_lines", "IntersectionTester::with_edges", "IntersectionData::compute", "IntersectionTester::compute"],
        bounds: "3 segments of which one is free (thorough: 5 segments of which one, 3 segments of which two), every way of adding them in up to three batches; 9 edges (thorough 10) that share 5 vertices of which one is free, every way of adding them in two batches (thorough: three)".into(),
        assumptions: vec!["no segment is a single point".into()],
        harnesses: hs,
    }
}

// ------------------------------------------------------------------ self-intersection
fn self_oracle<D: Dom>(d: &D, p: &[P<D>]) -> D::B {
    let n = p.len() - 1;
    let s: Vec<Seg<D>> = p.windows(2).map(|w| (w[0], w[1])).collect();
    let mut b = d.lit(false);
    for i in 0..n {
        for j in i + 1..n {
            let same = (eq2(s[i].0, s[j].0) & eq2(s[i].1, s[j].1)) | (eq2(s[i].0, s[j].1) & eq2(s[i].1, s[j].0));
            b = b | same | meet_inside(&s, i, j);
        }
    }
    b
}
fn self_x<D: Dom>(d: &mut D, p: &[P<D>]) {
    for w in p.windows(2) {
        d.assume(ne2(w[0], w[1]));
    }
    if p.len() >= 10 {
        let s: Vec<Seg<D>> = p.windows(2).map(|w| (w[0], w[1])).collect();
        no_coincide(d, &s);
    }
    let v: Vec<D::V2> = p.iter().map(|q| q.v).collect();
    match v.is_self_intersecting() {
        Ok(r) => {
            if r {
                d.cover("yes");
            } else {
                d.cover("no");
            }
            let o = self_oracle(d, p);
            let l = d.lit(r);
            d.assert(o.iff(l), if r { "a simple line string is said to be self-intersecting" } else { "a self-intersecting line string is said to be simple" });
        }
        Err(_) => d.fail("an error is returned for finite points"),
    }
}
fn self_free<D: Dom>(d: &mut D, n: usize, g: i64, closed: bool) {
    let mut p = vec![cpt(d, g / 2, g / 2, (1, 1))];
    for i in 1..n {
        p.push(ptr(d, &format!("p{i}"), 0, g, (1, 1)));
    }
    if closed {
        p.push(p[0]);
    }
    self_x(d, &p);
}
fn self_scaled<D: Dom>(d: &mut D, n: usize, g: i64) {
    let sc = scale(d, 5);
    let mut p = vec![cpt(d, g / 2, g / 2, sc)];
    for i in 1..n {
        p.push(ptr(d, &format!("p{i}"), 0, g, sc));
    }
    self_x(d, &p);
}
/// line strings on 0..=6²; some closed, some touching themselves
pub const CHAINS: &[&[(i64, i64)]] = &[
    &[(0, 0), (6, 0), (6, 6), (0, 6), (0, 2), (4, 2), (4, 4), (2, 4), (2, 3), (3, 3), (3, 2)],
    &[(0, 0), (1, 3), (2, 0), (3, 3), (4, 0), (5, 3), (6, 0), (6, 6), (3, 5), (0, 6), (0, 0)],
    &[(0, 0), (2, 0), (2, 2), (4, 2), (4, 4), (6, 4), (6, 6), (4, 6), (0, 5), (0, 4), (1, 3)],
    &[(3, 3), (6, 3), (6, 5), (3, 3), (1, 6), (0, 4), (3, 3), (0, 1), (2, 0), (3, 1), (4, 0)],
    &[(0, 6), (1, 0), (2, 5), (3, 0), (4, 5), (5, 0), (6, 6), (3, 6), (2, 6), (1, 6), (1, 5)],
];
/// longer ones, on 0..=12²
const LONG_CHAINS: &[&[(i64, i64)]] = &[
    &[(0, 0), (12, 0), (12, 12), (0, 12), (0, 2), (10, 2), (10, 10), (2, 10), (2, 4), (8, 4), (8, 8), (4, 8), (4, 6), (6, 6), (6, 7), (5, 7)],
    &[(0, 0), (1, 9), (2, 1), (3, 10), (4, 0), (5, 11), (6, 1), (7, 9), (8, 2), (9, 10), (10, 1), (11, 8), (12, 0), (12, 12), (5, 12), (0, 12), (0, 10)],
    &[(6, 6), (12, 7), (11, 12), (6, 6), (3, 12), (0, 8), (6, 6), (0, 3), (4, 0), (6, 2), (8, 0), (12, 2), (9, 3), (7, 3), (7, 5)],
    &[(0, 1), (12, 2), (0, 3), (12, 4), (0, 5), (12, 6), (0, 7), (12, 8), (0, 9), (12, 10), (0, 11), (12, 12), (3, 12), (0, 12), (0, 10)],
];
fn self_long<D: Dom>(d: &mut D) {
    let t = LONG_CHAINS[d.choice("chain", LONG_CHAINS.len())];
    let at = [0, 4, 9, t.len() - 2][d.choice("free", 4)];
    let p: Vec<P<D>> = (0..t.len())
        .map(|i| if i == at { ptr(d, "q", 0, 12, (1, 1)) } else { cpt(d, t[i].0, t[i].1, (1, 1)) })
        .collect();
    self_x(d, &p);
}
fn self_chain<D: Dom>(d: &mut D, n: usize, free: &[usize], g: i64) {
    let t = CHAINS[d.choice("chain", CHAINS.len())];
    let at = free[d.choice("free", free.len())];
    let p: Vec<P<D>> = (0..n)
        .map(|i| if i == at { ptr(d, "q", 0, g, (1, 1)) } else { cpt(d, t[i].0, t[i].1, (1, 1)) })
        .collect();
    self_x(d, &p);
}
pub fn l01(deep: bool) -> Prop {
    let mut hs = vec![];
    let g = if deep { 6 } else { 4 };
    hs.push(hx!("3", format!("3 points on 0..={g}²"), |d| self_free(d, 3, g, false)));
    hs.push(hx!("4-scaled", "4 points on 0..=2², at five scales and offsets", |d| self_scaled(d, 4, 2)));
    let g = if deep { 4 } else { 3 };
    hs.push(hx!("4", format!("4 points on 0..={g}²"), |d| self_free(d, 4, g, false)));
    hs.push(hx!("4-closed", format!("4 points on 0..={g}², closed"), |d| self_free(d, 4, g, true)));
    if deep {
        hs.push(hx!("5", "5 points on 0..=2²", |d| self_free(d, 5, 2, false)));
    }
    hs.push(hx!("9-of-chain", format!("{} line strings of 9 points with any one vertex anywhere on 0..=6²", CHAINS.len()), |d| self_chain(d, 9, &[0, 1, 2, 3, 4, 5, 6, 7, 8], 6)));
    let fr: &'static [usize] = if deep { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10] } else { &[0, 4, 10] };
    hs.push(hx!("11-of-chain", format!("{} line strings of 11 points (sweep-line) with one vertex (of {:?}) anywhere on 0..=6²", CHAINS.len(), fr), |d| self_chain(d, 11, fr, 6)));
    hs.push(hx!("long", format!("{} line strings of 15 to 17 points with one vertex (of 4) anywhere on 0..=12²", LONG_CHAINS.len()), |d| self_long(d)));
    for h in hs.iter_mut() {
        h.must_cover = vec!["yes", "no"];
        h.merge = false;
        h.tie_flips = false;
    }
    hs.push(hx!("kf:sweep", "a repeated segment among 10 or more points", |d| kf_self(d)));
    Prop {
        id: "L01",
        functions: &["LineString2::is_self_intersecting", "Line2::intersection_point3", "Line2::intersection_point", "IntersectionData::compute"],
        bounds: "3 to 5 free points; 9 points (pairwise), 11 and 15 to 17 points (sweep-line) of which one is free".into(),
        assumptions: vec!["consecutive points differ".into(), "from 10 points on: no two segments coincide (known finding)".into()],
        harnesses: hs,
    }
}
/// known finding: from 10 points on a segment running back over itself is not noticed
fn kf_self<D: Dom>(d: &mut D) {
    let mut v: Vec<P<D>> = vec![];
    for i in 0..10 {
        v.push(ptr(d, &format!("p{i}"), -9, 9, (1, 1)));
    }
    for w in v.windows(2) {
        d.assume(ne2(w[0], w[1]));
    }
    let o = self_oracle(d, &v);
    let ls: Vec<D::V2> = v.iter().map(|q| q.v).collect();
    let r = d.lit(ls.is_self_intersecting().unwrap_or(false));
    d.assert(o.iff(r), "a self-intersecting line string is said to be simple");
}
