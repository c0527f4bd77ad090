//! Convex hulls: construction (four sequential algorithms and the parallel one), containment, orientation.
use super::util::*;
use crate::dom::*;
use crate::hx;
use crate::Prop;
use linestring::linestring_2d::convex_hull::*;
use linestring::linestring_2d::{convex_hull, LineString2};

/// the points of a harness: `sym` symbolic ones (the first anchored at the middle of the grid when `anchor`),
/// after the concrete ones of a template
fn points<D: Dom>(d: &mut D, g: i64, sym: usize, anchor: bool, sc: Sc) -> Vec<P<D>> {
    let mut p = vec![];
    for i in 0..sym {
        if i == 0 && anchor {
            p.push(cpt(d, g / 2, g / 2, sc));
        } else {
            p.push(ptr(d, &format!("p{i}"), 0, g, sc));
        }
    }
    p
}
/// concrete point sets with collinear runs, duplicates and points beside the hull, on 0..=8²
pub const TEMPLATES: &[&[(i64, i64)]] = &[
    // an octagon
    &[(2, 0), (5, 0), (8, 2), (8, 5), (5, 8), (2, 8), (0, 5), (0, 2)],
    // a square with points on the edges, not in order
    &[(8, 8), (0, 0), (4, 0), (0, 8), (4, 4), (8, 0), (8, 4), (0, 4)],
    // all on two lines, the lowest point duplicated
    &[(1, 1), (7, 4), (4, 4), (1, 1), (1, 4), (4, 1), (7, 1), (1, 1)],
    // a thin fan seen from the lowest point
    &[(0, 3), (8, 4), (4, 3), (8, 3), (7, 6), (3, 4), (6, 2), (8, 0)],
    // collinear, unordered
    &[(4, 4), (2, 2), (6, 6), (0, 0), (8, 8), (2, 2), (6, 6), (1, 1)],
    // descending staircase
    &[(0, 8), (1, 6), (2, 5), (3, 3), (5, 2), (6, 1), (8, 0), (7, 7)],
];

/// larger sets on 0..=16²: a 16-gon with points inside and twice, a grid, a line with repetitions, arbitrary points, a frame
pub const BIG: &[&[(i64, i64)]] = &[
    &[(11, 4), (2, 8), (2, 7), (6, 12), (6, 12), (2, 6), (12, 6), (11, 10), (11, 4), (4, 3), (12, 8), (8, 2), (10, 3), (8, 8), (4, 11), (10, 11), (3, 4), (6, 2), (7, 2), (3, 10), (8, 12), (13, 8)],
    &[(8, 0), (4, 4), (16, 4), (16, 0), (4, 8), (0, 4), (16, 12), (12, 0), (4, 16), (12, 16), (8, 4), (0, 12), (12, 8), (16, 16), (0, 0), (12, 4), (12, 12), (8, 16), (0, 16), (0, 8), (16, 8), (8, 8), (4, 0), (4, 12), (8, 12)],
    &[(12, 7), (6, 4), (14, 8), (5, 3), (14, 8), (12, 7), (16, 9), (2, 2), (16, 9), (11, 7), (10, 6), (2, 2), (8, 5), (10, 6), (4, 3), (8, 5), (4, 3), (0, 1), (0, 1), (6, 4)],
    &[(5, 15), (15, 5), (1, 8), (0, 11), (12, 0), (13, 11), (12, 0), (14, 1), (5, 6), (3, 7), (14, 11), (16, 11), (16, 8), (14, 3), (11, 9), (1, 13), (2, 6), (10, 16), (11, 4), (10, 8), (2, 9), (10, 9)],
    &[(0, 16), (0, 3), (0, 9), (0, 0), (0, 12), (0, 3), (0, 7), (16, 1), (16, 15), (16, 8), (3, 0), (9, 0), (15, 0), (15, 16), (2, 16), (8, 16), (8, 8), (9, 9), (0, 0)],
];

fn is_hull<D: Dom>(d: &mut D, input: &[P<D>], hull: &[P<D>]) {
    let z = D::E::c(0);
    let n = hull.len();
    if input.is_empty() {
        d.check(n == 0, "the hull of nothing is not empty");
        return;
    }
    if n == 0 {
        d.fail("the hull of some points is empty");
        return;
    }
    for h in hull {
        let mut m = d.lit(false);
        for p in input {
            m = m | eq2(*p, *h);
        }
        d.assert(m, "a hull point is not one of the input points");
    }
    let connected = eq2(hull[0], hull[n - 1]);
    if n >= 4 {
        d.cover("polygon");
        d.assert(connected, "the hull is not closed");
        let k = n - 1;
        let mut convex = d.lit(true);
        for i in 0..k {
            convex = convex & orient(hull[i], hull[(i + 1) % k], hull[(i + 2) % k]).gt(z);
        }
        d.assert(convex, "the hull is not strictly convex and counter-clockwise");
        let mut distinct = d.lit(true);
        for i in 0..k {
            for j in 0..i {
                distinct = distinct & ne2(hull[i], hull[j]);
            }
        }
        d.assert(distinct, "a point is twice on the hull");
        for p in input {
            let mut inside = d.lit(true);
            for i in 0..k {
                inside = inside & orient(hull[i], hull[i + 1], *p).ge(z);
            }
            d.assert(inside, "an input point is outside of the hull");
        }
    } else {
        // degenerate: everything on one segment, whose ends are the extreme points
        d.cover("degenerate");
        let (a, b) = (hull[0], hull[if n > 1 { 1 } else { 0 }]);
        for p in input {
            let on = on_seg(a, b, *p);
            d.assert(on, "an input point is outside of the degenerate hull");
        }
        if n == 3 {
            d.assert(connected, "the degenerate hull is not closed");
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Alg {
    Graham,
    Gift,
    NoAtan,
    IndexedGraham,
    IndexedGift,
    Trait,
}
fn run_alg<D: Dom>(d: &mut D, alg: Alg, p: &[P<D>], sc: Sc) {
    let v: Vec<D::V2> = p.iter().map(|q| q.v).collect();
    match alg {
        Alg::Graham | Alg::Gift | Alg::NoAtan | Alg::Trait => {
            #[allow(deprecated)]
            let r = match alg {
                Alg::Graham => graham_scan(&v),
                Alg::Gift => gift_wrap(&v),
                Alg::NoAtan => graham_scan_wo_atan2(&v),
                _ => v.convex_hull(),
            };
            match r {
                Ok(h) => {
                    let h: Vec<P<D>> = h.into_iter().map(|x| back(d, x, sc)).collect();
                    for x in &h {
                        obs2(d, x.v);
                    }
                    is_hull(d, p, &h);
                }
                Err(_) => d.fail("an error is returned for finite points"),
            }
        }
        _ => {
            // the vertices are stored in another order, between unused ones
            let n = v.len();
            let far = d.k(-64.0);
            let far = <D::V2 as vector_traits::HasXY>::new_2d(far, far);
            let mut store = vec![far];
            store.extend(v.iter().rev().copied());
            store.push(far);
            let idx: Vec<usize> = (0..n).map(|i| n - i).collect();
            let r = match alg {
                Alg::IndexedGraham => indexed_graham_scan(&store, &idx),
                _ => indexed_gift_wrap(&store, &idx),
            };
            indexed_result(d, p, &store, &idx, r, sc);
        }
    }
}
fn indexed_result<D: Dom>(d: &mut D, p: &[P<D>], store: &[D::V2], idx: &[usize], r: Result<Vec<usize>, linestring::LinestringError>, sc: Sc) {
    match r {
        Ok(h) => {
            d.check(h.iter().all(|i| idx.contains(i)), "a hull index is not one of the input indices");
            if h.len() > 2 {
                d.check(h[0] == h[h.len() - 1], "the index list is not closed");
            }
            let h: Vec<P<D>> = h.into_iter().filter(|i| *i < store.len()).map(|i| back(d, store[i], sc)).collect();
            for x in &h {
                obs2(d, x.v);
            }
            is_hull(d, p, &h);
        }
        Err(_) => d.fail("an error is returned for finite points"),
    }
}
/// index lists over four vertices: closed ones, some with repetitions, short ones
pub const LISTS: &[&[usize]] = &[
    &[0, 1, 2, 0],
    &[0, 1, 2, 3, 0],
    &[3, 1, 2, 0, 3],
    &[0, 0, 1, 2],
    &[0, 0, 1, 2, 3, 0],
    &[1, 2, 3, 0, 0, 1],
    &[3, 0, 0, 1, 2, 3, 3],
    &[2, 1, 1, 3, 0],
    &[0, 1, 2, 0, 3],
    &[0, 1, 2, 3, 0, 1, 2, 3],
    &[1, 2, 3, 1, 1],
    &[2, 3, 1],
    &[0, 2, 0, 2],
    &[0, 1, 0],
    &[3, 0],
    &[1, 1],
    &[2, 2, 2],
    &[3],
    &[],
];
#[derive(Clone, Copy, PartialEq)]
enum ListAlg {
    Graham,
    Gift,
    Par,
}
fn lists<D: Dom>(d: &mut D, alg: ListAlg, g: i64, at: usize) {
    let all = points(d, g, 4, true, (1, 1));
    let store: Vec<D::V2> = all.iter().map(|q| q.v).collect();
    let idx: Vec<usize> = LISTS[d.choice("list", LISTS.len())].iter().map(|i| (i + at) % 4).collect();
    let r = match alg {
        ListAlg::Graham => indexed_graham_scan(&store, &idx),
        ListAlg::Gift => indexed_gift_wrap(&store, &idx),
        ListAlg::Par => {
            let chunk = [1, 2, 3, 50][d.choice("chunk", 4)];
            convex_hull_par(&store, &idx, chunk)
        }
    };
    let p: Vec<P<D>> = idx.iter().map(|i| all[*i]).collect();
    indexed_result(d, &p, &store, &idx, r, (1, 1));
}
fn list_harness(alg: ListAlg, deep: bool) -> crate::explore::Harness {
    let g = if deep { 4 } else { 2 };
    let mut h = hx!("lists", format!("{} index lists (closed, with repetitions, short, empty) over 4 vertices, one at the middle of 0..={g}², the others anywhere on it", LISTS.len()), |d| lists(d, alg, g, 0));
    h.must_cover = vec!["polygon", "degenerate"];
    h.op_budget = 60_000;
    h
}
fn hull_free<D: Dom>(d: &mut D, alg: Alg, g: i64, n: usize, anchor: bool) {
    let p = points(d, g, n, anchor, (1, 1));
    run_alg(d, alg, &p, (1, 1));
}
fn hull_scaled<D: Dom>(d: &mut D, alg: Alg, g: i64, n: usize) {
    let sc = scale(d, 7);
    let p = points(d, g, n, true, sc);
    run_alg(d, alg, &p, sc);
}
fn hull_template<D: Dom>(d: &mut D, alg: Alg, nt: usize, sym: usize) {
    let t = TEMPLATES[d.choice("template", TEMPLATES.len())];
    let mut p: Vec<P<D>> = t[..nt].iter().map(|(x, y)| cpt(d, *x, *y, (1, 1))).collect();
    for i in 0..sym {
        let q = ptr(d, &format!("q{i}"), 0, 8, (1, 1));
        p.insert((i * 3 + 1).min(p.len()), q);
    }
    run_alg(d, alg, &p, (1, 1));
}
/// many points of which one is free
fn hull_big<D: Dom>(d: &mut D, alg: Alg) {
    let t = BIG[d.choice("template", BIG.len())];
    let mut p: Vec<P<D>> = t.iter().map(|(x, y)| cpt(d, *x, *y, (1, 1))).collect();
    let q = ptr(d, "q", 0, 16, (1, 1));
    let at = [0, p.len() / 2, p.len()][d.choice("at", 3)];
    p.insert(at, q);
    run_alg(d, alg, &p, (1, 1));
}
fn algs(deep: bool, which: &[(Alg, &'static str)], n: usize) -> Vec<crate::explore::Harness> {
    let mut hs = vec![];
    for (a, name) in which.iter().copied() {
        let g = if deep { 4 } else { 3 };
        let mut h = hx!(format!("{name}-4"), format!("4 points, one at the middle of 0..={g}², the others anywhere on it"), |d| hull_free(d, a, g, 4, true));
        h.must_cover = vec!["polygon", "degenerate"];
        hs.push(h);
        hs.push(hx!(format!("{name}-3"), "3 points on 0..=4²", |d| hull_free(d, a, 4, 3, false)));
        let k = if deep { 2 } else { 1 };
        let mut h = hx!(format!("{name}-template"), format!("{} templates of {n} points (collinear runs, duplicates), {k} more anywhere on 0..=8²", TEMPLATES.len()), |d| hull_template(d, a, n, k));
        h.must_cover = vec!["polygon", "degenerate"];
        hs.push(h);
        let mut h = hx!(format!("{name}-scaled"), "4 points, one at the middle of 0..=2², the others anywhere on it, at 7 scales and offsets", |d| hull_scaled(d, a, 2, 4));
        h.must_cover = vec!["polygon", "degenerate"];
        hs.push(h);
        let mut h = hx!(format!("{name}-big"), format!("{} templates of 17 to 25 points, one more anywhere on 0..=16²", BIG.len()), |d| hull_big(d, a));
        h.must_cover = vec!["polygon"];
        hs.push(h);
        if deep {
            hs.push(hx!(format!("{name}-5"), "5 points, one at the middle of 0..=2², the others anywhere on it", |d| hull_free(d, a, 2, 5, true)));
        }
    }
    hs
}
fn small<D: Dom>(d: &mut D) {
    let alg = [Alg::Graham, Alg::Gift, Alg::NoAtan, Alg::IndexedGraham, Alg::IndexedGift, Alg::Trait][d.choice("algorithm", 6)];
    let n = d.choice("points", 3);
    let p = points(d, 3, n, false, (1, 1));
    run_alg(d, alg, &p, (1, 1));
}

pub fn h01(deep: bool) -> Prop {
    let mut hs = algs(deep, &[(Alg::Graham, "graham"), (Alg::NoAtan, "graham-wo-atan2")], 7);
    hs.push(hx!("trait-3", "3 points on 0..=3², through the line string's own method", |d| hull_free(d, Alg::Trait, 3, 3, false)));
    hs.push(hx!("small", "0 to 2 points on 0..=3², every algorithm", |d| small(d)));
    Prop {
        id: "H01",
        functions: &["convex_hull::graham_scan", "convex_hull::graham_scan_wo_atan2", "LineString2::convex_hull", "convex_hull::cross_2d"],
        bounds: "3 or 4 (thorough: 5) points free on integer grids; 8 to 9 points of which 1 to 2 are free; 17 to 25 points of which one is free; 4 points at seven scales and offsets".into(),
        assumptions: vec!["atan2 is monotone on the grid's directions and within an ulp of exact".into()],
        harnesses: hs,
    }
}
pub fn h02(deep: bool) -> Prop {
    let mut hs = algs(deep, &[(Alg::Gift, "gift"), (Alg::IndexedGift, "indexed-gift")], 7);
    for h in hs.iter_mut() {
        h.op_budget = 40_000;
    }
    hs.push(list_harness(ListAlg::Gift, deep));
    Prop {
        id: "H02",
        functions: &["convex_hull::gift_wrap", "convex_hull::indexed_gift_wrap", "convex_hull::point_orientation"],
        bounds: "3 or 4 (thorough: 5) points free on integer grids; 8 to 9 points of which 1 to 2 are free; 17 to 25 points of which one is free; 4 points at seven scales and offsets".into(),
        assumptions: vec![],
        harnesses: hs,
    }
}

// ------------------------------------------------------------------ parallel
fn par<D: Dom>(d: &mut D, p: &[P<D>], chunks: &[usize], sc: Sc) {
    let chunk = chunks[d.choice("chunk", chunks.len())];
    let n = p.len();
    let mut store: Vec<D::V2> = p.iter().rev().map(|q| q.v).collect();
    let far = d.k(-64.0);
    store.push(<D::V2 as vector_traits::HasXY>::new_2d(far, far));
    let idx: Vec<usize> = (0..n).map(|i| n - 1 - i).collect();
    let r = d.with_env(&["rayon-split"], || convex_hull_par(&store, &idx, chunk));
    indexed_result(d, p, &store, &idx, r, sc);
}
/// the line string's own method, which hands out points
fn par_trait<D: Dom>(d: &mut D, p: &[P<D>], chunks: &[usize], sc: Sc) {
    let chunk = chunks[d.choice("chunk", chunks.len())];
    let v: Vec<D::V2> = p.iter().map(|q| q.v).collect();
    match d.with_env(&["rayon-split"], || v.convex_hull_par(chunk)) {
        Ok(h) => {
            let h: Vec<P<D>> = h.into_iter().map(|x| back(d, x, sc)).collect();
            for x in &h {
                obs2(d, x.v);
            }
            is_hull(d, p, &h);
        }
        Err(_) => d.fail("an error is returned for finite points"),
    }
}
fn par_entry<D: Dom>(d: &mut D) {
    let p = points(d, 2, 4, true, (1, 1));
    par_trait(d, &p, &[2, 3, 9], (1, 1));
}
fn par_entry_template<D: Dom>(d: &mut D) {
    let t = TEMPLATES[d.choice("template", TEMPLATES.len())];
    let mut p: Vec<P<D>> = t[..7].iter().map(|(x, y)| cpt(d, *x, *y, (1, 1))).collect();
    let q = ptr(d, "q", 0, 8, (1, 1));
    p.insert(3, q);
    par_trait(d, &p, &[3], (1, 1));
}
fn par_free<D: Dom>(d: &mut D, g: i64, n: usize) {
    let p = points(d, g, n, true, (1, 1));
    par(d, &p, &[2, 3], (1, 1));
}
fn par_scaled<D: Dom>(d: &mut D, g: i64, n: usize) {
    let sc = scale(d, 7);
    let p = points(d, g, n, true, sc);
    par(d, &p, &[2], sc);
}
fn par_template<D: Dom>(d: &mut D, nt: usize, sym: usize, chunks: &[usize]) {
    let t = TEMPLATES[d.choice("template", TEMPLATES.len())];
    let mut p: Vec<P<D>> = t[..nt].iter().map(|(x, y)| cpt(d, *x, *y, (1, 1))).collect();
    for i in 0..sym {
        let q = ptr(d, &format!("q{i}"), 0, 8, (1, 1));
        p.insert((i * 3 + 2).min(p.len()), q);
    }
    par(d, &p, chunks, (1, 1));
}
fn par_big<D: Dom>(d: &mut D, chunks: &[usize]) {
    let t = BIG[d.choice("template", BIG.len())];
    let mut p: Vec<P<D>> = t.iter().map(|(x, y)| cpt(d, *x, *y, (1, 1))).collect();
    let q = ptr(d, "q", 0, 16, (1, 1));
    p.insert(p.len() / 2, q);
    par(d, &p, chunks, (1, 1));
}
pub fn h03(deep: bool) -> Prop {
    let mut hs = vec![];
    let (n1, g) = if deep { (5, 2) } else { (4, 3) };
    let mut h = hx!(format!("par-{n1}"), format!("{n1} points, one at the middle of 0..={g}², chunks of 2 or 3, every way of splitting the work"), |d| par_free(d, g, n1));
    h.must_cover = vec!["polygon", "degenerate"];
    hs.push(h);
    let mut h = hx!("par-template", format!("{} templates of 7 points, 1 more anywhere on 0..=8², chunks of 2, 3 or 4, every way of splitting the work", TEMPLATES.len()), |d| par_template(d, 7, 1, &[2, 3, 4]));
    h.must_cover = vec!["polygon", "degenerate"];
    hs.push(h);
    hs.push(hx!("par-whole", "templates of 6 points and one free point, chunks larger than the input", |d| par_template(d, 6, 1, &[7, 100])));
    let mut h = hx!("par-scaled", "4 points, one at the middle of 0..=2², the others anywhere on it, at 7 scales and offsets, chunks of 2", |d| par_scaled(d, 2, 4));
    h.must_cover = vec!["polygon", "degenerate"];
    hs.push(h);
    let mut h = hx!("par-big", format!("{} templates of 17 to 25 points, one more anywhere on 0..=16², chunks of 7 or 12, every way of splitting the work", BIG.len()), |d| par_big(d, &[7, 12]));
    h.must_cover = vec!["polygon"];
    hs.push(h);
    let mut h = hx!("par-entry", "4 points, one at the middle of 0..=2², the others anywhere on it, through the line string's own method, chunks of 2, 3 or 9", |d| par_entry(d));
    h.must_cover = vec!["polygon", "degenerate"];
    hs.push(h);
    hs.push(hx!("par-entry-template", "templates of 7 points, 1 more anywhere on 0..=8², through the line string's own method, chunks of 3", |d| par_entry_template(d)));
    if deep {
        hs.push(hx!("par-template-2", "templates of 6 points, 2 more anywhere on 0..=8², chunks of 3 or 4", |d| par_template(d, 6, 2, &[3, 4])));
    }
    hs.push(list_harness(ListAlg::Par, deep));
    for h in hs.iter_mut() {
        h.op_budget = 60_000;
    }
    Prop {
        id: "H03",
        functions: &["convex_hull::convex_hull_par", "LineString2::convex_hull_par", "convex_hull::indexed_graham_scan_no_loop", "convex_hull::combine_indexed_convex_hull (through it)"],
        bounds: "4 (thorough: 5) free points, or 8 points of which 1 to 2 are free, or 17 to 25 of which one is free; chunk sizes 2 to 4 and larger than the input; every splitting tree of the work".into(),
        assumptions: vec!["the parallel runtime is replaced by a sequential model which splits work at every place the real one may (the parts share no mutable state)".into()],
        harnesses: hs,
    }
}
pub fn h04(deep: bool) -> Prop {
    let mut hs = algs(deep, &[(Alg::IndexedGraham, "indexed-graham")], 7);
    hs.push(list_harness(ListAlg::Graham, deep));
    Prop {
        id: "H04",
        functions: &["convex_hull::indexed_graham_scan", "convex_hull::indexed_graham_scan_no_loop"],
        bounds: "3 or 4 (thorough: 5) points free on integer grids; 8 to 9 points of which 1 to 2 are free; 17 to 25 points of which one is free; 4 points at seven scales and offsets".into(),
        assumptions: vec![],
        harnesses: hs,
    }
}

// ------------------------------------------------------------------ containment
/// strictly convex, counter-clockwise polygons
pub const POLYGONS: &[&[(i64, i64)]] = &[
    &[(0, 0), (8, 0), (0, 8)],
    &[(0, 3), (6, 0), (8, 7)],
    &[(0, 0), (8, 0), (8, 8), (0, 8)],
    &[(0, 1), (1, -1), (3, 0), (1, 2)],
    &[(0, 2), (4, 0), (8, 3), (6, 8), (1, 7)],
    &[(0, 4), (2, 0), (6, 0), (8, 4), (6, 8), (2, 8)],
    &[(0, 4), (1, 1), (4, 0), (8, 1), (8, 6), (5, 8), (1, 7)],
    &[(2, 0), (5, 0), (8, 2), (8, 5), (5, 8), (2, 8), (0, 5), (0, 2)],
    &[(0, 5), (0, 3), (1, 1), (3, 0), (6, 0), (8, 2), (8, 5), (6, 8), (2, 8)],
    &[(3, 0), (5, 0), (7, 1), (8, 3), (8, 5), (7, 7), (5, 8), (3, 8), (1, 7), (0, 5), (0, 3), (1, 1)],
];
fn oracle<D: Dom>(d: &D, hull: &[P<D>], p: P<D>, strict: bool) -> D::B {
    let z = D::E::c(0);
    let k = hull.len();
    let mut b = d.lit(true);
    for i in 0..k {
        let o = orient(hull[i], hull[(i + 1) % k], p);
        b = b & if strict { o.gt(z) } else { o.ge(z) };
    }
    b
}
fn contains<D: Dom>(d: &mut D, poly: &[P<D>], q: P<D>) {
    // the hull as the crate itself returns it (closed), or without the closing point
    let mut h: Vec<D::V2> = poly.iter().map(|p| p.v).collect();
    let closed = d.choice("form", 2) == 0;
    if closed {
        h.push(h[0]);
    }
    let (inc, exc) = if d.choice("through", 2) == 0 {
        let r = (h.contains_point_inclusive(q.v), h.contains_point_exclusive(q.v));
        if !closed {
            // the methods are about closed line strings
            d.check(!r.0 && !r.1, "a line string that is not closed contains a point");
            return;
        }
        r
    } else {
        (convex_hull::contains_point_inclusive(&h, q.v), convex_hull::contains_point_exclusive(&h, q.v))
    };
    let (oi, oe) = (oracle(d, poly, q, false), oracle(d, poly, q, true));
    if inc {
        d.cover("inside or on");
    } else {
        d.cover("outside");
    }
    if exc {
        d.cover("inside");
    }
    let (li, le) = (d.lit(inc), d.lit(exc));
    d.assert(oi.iff(li), "inclusive containment is wrong");
    d.assert(oe.iff(le), "exclusive containment is wrong");
}
fn contains_template<D: Dom>(d: &mut D, rotations: bool) {
    let t = POLYGONS[d.choice("polygon", POLYGONS.len())];
    let r = if rotations { d.choice("first", t.len()) } else { 0 };
    let sc = scale(d, 4);
    let poly: Vec<P<D>> = (0..t.len()).map(|i| t[(i + r) % t.len()]).map(|(x, y)| cpt(d, x, y, sc)).collect();
    let q = ptr(d, "q", -1, 9, sc);
    contains(d, &poly, q);
}
fn contains_free<D: Dom>(d: &mut D, g: i64, n: usize) {
    let q = cpt(d, g / 2, g / 2, (1, 1));
    let poly = convex_poly(d, "p", n, g);
    contains(d, &poly, q);
}
fn convex_poly<D: Dom>(d: &mut D, name: &str, n: usize, g: i64) -> Vec<P<D>> {
    let poly: Vec<P<D>> = (0..n).map(|i| ptr(d, &format!("{name}{i}"), 0, g, (1, 1))).collect();
    // strictly convex: every vertex is strictly left of every edge it is not on
    let z = D::E::c(0);
    let mut ok = d.lit(true);
    for i in 0..n {
        for j in 0..n {
            if j != i && j != (i + 1) % n {
                ok = ok & orient(poly[i], poly[(i + 1) % n], poly[j]).gt(z);
            }
        }
    }
    d.assume(ok);
    poly
}
fn tiny<D: Dom>(d: &mut D) {
    // no polygon: no point is inside
    let (a, q) = (ptr(d, "a", 0, 3, (1, 1)), ptr(d, "q", 0, 3, (1, 1)));
    let h: Vec<D::V2> = match d.choice("form", 3) {
        0 => vec![],
        1 => vec![a.v],
        _ => vec![a.v, a.v],
    };
    let same = eq2(a, q);
    let li = d.lit(h.contains_point_inclusive(q.v));
    let lf = d.lit(convex_hull::contains_point_inclusive(&h, q.v));
    if h.is_empty() {
        d.assert(!li & !lf, "an empty hull contains a point");
    } else {
        d.assert(li.implies(same), "the hull of one point contains another point");
        d.assert(lf.iff(same), "the hull of one point: containment is wrong");
    }
}
pub fn h05(deep: bool) -> Prop {
    let mut hs = vec![];
    let mut h = hx!("contains-template", format!("{} convex polygons of 3 to 12 vertices, every first vertex, closed or not, any point of -1..=9², scaled by 2^10 or 2^-25 and shifted by -4096", POLYGONS.len()), |d| contains_template(d, true));
    h.must_cover = vec!["inside", "outside", "inside or on"];
    hs.push(h);
    let g = if deep { 6 } else { 4 };
    let mut h = hx!("contains-3", format!("triangles on 0..={g}² against the middle point"), |d| contains_free(d, g, 3));
    h.must_cover = vec!["inside", "outside", "inside or on"];
    hs.push(h);
    let g = if deep { 4 } else { 3 };
    let mut h = hx!("contains-4", format!("convex quadrilaterals on 0..={g}² against a point"), |d| contains_free(d, g, 4));
    h.must_cover = vec!["inside", "outside"];
    hs.push(h);
    if deep {
        hs.push(hx!("contains-5", "convex pentagons on 0..=3² against a point", |d| contains_free(d, 3, 5)));
    }
    hs.push(hx!("contains-tiny", "empty and one-point hulls", |d| tiny(d)));
    Prop {
        id: "H05",
        functions: &["convex_hull::contains_point_inclusive", "convex_hull::contains_point_exclusive", "LineString2::contains_point_inclusive", "LineString2::contains_point_exclusive", "convex_hull::is_point_left", "convex_hull::is_point_left_allow_collinear"],
        bounds: "convex polygons of 3 to 12 given vertices with a free point; free triangles, quadrilaterals (thorough: pentagons) with a fixed point".into(),
        assumptions: vec!["the line string is a strictly convex counter-clockwise polygon".into()],
        harnesses: hs,
    }
}
fn contains_hull<D: Dom>(d: &mut D, small: usize) {
    let t = POLYGONS[d.choice("polygon", POLYGONS.len())];
    let a: Vec<P<D>> = t.iter().map(|(x, y)| cpt(d, *x, *y, (1, 1))).collect();
    // some other polygon: its vertices are free, those after the second are offset from the first two
    let b: Vec<P<D>> = match small {
        1 => vec![ptr(d, "b0", -1, 9, (1, 1))],
        2 => {
            let p = ptr(d, "b0", -1, 7, (1, 1));
            let shapes: &[&[(i64, i64)]] = &[&[(2, 0), (0, 2)], &[(3, 1), (1, 3)], &[(2, 0), (2, 2), (0, 2)], &[(1, -1), (3, 0), (3, 2), (1, 2)]];
            let s = shapes[d.choice("shape", shapes.len())];
            let mut v = vec![p];
            for (x, y) in s {
                let (x, y) = (p.x + D::E::c(*x), p.y + D::E::c(*y));
                v.push(mk(d, x, y, (1, 1)));
            }
            v
        }
        _ => convex_poly(d, "b", small, 8),
    };
    // as the crate itself returns them (closed), or without the closing point
    let form = d.choice("form", 4);
    let close = |p: &[P<D>], c: bool| {
        let mut v: Vec<D::V2> = p.iter().map(|q| q.v).collect();
        if c {
            v.push(v[0]);
        }
        v
    };
    let (av, bv) = (close(&a, form & 1 == 0), close(&b, form & 2 == 0));
    let s = contains_convex_hull(&av, &bv);
    let par = d.with_env(&["rayon-split"], || contains_convex_hull_par(&av, &bv));
    let mut o = d.lit(true);
    for q in &b {
        o = o & oracle(d, &a, *q, false);
    }
    if s {
        d.cover("contained");
    } else {
        d.cover("not contained");
    }
    let (ls, lp) = (d.lit(s), d.lit(par));
    d.assert(o.iff(ls), "sequential hull containment is wrong");
    d.assert(o.iff(lp), "parallel hull containment is wrong");
}
pub fn h06(deep: bool) -> Prop {
    let mut hs = vec![];
    let mut h = hx!("hull-in-hull", format!("{} convex polygons against 4 shapes of 3 to 5 vertices anywhere on -1..=10²", POLYGONS.len()), |d| contains_hull(d, 2));
    h.must_cover = vec!["contained", "not contained"];
    hs.push(h);
    hs.push(hx!("point-hull", "convex polygons against one-point hulls", |d| contains_hull(d, 1)));
    if deep {
        hs.push(hx!("free-triangle", "convex polygons against any triangle on 0..=8²", |d| contains_hull(d, 3)));
    }
    Prop {
        id: "H06",
        functions: &["convex_hull::contains_convex_hull", "convex_hull::contains_convex_hull_par", "convex_hull::contains_point_inclusive"],
        bounds: "outer polygons of 3 to 12 given vertices; inner polygons of 1 to 5 vertices at any grid position (thorough: any triangle)".into(),
        assumptions: vec!["both line strings are closed strictly convex counter-clockwise polygons, or the inner one a single point".into()],
        harnesses: hs,
    }
}

// ------------------------------------------------------------------ orientation
fn orientation<D: Dom>(d: &mut D, g: i64, scales: usize) {
    let sc = scale(d, scales);
    let a = cpt(d, g / 2, g / 3, sc);
    let (b, c) = (ptr(d, "b", 0, g, sc), ptr(d, "c", 0, g, sc));
    let z = D::E::c(0);
    let o = orient(a, b, c);
    let (left, right, flat) = (o.gt(z), o.lt(z), o.is0());
    let r = point_orientation(a.v, b.v, c.v);
    match r {
        Orientation::Left => {
            d.cover("left");
            d.assert(left, "left is reported wrongly");
        }
        Orientation::Right => {
            d.cover("right");
            d.assert(right, "right is reported wrongly");
        }
        Orientation::Collinear => {
            d.cover("collinear");
            d.assert(flat, "collinear is reported wrongly");
        }
    }
    d.check(r.is_left() == (r == Orientation::Left), "is_left");
    d.check(r.is_left_or_collinear() == (r != Orientation::Right), "is_left_or_collinear");
    let l = d.lit(is_point_left(a.v, b.v, c.v));
    d.assert(left.iff(l), "the left test is wrong");
    let l = d.lit(is_point_left_allow_collinear(a.v, b.v, c.v));
    d.assert((left | flat).iff(l), "the left-or-collinear test is wrong");
    let x = cross_2d(a.v, b.v, c.v);
    d.observe(x);
    let e = d.ex(x);
    let k = inv::<D>(sc);
    d.assert((e * k * k).eq(o), "the cross product is wrong");
    // exchanging two points turns left into right
    let r2 = point_orientation(a.v, c.v, b.v);
    let want = match r {
        Orientation::Left => Orientation::Right,
        Orientation::Right => Orientation::Left,
        x => x,
    };
    d.check(r2 == want, "exchanging two points does not flip the orientation");
    d.check(point_orientation(b.v, c.v, a.v) == r, "rotating the points changes the orientation");
}
pub fn h07(deep: bool) -> Prop {
    let mut hs = vec![];
    let g = if deep { 255 } else { 31 };
    let mut h = hx!("orientation", format!("three points on 0..={g}², scaled by 2^10, 2^-25, 2^±20, offset by -4096, or of width 2^-10 around 2^20"), |d| orientation(d, g, 7));
    h.must_cover = vec!["left", "right", "collinear"];
    hs.push(h);
    Prop {
        id: "H07",
        functions: &["convex_hull::point_orientation", "convex_hull::is_point_left", "convex_hull::is_point_left_allow_collinear", "convex_hull::cross_2d", "Orientation::{is_left,is_left_or_collinear}"],
        bounds: format!("coordinates on 0..={g} and scaled or shifted copies"),
        assumptions: vec![],
        harnesses: hs,
    }
}
