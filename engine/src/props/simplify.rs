//! Line simplification (Ramer–Douglas–Peucker, Visvalingam–Whyatt), distances to a line, discretization.
use super::util::*;
use crate::dom::*;
use crate::hx;
use crate::Prop;
use linestring::linestring_2d::{self as l2, LineString2};
use linestring::linestring_3d::{self as l3, LineString3};
use linestring::prelude::{indexed_simplify_rdp_2d, indexed_simplify_rdp_3d};
use vector_traits::*;

/// a point of either dimension, in grid units
pub type N<E> = Vec<E>;

pub fn sub<E: ExT>(a: &N<E>, b: &N<E>) -> N<E> {
    a.iter().zip(b).map(|(x, y)| *x - *y).collect()
}
pub fn dot<E: ExT>(a: &N<E>, b: &N<E>) -> E {
    let mut s = a[0] * b[0];
    for i in 1..a.len() {
        s = s + a[i] * b[i];
    }
    s
}
pub fn eqn<E: ExT>(a: &N<E>, b: &N<E>) -> E::B {
    let mut r = a[0].eq(b[0]);
    for i in 1..a.len() {
        r = r & a[i].eq(b[i]);
    }
    r
}
/// |u × v|², in any dimension
pub fn cross_sq<E: ExT>(u: &N<E>, v: &N<E>) -> E {
    if u.len() == 2 {
        return (u[0] * v[1] - u[1] * v[0]).sq();
    }
    (u[1] * v[2] - u[2] * v[1]).sq() + (u[2] * v[0] - u[0] * v[2]).sq() + (u[0] * v[1] - u[1] * v[0]).sq()
}
/// squared distance of m to the segment a b, as numerator and (positive) denominator
pub fn dist_seg<E: ExT>(a: &N<E>, b: &N<E>, m: &N<E>) -> (E, E) {
    let (ab, am, bm) = (sub(a, b), sub(a, m), sub(b, m));
    let l = dot(&ab, &ab);
    let t = dot(&am, &ab);
    let z = E::c(0);
    let far = E::ite(t.lt(z), dot(&am, &am) * l, E::ite(t.gt(l), dot(&bm, &bm) * l, cross_sq(&am, &ab)));
    (E::ite(l.is0(), dot(&am, &am), far), E::ite(l.is0(), E::c(1), l))
}

/// the points of a harness: free ones on 0..=g, the first one fixed
fn points<D: Dom>(d: &mut D, dim: usize, n: usize, g: i64, closed: bool) -> Vec<N<D::E>> {
    let mut v: Vec<N<D::E>> = vec![];
    for i in 0..n {
        if i == 0 {
            v.push((0..dim).map(|_| D::E::c(g / 2)).collect());
        } else if closed && i == n - 1 {
            let f = v[0].clone();
            v.push(f)
        } else {
            v.push((0..dim).map(|k| d.int(&format!("p{i}.{}", ["x", "y", "z"][k]), 0, g)).collect());
        }
    }
    v
}
pub fn v2<D: Dom>(d: &D, p: &N<D::E>, sc: Sc) -> D::V2 {
    D::V2::new_2d(sc_scalar(d, p[0], sc), sc_scalar(d, p[1], sc))
}
pub fn v3<D: Dom>(d: &D, p: &N<D::E>, sc: Sc) -> D::V3 {
    D::V3::new_3d(sc_scalar(d, p[0], sc), sc_scalar(d, p[1], sc), sc_scalar(d, p[2], sc))
}
pub fn n2<D: Dom>(d: &mut D, v: D::V2, sc: Sc) -> N<D::E> {
    vec![unscale(d, v.x(), sc), unscale(d, v.y(), sc)]
}
pub fn n3<D: Dom>(d: &mut D, v: D::V3, sc: Sc) -> N<D::E> {
    vec![unscale(d, v.x(), sc), unscale(d, v.y(), sc), unscale(d, v.z(), sc)]
}

/// a function graph: the first coordinate is fixed (uneven steps), the second is free, the third 0
fn graph<D: Dom>(d: &mut D, dim: usize, n: usize, g: i64) -> Vec<N<D::E>> {
    const X: [i64; 9] = [0, 1, 3, 4, 6, 9, 10, 12, 13];
    (0..n)
        .map(|i| {
            let y = if i == 0 { D::E::c(g / 2) } else { d.int(&format!("p{i}.y"), 0, g) };
            let mut v = vec![D::E::c(X[i]), y];
            if dim == 3 {
                v.push(D::E::c(0));
            }
            v
        })
        .collect()
}
/// all index subsets of size k of lo..hi
fn subsets(lo: usize, hi: usize, k: usize) -> Vec<Vec<usize>> {
    let mut r = vec![];
    for m in 0u32..1 << (hi - lo) {
        if m.count_ones() as usize == k {
            r.push((0..hi - lo).filter(|i| m >> i & 1 == 1).map(|i| i + lo).collect());
        }
    }
    r
}

/// S (sorted, with both ends) is a selection Ramer–Douglas–Peucker can make between its first and last member
fn rdp_ok<D: Dom>(d: &D, p: &[N<D::E>], s: &[usize], tol: (D::E, i64)) -> D::B {
    let l = s.len();
    let mut ok: Vec<Vec<D::B>> = vec![vec![d.lit(true); l]; l];
    for w in 1..l {
        for i in 0..l - w {
            let j = i + w;
            let (a, b) = (s[i], s[j]);
            let ds: Vec<(D::E, D::E)> = (a + 1..b).map(|m| dist_seg(&p[a], &p[b], &p[m])).collect();
            let within = |m: usize| {
                let (n, l) = ds[m - a - 1];
                (n * D::E::c(tol.1 * tol.1)).le(tol.0.sq() * l)
            };
            if w == 1 {
                // nothing kept in between: everything is close enough
                let mut r = d.lit(true);
                for m in a + 1..b {
                    r = r & within(m);
                }
                ok[i][j] = r;
                continue;
            }
            // split at a farthest point, which is too far
            let mut any = d.lit(false);
            for k in i + 1..j {
                let m = s[k];
                let mut c = !within(m);
                for o in a + 1..b {
                    if o != m {
                        c = c & ds[o - a - 1].0.le(ds[m - a - 1].0);
                    }
                }
                any = any | (c & ok[i][k] & ok[k][j]);
            }
            ok[i][j] = any;
        }
    }
    ok[0][l - 1]
}

/// lines of many points, given but for one
const LONG: &[&[(i64, i64)]] = &[
    // a slow wave
    &[(0, 4), (1, 5), (2, 7), (3, 8), (5, 8), (6, 6), (7, 3), (9, 1), (10, 0), (12, 1), (13, 3), (14, 7)],
    // a zigzag
    &[(0, 0), (1, 6), (2, 1), (3, 8), (5, 0), (6, 7), (8, 2), (9, 9), (10, 1), (11, 5), (13, 3), (14, 4)],
    // a spiral
    &[(7, 7), (8, 7), (8, 9), (5, 9), (5, 5), (10, 4), (11, 11), (3, 12), (2, 2), (13, 1), (14, 14), (0, 15)],
    // almost straight, with one outlier
    &[(0, 3), (1, 4), (3, 3), (4, 3), (6, 4), (7, 12), (8, 3), (9, 2), (11, 3), (12, 4), (14, 3), (15, 3)],
    // running back over itself
    &[(0, 0), (10, 1), (3, 2), (12, 3), (1, 5), (9, 6), (4, 7), (15, 8), (2, 10), (11, 11), (5, 13), (8, 15)],
    // a ring
    &[(1, 5), (3, 9), (5, 12), (9, 13), (13, 11), (15, 7), (14, 3), (11, 1), (8, 0), (4, 1), (2, 3), (1, 5)],
];
/// one of the long lines with one point (of four) at any height 0..=15, or (plane) anywhere on 0..=15ⁿ, away from
/// the others
fn long_line<D: Dom>(d: &mut D, dim: usize, lines: &[usize], plane: bool) -> Vec<N<D::E>> {
    let t = LONG[lines[d.choice("line", lines.len())]];
    let mut p: Vec<N<D::E>> = t
        .iter()
        .map(|&(x, y)| {
            let mut v = vec![D::E::c(x), D::E::c(y)];
            if dim == 3 {
                v.push(D::E::c((x * y) % 7));
            }
            v
        })
        .collect();
    let k = [1, 4, 6, 10][d.choice("point", 4)];
    let mut q = p[k].clone();
    for a in 0..dim {
        if a == 1 || plane {
            q[a] = d.int(&format!("q.{}", ["x", "y", "z"][a]), 0, if a == 2 { 3 } else { 15 });
        }
    }
    for (i, o) in p.iter().enumerate() {
        if i != k {
            d.assume(!eqn(o, &q));
        }
    }
    p[k] = q;
    p
}
/// which points of the line the result consists of (the points differ, but for a ring's last one)
fn selection<D: Dom>(d: &mut D, p: &[N<D::E>], o: &[N<D::E>], from: usize) -> Option<Vec<usize>> {
    let mut s = vec![];
    let mut k = from;
    for x in o {
        while k < p.len() && !d.branch(eqn(x, &p[k])) {
            k += 1;
        }
        if k == p.len() {
            d.fail("the result is not a selection of the points in their order");
            return None;
        }
        s.push(k);
        k += 1;
    }
    Some(s)
}
fn rdp_long<D: Dom>(d: &mut D, dim: usize, plane: bool, indexed: bool) {
    let p = long_line(d, dim, &[0, 1, 2, 3, 4, 5], plane);
    let n = p.len();
    let tol = (D::E::c([1, 3, 6, 11][d.choice("tolerance", 4)]), 2);
    let t = tol_scalar(d, tol, (1, 1));
    // the index list runs over the line but in a vertex list of its own order
    let list: Vec<usize> = (0..n).map(|i| (i * 5 + 3) % n).collect();
    let s = if dim == 2 {
        let v: Vec<D::V2> = p.iter().map(|q| v2(d, q, (1, 1))).collect();
        if indexed {
            let mut w = v.clone();
            for i in 0..n {
                w[list[i]] = v[i];
            }
            by_list(d, &list, indexed_simplify_rdp_2d(&w, &list, t))
        } else {
            let o: Vec<N<D::E>> = v.simplify_rdp(t).iter().map(|v| n2(d, *v, (1, 1))).collect();
            from_ends(d, &p, &o)
        }
    } else {
        let v: Vec<D::V3> = p.iter().map(|q| v3(d, q, (1, 1))).collect();
        if indexed {
            let mut w = v.clone();
            for i in 0..n {
                w[list[i]] = v[i];
            }
            by_list(d, &list, indexed_simplify_rdp_3d(&w, &list, t))
        } else {
            let o: Vec<N<D::E>> = v.simplify_rdp(t).iter().map(|v| n3(d, *v, (1, 1))).collect();
            from_ends(d, &p, &o)
        }
    };
    let Some(s) = s else { return };
    d.cover(if s.len() == n { "all" } else if s.len() < 4 { "few" } else { "some" });
    d.check(s.len() >= 2 && s[0] == 0 && s[s.len() - 1] == n - 1, "an end point is not kept");
    let ok = rdp_ok(d, &p, &s, tol);
    d.assert(ok, "a dropped point is too far from the line or a point is kept needlessly");
}
fn long(hs: &mut Vec<crate::explore::Harness>, deep: bool, dim: usize, indexed: bool) {
    let t = if indexed { ", index lists in another order" } else { "" };
    let n = format!("rdp{}{dim}-long", if indexed { "i" } else { "" });
    hs.push(hx!(n.clone(), format!("{} lines of 12 points ({dim}D{t}) with one point (of four) at any height 0..=15, 4 tolerances", LONG.len()), |d| rdp_long(d, dim, false, indexed)));
    if deep {
        hs.push(hx!(format!("{n}-plane"), format!("{} lines of 12 points ({dim}D{t}) with one point (of four) anywhere on 0..=15², 4 tolerances", LONG.len()), |d| rdp_long(d, dim, true, indexed)));
    }
}
fn by_list<D: Dom>(d: &mut D, list: &[usize], out: Vec<usize>) -> Option<Vec<usize>> {
    let s: Vec<usize> = out.iter().filter_map(|i| list.iter().position(|j| j == i)).collect();
    if s.len() != out.len() || s.windows(2).any(|w| w[0] >= w[1]) || s.len() < 2 {
        d.fail("the result is not a selection of the indices in their order");
        return None;
    }
    Some(s)
}
fn from_ends<D: Dom>(d: &mut D, p: &[N<D::E>], o: &[N<D::E>]) -> Option<Vec<usize>> {
    let n = p.len();
    if o.len() < 2 {
        d.fail("an end point is missing");
        return None;
    }
    let e = eqn(&o[0], &p[0]) & eqn(&o[o.len() - 1], &p[n - 1]);
    d.assert(e, "an end point is not kept");
    let mut s = vec![0];
    s.extend(selection(d, &p[..n - 1], &o[1..o.len() - 1], 1)?);
    s.push(n - 1);
    Some(s)
}

fn tolerance<D: Dom>(d: &mut D, g: i64) -> (D::E, i64) {
    (d.int("tol", 0, 2 * g), 2)
}

/// out selects points of p the way the algorithm may
fn rdp_check<D: Dom>(d: &mut D, p: &[N<D::E>], len: usize, tol: (D::E, i64), eq: impl Fn(&D, usize, usize) -> D::B) {
    let n = p.len();
    if n == 0 {
        d.check(len == 0, "points out of nothing");
        return;
    }
    d.check(len <= n, "more points than the line had");
    d.check(len >= n.min(2), "an end point is missing");
    if len > n || len < n.min(2) {
        return;
    }
    d.cover(if len == n { "all" } else if len == 2 { "two" } else { "some" });
    let ends = eq(d, 0, 0) & eq(d, len - 1, n - 1);
    d.assert(ends, "an end point is not kept");
    if n <= 2 {
        return;
    }
    let mut sel = d.lit(false);
    let mut ok = d.lit(false);
    for mid in subsets(1, n - 1, len - 2) {
        let mut s = vec![0];
        s.extend(mid);
        s.push(n - 1);
        let mut m = d.lit(true);
        for (i, &k) in s.iter().enumerate() {
            m = m & eq(d, i, k);
        }
        sel = sel | m;
        ok = ok | (m & rdp_ok(d, p, &s, tol));
    }
    d.assert(sel, "the result is not a selection of the points in their order");
    d.assert(ok, "a dropped point is too far from the line or a point is kept needlessly");
}

fn rdp_scale<D: Dom>(d: &mut D, n: usize, closed: bool, scales: usize) -> Sc {
    match (scales, n, closed) {
        (0, ..) => TINY,
        (4, 3, false) => [(1, 1), (1 << 10, 1), (1, 1 << 10), (0, 0)][d.choice("scale", 4)],
        _ => scale(d, scales),
    }
}
fn rdp2<D: Dom>(d: &mut D, n: usize, g: i64, closed: bool, scales: usize) {
    let sc = rdp_scale(d, n, closed, scales);
    let p = points(d, 2, n, g, closed);
    let tol = tolerance(d, g);
    let line: Vec<D::V2> = p.iter().map(|q| v2(d, q, sc)).collect();
    let t = tol_scalar(d, tol, sc);
    let out = line.simplify_rdp(t);
    let o: Vec<N<D::E>> = out.iter().map(|v| n2(d, *v, sc)).collect();
    for v in &out {
        obs2(d, *v);
    }
    rdp_check(d, &p, o.len(), tol, |_, i, k| eqn(&o[i], &p[k]));
}
fn rdp3<D: Dom>(d: &mut D, n: usize, g: i64, closed: bool, scales: usize) {
    let sc = rdp_scale(d, n, closed, scales);
    let p = points(d, 3, n, g, closed);
    let tol = tolerance(d, g);
    let line: Vec<D::V3> = p.iter().map(|q| v3(d, q, sc)).collect();
    let t = tol_scalar(d, tol, sc);
    let out = line.simplify_rdp(t);
    let o: Vec<N<D::E>> = out.iter().map(|v| n3(d, *v, sc)).collect();
    rdp_check(d, &p, o.len(), tol, |_, i, k| eqn(&o[i], &p[k]));
}
/// tolerances are lengths: scaled but not shifted
fn tol_scalar<D: Dom>(d: &D, tol: (D::E, i64), sc: Sc) -> D::S {
    let l = len_scale(sc);
    d.scalar(tol.0, l.0, l.1 * tol.1)
}

/// index lists: in order, reversed, permuted with an unused vertex, closed, with a repeated vertex
const LISTS: &[&[usize]] = &[&[0, 1, 2, 3], &[3, 1, 0, 2], &[2, 0, 3, 2], &[1, 3, 1, 0], &[0, 2, 3], &[3, 2, 2, 0], &[1, 0], &[2], &[]];
const LISTS5: &[&[usize]] = &[&[0, 1, 2, 3, 4], &[4, 2, 0, 1, 3], &[1, 4, 0, 3, 1], &[0, 3, 2, 3, 1]];

fn rdpi<D: Dom>(d: &mut D, dim: usize, lists: &[&[usize]], g: i64) {
    rdpi_sc(d, dim, lists, g, (1, 1));
}
fn rdpi_scaled<D: Dom>(d: &mut D, dim: usize, g: i64) {
    let sc = [(1, 1 << 10), (1 << 10, 1), TINY][d.choice("scale", 3)];
    rdpi_sc(d, dim, &[&[0, 1, 2], &[2, 0, 1]], g, sc);
}
fn rdpi_sc<D: Dom>(d: &mut D, dim: usize, lists: &[&[usize]], g: i64, sc: Sc) {
    let list = lists[d.choice("list", lists.len())];
    let nv = lists[0].len();
    let p = points(d, dim, nv, g, false);
    let tol = tolerance(d, g);
    let t = tol_scalar(d, tol, sc);
    let out = if dim == 2 {
        let v: Vec<D::V2> = p.iter().map(|q| v2(d, q, sc)).collect();
        indexed_simplify_rdp_2d(&v, list, t)
    } else {
        let v: Vec<D::V3> = p.iter().map(|q| v3(d, q, sc)).collect();
        indexed_simplify_rdp_3d(&v, list, t)
    };
    let q: Vec<N<D::E>> = list.iter().map(|i| p[*i].clone()).collect();
    rdp_check(d, &q, out.len(), tol, |d, i, k| d.lit(out[i] == list[k]));
}
/// the indexed and the plain version select the same points
fn rdp_same<D: Dom>(d: &mut D, dim: usize, n: usize, g: i64) {
    let sc = (1, 1);
    let p = points(d, dim, n, g, false);
    let tol = tolerance(d, g);
    let t = tol_scalar(d, tol, sc);
    let list: Vec<usize> = (0..n).collect();
    let (a, b): (Vec<N<D::E>>, Vec<usize>) = if dim == 2 {
        let v: Vec<D::V2> = p.iter().map(|q| v2(d, q, sc)).collect();
        let a = v.simplify_rdp(t);
        (a.iter().map(|x| n2(d, *x, sc)).collect(), indexed_simplify_rdp_2d(&v, &list, t))
    } else {
        let v: Vec<D::V3> = p.iter().map(|q| v3(d, q, sc)).collect();
        let a = v.simplify_rdp(t);
        (a.iter().map(|x| n3(d, *x, sc)).collect(), indexed_simplify_rdp_3d(&v, &list, t))
    };
    d.check(a.len() == b.len(), "the plain and the indexed simplification keep different numbers of points");
    if a.len() == b.len() {
        let mut same = d.lit(true);
        for (x, i) in a.iter().zip(&b) {
            if *i >= n {
                d.fail("an index out of range");
                return;
            }
            same = same & eqn(x, &p[*i]);
        }
        d.assert(same, "the plain and the indexed simplification keep different points");
    }
}

// ------------------------------------------------------------------------------------ Visvalingam–Whyatt
/// every set of removals a sequence of smallest-triangle removals can lead to
/// chain: 0..=m, the ends fixed; returns reach[mask] for the interior points 1..m
fn vw_reach<D: Dom>(d: &D, p: &[N<D::E>], upto: usize) -> Vec<Option<D::B>> {
    let m = p.len() - 1;
    let k = m - 1;
    let mut reach: Vec<Option<D::B>> = vec![None; 1 << k];
    reach[0] = Some(d.lit(true));
    for mask in 0usize..1 << k {
        let Some(r) = reach[mask] else { continue };
        if mask.count_ones() as usize >= upto {
            continue;
        }
        let left: Vec<usize> = (0..=m).filter(|i| *i == 0 || *i == m || mask >> (i - 1) & 1 == 0).collect();
        let area: Vec<D::E> = (1..left.len() - 1)
            .map(|i| cross_sq(&sub(&p[left[i - 1]], &p[left[i]]), &sub(&p[left[i + 1]], &p[left[i]])))
            .collect();
        for i in 0..area.len() {
            let mut c = r;
            for j in 0..area.len() {
                if j != i {
                    c = c & area[i].le(area[j]);
                }
            }
            let nm = mask | 1 << (left[i + 1] - 1);
            reach[nm] = Some(match reach[nm] {
                Some(x) => x | c,
                None => c,
            });
        }
    }
    reach
}

fn vw_check<D: Dom>(d: &mut D, p: &[N<D::E>], out: &[N<D::E>], ring: bool, last: bool, k: usize, floor: usize) {
    let n = p.len();
    // the chain the triangles are taken from
    let mut chain = p.to_vec();
    if ring {
        chain.push(p[0].clone());
    }
    let m = chain.len() - 1;
    let tail = usize::from(last && !ring);
    let full = 1 + (m - 1) + tail;
    d.check(out.len() <= full, "more points than the line had");
    d.check(out.len() >= 1 + tail, "an end point is missing");
    if out.len() > full || out.len() < 1 + tail {
        return;
    }
    let removed = full - out.len();
    d.check(removed <= k, "more points removed than asked for");
    let want = k.min((m - 1).saturating_sub(floor));
    d.check(removed >= want, "fewer points removed than asked for");
    d.cover(if removed == 0 { "none" } else { "some" });
    if removed > k {
        return;
    }
    let reach = vw_reach(d, &chain, removed);
    let mut sel = d.lit(false);
    let mut ok = d.lit(false);
    for mask in 0usize..1 << (m - 1) {
        if mask.count_ones() as usize != removed {
            continue;
        }
        let mut s: Vec<usize> = (0..m).filter(|i| *i == 0 || mask >> (i - 1) & 1 == 0).collect();
        if tail == 1 {
            s.push(n - 1);
        }
        let mut e = d.lit(true);
        for (o, i) in out.iter().zip(&s) {
            e = e & eqn(o, &chain[*i]);
        }
        sel = sel | e;
        if let Some(r) = reach[mask] {
            ok = ok | (e & r);
        }
    }
    d.assert(sel, "the result is not a selection of the points in their order with the end points");
    d.assert(ok, "a removed point did not have the smallest triangle");
}

fn vw2<D: Dom>(d: &mut D, n: usize, g: i64, closed: bool) {
    let p = points(d, 2, n, g, closed);
    vw2_at(d, p, closed);
}
fn vw2_graph<D: Dom>(d: &mut D, n: usize, g: i64) {
    let p = graph(d, 2, n, g);
    vw2_at(d, p, false);
}
fn vw3_graph<D: Dom>(d: &mut D, n: usize, g: i64) {
    let p = graph(d, 3, n, g);
    vw3_at(d, p);
}
/// scaled by 2^±10 or 2^-25
fn vw_scaled<D: Dom>(d: &mut D, dim: usize, n: usize, g: i64) {
    let sc = [(1, 1 << 10), (1 << 10, 1), TINY][d.choice("scale", 3)];
    let p = points(d, dim, n, g, false);
    if dim == 2 {
        vw2_sc(d, p, false, sc);
    } else {
        vw3_sc(d, p, sc);
    }
}
fn vw2_at<D: Dom>(d: &mut D, p: Vec<N<D::E>>, closed: bool) {
    vw2_sc(d, p, closed, (1, 1));
}
fn vw2_sc<D: Dom>(d: &mut D, p: Vec<N<D::E>>, closed: bool, sc: Sc) {
    let n = p.len();
    let k = d.choice("remove", n);
    let line: Vec<D::V2> = p.iter().map(|q| v2(d, q, sc)).collect();
    if !closed {
        d.assume(!eqn(&p[0], &p[n - 1]));
    }
    let out = line.simplify_vw(k);
    for v in &out {
        obs2(d, *v);
    }
    let o: Vec<N<D::E>> = out.iter().map(|v| n2(d, *v, sc)).collect();
    if n <= 2 {
        d.check(o.len() == n, "a line of two points changed");
        return;
    }
    // the 2d version leaves a line of two inner points alone
    vw_check(d, &p, &o, closed, true, k, if n == 3 && !closed { 0 } else { 2 });
}
fn vw3<D: Dom>(d: &mut D, n: usize, g: i64, closed: bool) {
    let p = points(d, 3, n, g, closed);
    vw3_at(d, p);
}
fn vw3_at<D: Dom>(d: &mut D, p: Vec<N<D::E>>) {
    vw3_sc(d, p, (1, 1));
}
fn vw3_sc<D: Dom>(d: &mut D, p: Vec<N<D::E>>, sc: Sc) {
    let n = p.len();
    let k = d.choice("remove", n);
    let line: Vec<D::V3> = p.iter().map(|q| v3(d, q, sc)).collect();
    let out = line.simplify_vw(k);
    let o: Vec<N<D::E>> = out.iter().map(|v| n3(d, *v, sc)).collect();
    if n <= 2 {
        d.check(o.len() == n, "a line of two points changed");
        return;
    }
    // whether the last point is there is judged by kf:vw3
    let has_last = o.len() == n - k.min(n - 2);
    vw_check(d, &p, &o, false, has_last, k, 0);
}
/// many points: the removals are redone in exact arithmetic; nothing is said from the first tie on
fn vw_long<D: Dom>(d: &mut D, dim: usize, plane: bool) {
    let line = d.choice("kind", 2);
    let p = long_line(d, dim, if line == 0 { &[0, 1, 2, 3, 4] } else { &[5] }, plane);
    let n = p.len();
    let k = [1, 3, 6, 9, 12][d.choice("remove", 5)];
    let o: Vec<N<D::E>> = if dim == 2 {
        let v: Vec<D::V2> = p.iter().map(|q| v2(d, q, (1, 1))).collect();
        v.simplify_vw(k).iter().map(|v| n2(d, *v, (1, 1))).collect()
    } else {
        let v: Vec<D::V3> = p.iter().map(|q| v3(d, q, (1, 1))).collect();
        v.simplify_vw(k).iter().map(|v| n3(d, *v, (1, 1))).collect()
    };
    let ring = line == 1 && dim == 2;
    let mut chain = p.clone();
    if ring {
        chain.push(p[0].clone());
    }
    let m = chain.len() - 1;
    let floor = if dim == 2 { 2 } else { 0 };
    let want = k.min((m - 1).saturating_sub(floor));
    let mut left: Vec<usize> = (0..=m).collect();
    for _ in 0..want {
        let area: Vec<D::E> = (1..left.len() - 1)
            .map(|i| cross_sq(&sub(&chain[left[i - 1]], &chain[left[i]]), &sub(&chain[left[i + 1]], &chain[left[i]])))
            .collect();
        let (mut best, mut tie) = (0, false);
        for i in 1..area.len() {
            if d.branch(area[i].lt(area[best])) {
                (best, tie) = (i, false);
            } else if d.branch(area[i].eq(area[best])) {
                tie = true;
            }
        }
        if tie {
            d.cover("tie");
            return;
        }
        left.remove(best + 1);
    }
    // a ring's closing point is that of the chain; a 3d line may lack its last point (known findings)
    if ring {
        left.pop();
    }
    if dim == 3 && o.len() + 1 == left.len() {
        left.pop();
    }
    d.check(o.len() == left.len(), "another number of points is left");
    if o.len() != left.len() {
        return;
    }
    let mut same = d.lit(true);
    for (x, i) in o.iter().zip(&left) {
        same = same & eqn(x, &chain[*i]);
    }
    d.assert(same, "a point other than the one with the smallest triangle is removed");
    d.cover(if o.len() < n / 2 { "few" } else { "many" });
}
fn kf_vw2<D: Dom>(d: &mut D) {
    let p = points(d, 2, 4, 2, true);
    let line: Vec<D::V2> = p.iter().map(|q| v2(d, q, (1, 1))).collect();
    let out = line.simplify_vw(1);
    let o: Vec<N<D::E>> = out.iter().map(|v| n2(d, *v, (1, 1))).collect();
    let e = eqn(&o[0], &o[o.len() - 1]);
    d.assert(e, "the simplified ring is not closed");
}
fn kf_vw3<D: Dom>(d: &mut D) {
    let p = points(d, 3, 4, 2, false);
    let line: Vec<D::V3> = p.iter().map(|q| v3(d, q, (1, 1))).collect();
    let out = line.simplify_vw(1);
    let o: Vec<N<D::E>> = out.iter().map(|v| n3(d, *v, (1, 1))).collect();
    let e = eqn(&p[3], &o[o.len() - 1]);
    d.assert(e, "the last point of the line is not kept");
}

// ------------------------------------------------------------------------------------ distances
fn dist<D: Dom>(d: &mut D, dim: usize, g: i64, scales: usize) {
    let sc = match scale(d, scales) {
        TINY => (1, 1 << 27),
        sc => sc,
    };
    let p = points(d, dim, 3, g, false);
    // p[0] is the query point, p[1] p[2] the segment
    let safe = d.choice("safe", 2) == 1;
    if !safe {
        d.assume(!eqn(&p[1], &p[2]));
    }
    let s = if dim == 2 {
        let v: Vec<D::V2> = p.iter().map(|q| v2(d, q, sc)).collect();
        if safe {
            l2::distance_to_line_squared_safe(v[1], v[2], v[0])
        } else {
            l2::distance_to_line_squared(v[1], v[2], v[0])
        }
    } else {
        let v: Vec<D::V3> = p.iter().map(|q| v3(d, q, sc)).collect();
        if safe {
            l3::distance_to_line_squared_safe(v[1], v[2], v[0])
        } else {
            l3::distance_to_line_squared(v[1], v[2], v[0])
        }
    };
    d.observe(s);
    d.cover(if safe { "safe" } else { "plain" });
    let e = d.ex(s);
    let k = len_scale(sc);
    // in grid units
    let e = e * D::E::frac(k.1 * k.1, k.0 * k.0);
    let (ab, am, bm) = (sub(&p[1], &p[2]), sub(&p[1], &p[0]), sub(&p[2], &p[0]));
    let (l, t, z) = (dot(&ab, &ab), dot(&am, &ab), D::E::c(0));
    // before the start (or no segment at all), beyond the end, beside the segment
    let at_start = e.eq(dot(&am, &am));
    let at_end = e.eq(dot(&bm, &bm));
    let beside = (e * l).eq(cross_sq(&am, &ab));
    let ok = (l.is0() | t.lt(z)).implies(at_start)
        & t.gt(l).implies(at_end)
        & (!l.is0() & t.ge(z) & t.le(l)).implies(beside);
    d.assert(ok, "not the squared distance to the segment");
}
fn to_coord<D: Dom>(d: &mut D, g: i64) {
    let sc = (1, 1);
    let p = points(d, 2, 3, g, false);
    let (ke, ks) = d.i("k", -g, g);
    let r = l2::scale_to_coordinate(v2(d, &p[1], sc), v2(d, &p[2], sc), ks);
    let r = n2(d, r, sc);
    let e = r[0].eq(p[1][0] + p[2][0] * ke) & r[1].eq(p[1][1] + p[2][1] * ke);
    d.assert(e, "not the point plus the scaled vector");
    d.cover("done");
}

// ------------------------------------------------------------------------------------ discretization
/// step lengths: halves of the grid
const STEPS: &[i64] = &[1, 2, 3, 5, 9];

fn disc<D: Dom>(d: &mut D, dim: usize, n: usize, g: i64, steps: &[i64])
where
    usize: num_traits::AsPrimitive<D::S>,
{
    let p = points(d, dim, n, g, false);
    disc_at(d, dim, p, g, steps);
}
/// long segments: mostly along the first axis
fn disc_long<D: Dom>(d: &mut D, dim: usize, n: usize, g: i64, steps: &[i64])
where
    usize: num_traits::AsPrimitive<D::S>,
{
    let axis = d.choice("axis", dim);
    let p: Vec<N<D::E>> = (0..n)
        .map(|i| (0..dim).map(|a| if i == 0 || (a != axis && (i + a) % 2 == 0) { D::E::c(1) } else { d.int(&format!("p{i}.{}", ["x", "y", "z"][a]), 0, if a == axis { g } else { 2 }) }).collect())
        .collect();
    disc_at(d, dim, p, g, steps);
}
/// a given line of eight points, one of them moving along one axis
fn disc_many<D: Dom>(d: &mut D, dim: usize)
where
    usize: num_traits::AsPrimitive<D::S>,
{
    const T: [[i64; 3]; 8] = [[0, 0, 0], [4, 3, 0], [4, 0, 1], [6, 0, 1], [6, 8, 1], [6, 8, 4], [0, 0, 4], [0, 2, 4]];
    let mut p: Vec<N<D::E>> = T.iter().map(|c| (0..dim).map(|k| D::E::c(c[k])).collect()).collect();
    let (i, k) = ([0, 3, 7][d.choice("point", 3)], d.choice("axis", dim));
    p[i][k] = d.int("q", 0, 9);
    disc_at(d, dim, p, 6, &[4, 9, 40]);
}
/// a segment along an axis of almost any number of steps, to one unit in 2^-27 of a step
fn disc_fine<D: Dom>(d: &mut D, dim: usize)
where
    usize: num_traits::AsPrimitive<D::S>,
{
    const S: i64 = 1 << 27;
    let axis = d.choice("axis", dim);
    let x = d.int("x", 1, 3 * S);
    let p: Vec<N<D::E>> = [D::E::c(0), x].iter().map(|x| (0..dim).map(|a| if a == axis { *x } else { D::E::c(0) }).collect()).collect();
    let (sc, s) = ((1, 1), d.k(S as f64));
    let o: Vec<N<D::E>> = if dim == 2 {
        let v: Vec<D::V2> = p.iter().map(|q| v2(d, q, sc)).collect();
        let r: Vec<D::V2> = v.discretize(s).take(9).collect();
        r.iter().map(|x| n2(d, *x, sc)).collect()
    } else {
        let v: Vec<D::V3> = p.iter().map(|q| v3(d, q, sc)).collect();
        let r: Vec<D::V3> = v.discretize(s).take(9).collect();
        r.iter().map(|x| n3(d, *x, sc)).collect()
    };
    d.check(o.len() >= 2 && o.len() < 9, "an end of a long segment is missing, or too many steps are taken");
    let mut ok = d.lit(true);
    for w in o.windows(2) {
        let l = w[1][axis] - w[0][axis];
        ok = ok & l.le(D::E::c(S)) & l.ge(D::E::c(0));
    }
    d.assert(ok, "a step along a long segment is longer than the distance");
    if o.len() >= 2 {
        let e = eqn(&o[0], &p[0]) & eqn(&o[o.len() - 1], &p[1]);
        d.assert(e, "an end of a long segment is not kept");
    }
}
fn disc_at<D: Dom>(d: &mut D, dim: usize, p: Vec<N<D::E>>, g: i64, steps: &[i64])
where
    usize: num_traits::AsPrimitive<D::S>,
{
    let sc = (1, 1);
    let n = p.len();
    let st = steps[d.choice("step", steps.len())];
    let s = d.scalar(D::E::c(st), 1, 2);
    // an upper bound of the number of points per segment, so that a runaway is noticed
    let cap = 2 + n * (4 * g as usize + 4);
    let o: Vec<N<D::E>> = if dim == 2 {
        let v: Vec<D::V2> = p.iter().map(|q| v2(d, q, sc)).collect();
        let r: Vec<D::V2> = v.discretize(s).take(cap).collect();
        r.iter().map(|x| n2(d, *x, sc)).collect()
    } else {
        let v: Vec<D::V3> = p.iter().map(|q| v3(d, q, sc)).collect();
        let r: Vec<D::V3> = v.discretize(s).take(cap).collect();
        r.iter().map(|x| n3(d, *x, sc)).collect()
    };
    if n == 0 {
        d.check(o.is_empty(), "points out of nothing");
        return;
    }
    d.check(o.len() < cap, "the iteration does not end");
    d.check(o.len() >= n, "points of the line are missing");
    if o.len() >= cap || o.len() < n {
        return;
    }
    d.cover(if o.len() == n { "same" } else { "more" });
    // steps are short enough
    let mut short = d.lit(true);
    for w in o.windows(2) {
        let v = sub(&w[0], &w[1]);
        short = short & (dot(&v, &v) * D::E::c(4)).le(D::E::c(st * st));
    }
    d.assert(short, "a step is longer than the distance");
    // walk along the line: at[i][k] = output k is vertex i and everything before it is in place
    // (the vertex positions are not known in advance: consider every increasing assignment)
    let last = o.len() - 1;
    let mut at: Vec<D::B> = (0..=last).map(|k| if k == 0 { eqn(&o[0], &p[0]) } else { d.lit(false) }).collect();
    for i in 1..n {
        let mut nx: Vec<D::B> = (0..=last).map(|_| d.lit(false)).collect();
        for k in 0..last {
            // from k (vertex i-1) to m (vertex i)
            for m in k + 1..=last {
                let mut c = at[k] & eqn(&o[m], &p[i]);
                let dir = sub(&p[i], &p[i - 1]);
                let len = D::E::c((m - k) as i64);
                if m - k > 1 {
                    // one step less would not do
                    let need = st * (m - k - 1) as i64;
                    c = c & D::E::c(need * need).lt(dot(&dir, &dir) * D::E::c(4));
                }
                for j in k + 1..m {
                    // equally spaced
                    let v = sub(&o[j], &p[i - 1]);
                    let f = D::E::c((j - k) as i64);
                    for a in 0..v.len() {
                        c = c & (v[a] * len).eq(dir[a] * f);
                    }
                }
                nx[m] = nx[m] | c;
            }
        }
        at = nx;
    }
    let all = at[last];
    d.assert(all, "the points are not those of the line with equal steps between them");
}

// ------------------------------------------------------------------------------------ properties
pub fn r01(deep: bool) -> Prop {
    let mut hs = vec![];
    for n in 0..3 {
        hs.push(hx!(format!("rdp2-{n}"), "lines of up to two points", |d| rdp2(d, n, 3, false, 1)));
    }
    let g = if deep { 12 } else { 8 };
    hs.push(hx!("rdp2-3", format!("3 points, 2 free on 0..={g}², tolerance 0..={g} in halves, scaled by 2^±10, shifted"), |d| rdp2(d, 3, g, false, 4)));
    hs.push(hx!("rdp2-tiny", "3 points, 2 free on 0..=2², tolerance 0..=2 in halves, scaled by 2^-25", |d| rdp2(d, 3, 2, false, 0)));
    let g = if deep { 6 } else { 4 };
    hs.push(hx!("rdp2-4", format!("4 points, 3 free on 0..={g}²"), |d| rdp2(d, 4, g, false, 1)));
    hs.push(hx!("rdp2-ring", format!("rings of 4 points, 2 free ones on 0..={g}², scaled and shifted"), |d| rdp2(d, 4, g, true, 4)));
    let g = if deep { 3 } else { 2 };
    hs.push(hx!("rdp2-5", format!("5 points, 4 free on 0..={g}²"), |d| rdp2(d, 5, g, false, 1)));
    if deep {
        hs.push(hx!("rdp2-ring5", "rings of 5 points, 3 free ones on 0..=4²", |d| rdp2(d, 5, 4, true, 1)));
        hs.push(hx!("rdp2-6", "6 points, 5 free on 0..=2²", |d| rdp2(d, 6, 2, false, 1)));
    }
    long(&mut hs, deep, 2, false);
    Prop {
        id: "R01",
        functions: &["linestring_2d::LineString2::simplify_rdp", "linestring_2d::simplify::simplify_rdp_recursive", "linestring_2d::distance_to_line_squared_safe"],
        bounds: "distances to the segment between two kept points; tolerances in halves; grids, number of points and scales as listed".into(),
        assumptions: vec![],
        harnesses: hs,
    }
}
pub fn r02(deep: bool) -> Prop {
    let mut hs = vec![];
    for n in 0..3 {
        hs.push(hx!(format!("rdp3-{n}"), "lines of up to two points", |d| rdp3(d, n, 3, false, 1)));
    }
    let g = if deep { 6 } else { 4 };
    hs.push(hx!("rdp3-3", format!("3 points, 2 free on 0..={g}³, tolerance 0..={g} in halves, scaled by 2^±10, shifted"), |d| rdp3(d, 3, g, false, 4)));
    hs.push(hx!("rdp3-tiny", "3 points, 2 free on 0..=2³, tolerance 0..=2 in halves, scaled by 2^-25", |d| rdp3(d, 3, 2, false, 0)));
    let g = if deep { 4 } else { 3 };
    hs.push(hx!("rdp3-4", format!("4 points, 3 free on 0..={g}³"), |d| rdp3(d, 4, g, false, 1)));
    hs.push(hx!("rdp3-ring", format!("rings of 4 points, 2 free ones on 0..={g}³, scaled and shifted"), |d| rdp3(d, 4, g, true, 4)));
    if deep {
        hs.push(hx!("rdp3-5", "5 points, 4 free on 0..=2³", |d| rdp3(d, 5, 2, false, 1)));
    }
    long(&mut hs, deep, 3, false);
    Prop {
        id: "R02",
        functions: &["linestring_3d::LineString3::simplify_rdp", "linestring_3d::simplify::simplify_rdp_recursive", "linestring_3d::distance_to_line_squared_safe"],
        bounds: "as R01 in three dimensions".into(),
        assumptions: vec![],
        harnesses: hs,
    }
}
pub fn r03(deep: bool) -> Prop {
    let mut hs = vec![];
    let g = if deep { 5 } else { 4 };
    hs.push(hx!("rdpi2", format!("4 vertices, 3 free on 0..={g}², 9 index lists"), |d| rdpi(d, 2, LISTS, g)));
    for dim in [2, 3] {
        hs.push(hx!(format!("rdpi{dim}-scaled"), format!("3 vertices, 2 free on 0..=2^{dim}, 2 index lists, scaled by 2^±10 and 2^-25"), |d| rdpi_scaled(d, dim, 2)));
    }
    hs.push(hx!("rdpi3", "4 vertices, 3 free on 0..=2³, 9 index lists", |d| rdpi(d, 3, LISTS, 2)));
    let g = if deep { 3 } else { 2 };
    hs.push(hx!("rdpi2-5", format!("5 vertices, 4 free on 0..={g}², 4 index lists"), |d| rdpi(d, 2, LISTS5, g)));
    let g = if deep { 6 } else { 5 };
    hs.push(hx!("same2", format!("plain and indexed, 4 points, 3 free on 0..={g}²"), |d| rdp_same(d, 2, 4, g)));
    hs.push(hx!("same2-5", "plain and indexed, 5 points, 4 free on 0..=2²", |d| rdp_same(d, 2, 5, 2)));
    let g = if deep { 3 } else { 2 };
    hs.push(hx!("same3", format!("plain and indexed, 4 points, 3 free on 0..={g}³"), |d| rdp_same(d, 3, 4, g)));
    long(&mut hs, deep, 2, true);
    long(&mut hs, deep, 3, true);
    Prop {
        id: "R03",
        functions: &["linestring_2d::simplify::indexed_simplify_rdp", "linestring_3d::simplify::indexed_simplify_rdp"],
        bounds: "index lists of up to 4 entries (thorough 5), with repeats, unused vertices and closed lists".into(),
        assumptions: vec![],
        harnesses: hs,
    }
}
pub fn v01(deep: bool) -> Prop {
    let mut hs = vec![];
    for n in 0..3 {
        hs.push(hx!(format!("vw2-{n}"), "lines of up to two points", |d| vw2_small(d, n)));
    }
    hs.push(hx!("vw2-3", "open, 3 points, 2 free on 0..=10²", |d| vw2(d, 3, 10, false)));
    let g = if deep { 8 } else { 6 };
    hs.push(hx!("vw2-4", format!("open, 4 points, 3 free on 0..={g}²"), |d| vw2(d, 4, g, false)));
    hs.push(hx!("vw2-ring4", format!("rings of 4 points, 2 free ones on 0..={g}²"), |d| vw2(d, 4, g, true)));
    let g = if deep { 4 } else { 3 };
    hs.push(hx!("vw2-5", format!("open, 5 points, 4 free on 0..={g}²"), |d| vw2(d, 5, g, false)));
    hs.push(hx!("vw2-ring5", format!("rings of 5 points, 3 free ones on 0..={g}²"), |d| vw2(d, 5, g, true)));
    let g = if deep { 2 } else { 1 };
    hs.push(hx!("vw2-6", format!("open, 6 points, 5 free on 0..={g}²"), |d| vw2(d, 6, g, false)));
    hs.push(hx!("vw2-ring6", format!("rings of 6 points, 4 free ones on 0..={g}²"), |d| vw2(d, 6, g, true)));
    let g = if deep { 5 } else { 3 };
    hs.push(hx!("vw2-graph6", format!("6 points of a function graph, 5 free heights 0..={g}"), |d| vw2_graph(d, 6, g)));
    let g = if deep { 4 } else { 2 };
    hs.push(hx!("vw2-graph7", format!("7 points of a function graph, 6 free heights 0..={g}"), |d| vw2_graph(d, 7, g)));
    hs.push(hx!("vw2-long", format!("{} lines of 12 points with one point (of four) at any height 0..=15, 1 to 12 points to remove, without ties", LONG.len()), |d| vw_long(d, 2, false)));
    if deep {
        hs.push(hx!("vw2-long-plane", format!("{} lines of 12 points with one point (of four) anywhere on 0..=15², 1 to 12 points to remove, without ties", LONG.len()), |d| vw_long(d, 2, true)));
    }
    hs.push(hx!("vw2-scaled", "open, 5 points, 4 free on 0..=1², scaled by 2^±10 and 2^-25", |d| vw_scaled(d, 2, 5, 1)));
    hs.push(hx!("kf:vw2", "a simplified ring stays closed", |d| kf_vw2(d)));
    Prop {
        id: "V01",
        functions: &["linestring_2d::LineString2::simplify_vw", "linestring_2d::Line2::triangle_area_squared_times_4", "linestring_2d::PriorityDistance"],
        bounds: "up to 6 points (7 on a function graph), all numbers of points to remove; grids as listed".into(),
        assumptions: vec!["a line of four points (two inner ones) or a ring down to three is left alone by the code; the repeated closing point of a ring counts as one of its points (known finding)".into()],
        harnesses: hs,
    }
}
fn vw2_small<D: Dom>(d: &mut D, n: usize) {
    let p = points(d, 2, n, 3, false);
    let line: Vec<D::V2> = p.iter().map(|q| v2(d, q, (1, 1))).collect();
    let k = d.choice("remove", 3);
    let out = line.simplify_vw(k);
    let o: Vec<N<D::E>> = out.iter().map(|v| n2(d, *v, (1, 1))).collect();
    same_points(d, &p, &o);
}
fn vw3_small<D: Dom>(d: &mut D, n: usize) {
    let p = points(d, 3, n, 3, false);
    let line: Vec<D::V3> = p.iter().map(|q| v3(d, q, (1, 1))).collect();
    let k = d.choice("remove", 3);
    let out = line.simplify_vw(k);
    let o: Vec<N<D::E>> = out.iter().map(|v| n3(d, *v, (1, 1))).collect();
    same_points(d, &p, &o);
}
fn same_points<D: Dom>(d: &mut D, p: &[N<D::E>], o: &[N<D::E>]) {
    d.check(p.len() == o.len(), "a line without inner points changed");
    if p.len() == o.len() {
        let mut e = d.lit(true);
        for (a, b) in p.iter().zip(o) {
            e = e & eqn(a, b);
        }
        d.assert(e, "a line without inner points changed");
    }
    d.cover("done");
}
pub fn v02(deep: bool) -> Prop {
    let mut hs = vec![];
    for n in 0..3 {
        hs.push(hx!(format!("vw3-{n}"), "lines of up to two points", |d| vw3_small(d, n)));
    }
    hs.push(hx!("vw3-3", "3 points, 2 free on 0..=6³", |d| vw3(d, 3, 6, false)));
    let g = if deep { 4 } else { 3 };
    hs.push(hx!("vw3-4", format!("4 points, 3 free on 0..={g}³"), |d| vw3(d, 4, g, false)));
    let g = if deep { 2 } else { 1 };
    hs.push(hx!("vw3-5", format!("5 points, 4 free on 0..={g}³"), |d| vw3(d, 5, g, false)));
    hs.push(hx!("vw3-ring5", "rings of 5 points, 3 free ones on 0..=2³", |d| vw3(d, 5, 2, true)));
    let g = if deep { 5 } else { 2 };
    hs.push(hx!("vw3-graph6", format!("6 points of a function graph, 5 free heights 0..={g}"), |d| vw3_graph(d, 6, g)));
    hs.push(hx!("vw3-long", format!("{} lines of 12 points with one point (of four) at any height 0..=15, 1 to 12 points to remove, without ties", LONG.len()), |d| vw_long(d, 3, false)));
    if deep {
        hs.push(hx!("vw3-long-plane", format!("{} lines of 12 points with one point (of four) anywhere on 0..=15², 1 to 12 points to remove, without ties", LONG.len()), |d| vw_long(d, 3, true)));
    }
    hs.push(hx!("vw3-scaled", "4 points, 3 free on 0..=1³, scaled by 2^±10 and 2^-25", |d| vw_scaled(d, 3, 4, 1)));
    hs.push(hx!("kf:vw3", "the last point is kept", |d| kf_vw3(d)));
    Prop {
        id: "V02",
        functions: &["linestring_3d::LineString3::simplify_vw", "linestring_3d::Line3::triangle_area_squared_times_4", "linestring_3d::PriorityDistance"],
        bounds: "up to 5 points (6 on a function graph), all numbers of points to remove; grids as listed".into(),
        assumptions: vec!["the last point may be missing from the result (known finding)".into()],
        harnesses: hs,
    }
}
pub fn p01(deep: bool) -> Prop {
    let mut hs = vec![];
    let g = if deep { 31 } else { 16 };
    hs.push(hx!("dist2", format!("segment free on 0..={g}² (2D), scaled by 2^10 or 2^-27, shifted by -4096"), |d| dist(d, 2, g, 4)));
    let g = if deep { 10 } else { 6 };
    hs.push(hx!("dist3", format!("segment free on 0..={g}³ (3D), scaled by 2^10 or 2^-27, shifted by -4096"), |d| dist(d, 3, g, 4)));
    hs.push(hx!("to-coordinate", "point, vector and factor on -31..=31", |d| to_coord(d, 31)));
    Prop {
        id: "P01",
        functions: &["linestring_2d::distance_to_line_squared", "linestring_2d::distance_to_line_squared_safe", "linestring_3d::distance_to_line_squared", "linestring_3d::distance_to_line_squared_safe", "linestring_2d::scale_to_coordinate"],
        bounds: "one query point and a segment on the grids listed, four scales and offsets".into(),
        assumptions: vec!["distance_to_line_squared: end points differ".into()],
        harnesses: hs,
    }
}
pub fn d01(deep: bool) -> Prop {
    let mut hs = vec![];
    for n in 0..2 {
        hs.push(hx!(format!("disc-{n}"), "lines of up to one point", |d| disc(d, 2, n, 4, STEPS)));
    }
    let g = if deep { 16 } else { 10 };
    hs.push(hx!("disc2-2", format!("2 points, 1 free on 0..={g}², 5 distances"), |d| disc(d, 2, 2, g, STEPS)));
    let g = if deep { 6 } else { 4 };
    hs.push(hx!("disc2-3", format!("3 points, 2 free on 0..={g}², 5 distances"), |d| disc(d, 2, 3, g, STEPS)));
    let g = if deep { 3 } else { 2 };
    hs.push(hx!("disc2-4", format!("4 points, 3 free on 0..={g}², 5 distances"), |d| disc(d, 2, 4, g, STEPS)));
    let g = if deep { 8 } else { 6 };
    hs.push(hx!("disc3-2", format!("2 points (3D), 1 free on 0..={g}³, 5 distances"), |d| disc(d, 3, 2, g, STEPS)));
    let g = if deep { 3 } else { 2 };
    hs.push(hx!("disc3-3", format!("3 points (3D), 2 free on 0..={g}³, 5 distances"), |d| disc(d, 3, 3, g, STEPS)));
    let g = if deep { 16 } else { 8 };
    hs.push(hx!("disc2-long", format!("3 points, free on 0..={g} along one axis, 5 distances"), |d| disc_long(d, 2, 3, g, STEPS)));
    hs.push(hx!("disc3-long", format!("3 points (3D), free on 0..={g} along one axis, 5 distances"), |d| disc_long(d, 3, 3, g, STEPS)));
    for dim in [2, 3] {
        hs.push(hx!(format!("disc{dim}-fine"), "2 points, one at any of 1..=3·2^27 along an axis, distance 2^27", |d| disc_fine(d, dim)));
        hs.push(hx!(format!("disc{dim}-many"), "8 points, one of three moving along one axis, 3 distances", |d| disc_many(d, dim)));
    }
    Prop {
        id: "D01",
        functions: &["linestring_2d::LineString2::discretize", "linestring_2d::DiscreteLineSegmentIterator", "linestring_3d::LineString3::discretize", "linestring_3d::DiscreteLineSegmentIterator"],
        bounds: "up to 4 points on the grids listed; distances 1/2, 1, 3/2, 5/2 and 9/2".into(),
        assumptions: vec!["the distance is positive and finite".into()],
        harnesses: hs,
    }
}

// ------------------------------------------------------------------------------------ parabolic arcs
/// (grid vector of the segment, its start)
const ARCS: [((i64, i64), (i64, i64)); 5] = [((1, 0), (1, 2)), ((0, 1), (0, 0)), ((-1, 0), (3, 0)), ((0, -1), (-2, 5)), ((3, 4), (1, -1))];
/// largest distances (n, d)
const ARC_DIST: [(i64, i64); 3] = [(1, 1), (1, 4), (3, 1)];

struct Arc<D: Dom> {
    arc: l2::VoronoiParabolicArc<D::V2>,
    /// start of the segment, grid vector, focus and end positions in the frame of the segment
    s: P<D>,
    v: (i64, i64),
    a: D::E,
    b: i64,
    k: [D::E; 2],
    cell: P<D>,
}
/// the point start + k·v + y·v⊥
fn arc_pt<D: Dom>(d: &D, s: P<D>, v: (i64, i64), k: D::E, y: D::E) -> P<D> {
    let (vx, vy) = (D::E::c(v.0), D::E::c(v.1));
    mk(d, s.x + vx * k - vy * y, s.y + vy * k + vx * y, (1, 1))
}
fn arc_in<D: Dom>(d: &mut D, g: i64, tpl: &[usize], bs: &[i64], equal: bool) -> Arc<D> {
    let t = tpl[d.choice("segment", tpl.len())];
    let (v, s0) = ARCS[t];
    let b = bs[d.choice("height", bs.len())];
    let a = d.int("focus", 0, g);
    let k0 = d.int("from", 0, g);
    let k1 = if equal { k0 } else { d.int("to", 0, g) };
    if !equal {
        d.assume(k0.ne(k1));
    }
    let s = cpt(d, s0.0, s0.1, (1, 1));
    let e = arc_pt(d, s, v, D::E::c(g), D::E::c(0));
    let cell = arc_pt(d, s, v, a, D::E::c(b));
    let y = |k: D::E| ((k - a).sq() + D::E::c(b * b)) * D::E::frac(1, 2 * b);
    let (p, q) = (arc_pt(d, s, v, k0, y(k0)), arc_pt(d, s, v, k1, y(k1)));
    let arc = l2::VoronoiParabolicArc::new(l2::Line2::new(s.v, e.v), cell.v, p.v, q.v);
    Arc { arc, s, v, a, b, k: [k0, k1], cell }
}
/// position along the segment and distance from it, both times |v|²
fn arc_frame<D: Dom>(s: P<D>, v: (i64, i64), p: P<D>) -> (D::E, D::E) {
    let (vx, vy) = (D::E::c(v.0), D::E::c(v.1));
    let (x, y) = (p.x - s.x, p.y - s.y);
    (x * vx + y * vy, y * vx - x * vy)
}
fn arc_check<D: Dom>(d: &mut D, c: &Arc<D>, md: (i64, i64), o: &[P<D>]) {
    d.check(o.len() >= 2, "an arc with less than two points");
    if o.len() < 2 {
        return;
    }
    let n = c.v.0 * c.v.0 + c.v.1 * c.v.1;
    let nn = D::E::c(n);
    let b = D::E::c(c.b);
    let pts: Vec<(D::E, D::E)> = o.iter().map(|p| arc_frame(c.s, c.v, *p)).collect();
    let (p, q) = (back(d, c.arc.start_point, (1, 1)), back(d, c.arc.end_point, (1, 1)));
    d.assert(eq2(p, o[0]) & eq2(q, o[o.len() - 1]), "an end of the arc is not kept");
    let mut on = d.lit(true);
    for (k, y) in &pts {
        on = on & (D::E::c(2) * b * *y * nn).eq((*k - c.a * nn).sq() + (b * nn).sq());
    }
    d.assert(on, "a point of the arc is not on the parabola");
    let fwd = c.k[0].lt(c.k[1]);
    let (mut ord, mut near) = (d.lit(true), d.lit(true));
    // a chord over dk around mean position m is dk²/(8b)·2b/√(4b²+(2m-2a)²) off the parabola
    let close = |k: D::E, l: D::E, strict: bool| {
        let m = (k + l) - D::E::c(2) * c.a * nn;
        let lhs = (k - l).sq().sq() * D::E::c(md.1 * md.1);
        let rhs = D::E::c(16 * md.0 * md.0 * n) * (D::E::c(4) * (b * nn).sq() + m.sq());
        if strict { lhs.lt(rhs) } else { lhs.le(rhs) }
    };
    for w in pts.windows(2) {
        let (k, l) = (w[0].0, w[1].0);
        ord = ord & ((fwd & k.lt(l)) | (!fwd & k.gt(l)));
        near = near & close(k, l, false);
    }
    d.assert(ord, "the points of the arc are out of order");
    d.assert(near, "a chord is further from the arc than asked");
    if o.len() > 2 {
        d.assert(!close(c.k[0] * nn, c.k[1] * nn, true), "an arc that is close enough to its chord is split");
        d.cover("split");
    } else {
        d.cover("single");
    }
}
fn arc2<D: Dom>(d: &mut D, g: i64, tpl: &[usize], bs: &[i64]) {
    let c = arc_in(d, g, tpl, bs, false);
    let md = ARC_DIST[d.choice("max", 3)];
    let m = d.scalar(D::E::c(md.0), 1, md.1);
    let out = c.arc.discretize_2d(m);
    for p in &out {
        obs2(d, *p);
    }
    let o: Vec<P<D>> = out.iter().map(|p| back(d, *p, (1, 1))).collect();
    arc_check(d, &c, md, &o);
}
fn arc3_z<D: Dom>(d: &mut D, c: &Arc<D>, out: &[D::V3]) -> Vec<P<D>> {
    let mut ok = d.lit(true);
    let mut o = vec![];
    for p in out {
        d.observe(p.x());
        d.observe(p.y());
        d.observe(p.z());
        let (x, y, z) = (d.ex(p.x()), d.ex(p.y()), d.ex(p.z()));
        ok = ok & z.le(D::E::c(0)) & z.sq().eq((x - c.cell.x).sq() + (y - c.cell.y).sq());
        o.push(P { x, y, v: D::V2::new_2d(p.x(), p.y()) });
    }
    d.assert(ok, "the height of an arc point is not its distance to the cell point");
    o
}
fn arc3<D: Dom>(d: &mut D, g: i64, tpl: &[usize], bs: &[i64]) {
    let c = arc_in(d, g, tpl, bs, false);
    let md = ARC_DIST[d.choice("max", 3)];
    let m = d.scalar(D::E::c(md.0), 1, md.1);
    let out = c.arc.discretize_3d(m);
    let o = arc3_z(d, &c, &out);
    arc_check(d, &c, md, &o);
}
fn arc_straight<D: Dom>(d: &mut D, g: i64, bs: &[i64]) {
    let c = arc_in(d, g, &[0, 1, 2, 3, 4], bs, false);
    let out = c.arc.discretize_3d_straight_line();
    d.check(out.len() == 2, "a straight arc is not a single line");
    if out.len() == 2 {
        let o = arc3_z(d, &c, &out);
        let (p, q) = (back(d, c.arc.start_point, (1, 1)), back(d, c.arc.end_point, (1, 1)));
        d.assert(eq2(p, o[0]) & eq2(q, o[1]), "an end of the arc is not kept");
    }
    d.cover("done");
}
/// an arc that starts where it ends is still a line of two points
fn arc_point<D: Dom>(d: &mut D, g: i64, three: bool) {
    let c = arc_in(d, g, &[0, 1, 2, 3, 4], &[1, -1, 2, -2], true);
    let md = ARC_DIST[d.choice("max", 3)];
    let m = d.scalar(D::E::c(md.0), 1, md.1);
    let o = if three {
        let out = c.arc.discretize_3d(m);
        arc3_z(d, &c, &out)
    } else {
        let out = c.arc.discretize_2d(m);
        out.iter().map(|p| back(d, *p, (1, 1))).collect()
    };
    d.check(o.len() == 2, "an arc without length is split");
    let p = back(d, c.arc.start_point, (1, 1));
    let mut ok = d.lit(true);
    for q in &o {
        ok = ok & eq2(p, *q);
    }
    d.assert(ok, "an end of the arc is not kept");
    d.cover("done");
}
pub fn b01(deep: bool) -> Prop {
    let mut hs = vec![];
    let g = if deep { 8 } else { 6 };
    hs.push(hx!("arc2-x", format!("2D, segments along the axes, focus and ends on 0..={g}, height ±1"), |d| arc2(d, g, &[0, 1, 2, 3], &[1, -1])));
    hs.push(hx!("arc2-high", format!("2D, segments along an axis, focus and ends on 0..={g}, heights ±2, ±4"), |d| arc2(d, g, &[0, 3], &[2, -2, 4, -4])));
    hs.push(hx!("arc2-345", format!("2D, slanted segment, focus and ends on 0..={g}, heights ±1, ±2"), |d| arc2(d, g, &[4], &[1, -1, 2, -2])));
    let g = if deep { 6 } else { 4 };
    hs.push(hx!("arc3-x", format!("3D, segments along the axes, focus and ends on 0..={g}, heights ±1, ±2"), |d| arc3(d, g, &[0, 1, 2, 3], &[1, -1, 2, -2])));
    hs.push(hx!("arc3-345", format!("3D, slanted segment, focus and ends on 0..={g}, heights ±1, ±2"), |d| arc3(d, g, &[4], &[1, -1, 2, -2])));
    hs.push(hx!("arc3-straight", "3D, as a single line, focus and ends on 0..=16", |d| arc_straight(d, 16, &[1, -1, 2, -2, 4])));
    hs.push(hx!("arc2-point", "2D, arcs ending where they start", |d| arc_point(d, 8, false)));
    hs.push(hx!("arc3-point", "3D, arcs ending where they start", |d| arc_point(d, 8, true)));
    Prop {
        id: "B01",
        functions: &["linestring_2d::VoronoiParabolicArc::discretize_2d", "linestring_2d::VoronoiParabolicArc::discretize_3d", "linestring_2d::VoronoiParabolicArc::discretize_3d_straight_line", "linestring_2d::VoronoiParabolicArc::parabola_y", "linestring_2d::VoronoiParabolicArc::point_projection"],
        bounds: "four segments along the axes and one slanted (3,4) one, focus at heights ±1, ±2, ±4 over any grid position, ends of the arc over any two grid positions, largest distances 1/4, 1 and 3".into(),
        assumptions: vec!["the ends of the arc are on the parabola and over the segment; the largest distance is positive".into()],
        harnesses: hs,
    }
}
