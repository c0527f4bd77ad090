//! Bounding boxes, the affine transform, planes, iterators and conversions, approximate comparison.
use super::simplify::*;
use super::util::*;
use crate::dom::*;
use crate::hx;
use crate::Prop;
use linestring::linestring_2d::convex_hull::{convex_hull_par, indexed_gift_wrap, indexed_graham_scan};
use linestring::linestring_2d::indexed_intersection::IntersectionTester;
use linestring::linestring_2d::intersection::IntersectionData;
use linestring::linestring_2d::{Aabb2, Approx as Approx2, Line2, LineString2, SimpleAffine};
use linestring::linestring_3d::{Aabb3, Approx as Approx3, Line3, LineString3, Plane};
use vector_traits::approx::{AbsDiffEq, UlpsEq};
use vector_traits::*;

fn free<D: Dom>(d: &mut D, dim: usize, name: &str, lo: i64, hi: i64) -> N<D::E> {
    (0..dim).map(|k| d.int(&format!("{name}.{}", ["x", "y", "z"][k]), lo, hi)).collect()
}
fn frees<D: Dom>(d: &mut D, dim: usize, n: usize, lo: i64, hi: i64) -> Vec<N<D::E>> {
    (0..n).map(|i| free(d, dim, &format!("p{i}"), lo, hi)).collect()
}
fn lo_hi<E: ExT>(p: &[N<E>]) -> (N<E>, N<E>) {
    let (mut l, mut h) = (p[0].clone(), p[0].clone());
    for q in &p[1..] {
        for k in 0..l.len() {
            l[k] = l[k].min(q[k]);
            h[k] = h[k].max(q[k]);
        }
    }
    (l, h)
}
fn inside<E: ExT>(l: &N<E>, h: &N<E>, p: &N<E>) -> E::B {
    let mut r = l[0].le(p[0]) & p[0].le(h[0]);
    for k in 1..l.len() {
        r = r & l[k].le(p[k]) & p[k].le(h[k]);
    }
    r
}

// ------------------------------------------------------------------------------------ boxes
fn build2<D: Dom>(d: &mut D, v: &[D::V2]) -> Aabb2<D::V2> {
    let n = v.len();
    match d.choice("build", 5) {
        0 => Aabb2::with_points(v),
        1 => {
            let mut b = Aabb2::default();
            for p in v {
                b.update_with_point(*p);
            }
            b
        }
        2 => {
            let mut b = if n > 0 { Aabb2::new(v[0]) } else { Aabb2::default() };
            b.update_with_points(&v[n.min(1)..n / 2 + 1 - usize::from(n == 0)]);
            b.update_with_points(&v[n / 2..]);
            b
        }
        3 => {
            let k = d.choice("split", n + 1);
            let mut b = Aabb2::with_points(&v[..k]);
            b.update_with_aabb(Aabb2::with_points(&v[k..]));
            b
        }
        _ => Aabb2::from(v.iter()),
    }
}
fn build3<D: Dom>(d: &mut D, v: &[D::V3]) -> Aabb3<D::V3> {
    let n = v.len();
    match d.choice("build", 4) {
        0 => Aabb3::with_points(v),
        1 => {
            let mut b = Aabb3::default();
            for p in v {
                b.update_with_point(*p);
            }
            b
        }
        2 => {
            let mut b = Aabb3::default();
            b.update_with_points(&v[..n / 2]);
            b.update_with_points(&v[n / 2..]);
            b
        }
        _ => {
            let k = d.choice("split", n + 1);
            let mut b = Aabb3::with_points(&v[..k]);
            b.update_with_aabb(Aabb3::with_points(&v[k..]));
            b
        }
    }
}
/// twelve given points, one of them replaced by a free one
fn cloud<D: Dom>(d: &mut D, dim: usize, g: i64) -> Vec<N<D::E>> {
    let (a, b) = [(1, 1), (5, 0), (7, -6)][d.choice("cloud", 3)];
    let at = [0, 5, 11][d.choice("point", 3)];
    (0..12i64)
        .map(|i| if i == at { free(d, dim, "q", -g, g) } else { (0..dim as i64).map(|k| D::E::c((a * i * (k + 1) + b + k) % 9 + b)).collect() })
        .collect()
}
fn bounds<D: Dom>(d: &mut D, p: &[N<D::E>], got: Option<(N<D::E>, N<D::E>)>) {
    match got {
        None => {
            d.cover("empty");
            d.check(p.is_empty(), "no box for some points");
        }
        Some((gl, gh)) => {
            d.cover("box");
            if p.is_empty() {
                d.fail("a box without points");
                return;
            }
            let (l, h) = lo_hi(p);
            d.assert(eqn(&l, &gl) & eqn(&h, &gh), "not the smallest box");
        }
    }
}
fn aabb2<D: Dom>(d: &mut D, n: usize, g: i64, scales: usize) {
    let sc = scale(d, scales);
    let p = frees(d, 2, n, -g, g);
    aabb2_at(d, p, sc);
}
fn aabb2_at<D: Dom>(d: &mut D, p: Vec<N<D::E>>, sc: Sc) {
    let n = p.len();
    let v: Vec<D::V2> = p.iter().map(|q| v2(d, q, sc)).collect();
    let b = build2(d, &v);
    let got = b.min_max().map(|(l, h)| (n2(d, l, sc), n2(d, h, sc)));
    bounds(d, &p, got);
    let (lo, hi) = (b.low().map(|x| n2(d, x, sc)), b.high().map(|x| n2(d, x, sc)));
    bounds(d, &p, lo.zip(hi));
    match b.extents() {
        None => d.check(n == 0, "no extents for some points"),
        Some((l, h, e)) => {
            let (l, h) = (n2(d, l, sc), n2(d, h, sc));
            let k = inv::<D>(sc);
            let (ex, ey) = (d.ex(e.x()) * k, d.ex(e.y()) * k);
            d.assert(ex.eq(h[0] - l[0]) & ey.eq(h[1] - l[1]), "the extent is not high minus low");
            let gl = (n2(d, b.low().unwrap(), sc), n2(d, b.high().unwrap(), sc));
            d.assert(eqn(&gl.0, &l) & eqn(&gl.1, &h), "the corners of the extent differ from low and high");
        }
    }
    match b.center() {
        None => d.check(n == 0, "no center for some points"),
        Some(c) => {
            let c = n2(d, c, sc);
            let (l, h) = lo_hi(&p);
            let t = D::E::c(2);
            d.assert((c[0] * t).eq(l[0] + h[0]) & (c[1] * t).eq(l[1] + h[1]), "not the center");
        }
    }
}
fn aabb2_has<D: Dom>(d: &mut D, g: i64, scales: usize) {
    let sc = scale(d, scales);
    let p = frees(d, 2, 4, 0, g);
    let v: Vec<D::V2> = p.iter().map(|q| v2(d, q, sc)).collect();
    let b = Aabb2::with_points(&v[..2]);
    let (l, h) = lo_hi(&p[..2]);
    let q = [inside(&l, &h, &p[2]), inside(&l, &h, &p[3])];
    match d.choice("what", 5) {
        0 => {
            let r = b.contains_point_inclusive(v[2]);
            d.cover(if r { "in" } else { "out" });
            d.assert(d.lit(r).iff(q[0]), "point containment is wrong");
        }
        1 => {
            let r = b.contains_line_inclusive(&Line2::new(v[2], v[3]));
            d.cover(if r { "in" } else { "out" });
            d.assert(d.lit(r).iff(q[0] & q[1]), "line containment is wrong");
        }
        2 => {
            let o = Aabb2::with_points(&v[2..]);
            let r = b.contains_aabb_inclusive(&o);
            d.cover(if r { "in" } else { "out" });
            d.assert(d.lit(r).iff(q[0] & q[1]), "box containment is wrong");
        }
        3 => {
            // nothing contains or is contained in an empty box
            let e = Aabb2::<D::V2>::default();
            let any = e.contains_point_inclusive(v[2])
                || e.contains_line_inclusive(&Line2::new(v[2], v[3]))
                || e.contains_aabb_inclusive(&b)
                || b.contains_aabb_inclusive(&e)
                || e.convex_hull::<D::V2>().is_some();
            d.check(!any, "an empty box contains something");
        }
        _ => {
            let c = [(l[0], l[1]), (h[0], l[1]), (h[0], h[1]), (l[0], h[1]), (l[0], l[1])];
            let hull: Vec<D::V2> = b.convex_hull().unwrap_or_default();
            let line: Vec<D::V2> = Vec::from(b);
            d.check(hull.len() == 5 && line.len() == 5, "the outline does not have five points");
            if hull.len() == 5 && line.len() == 5 {
                let mut e = d.lit(true);
                for i in 0..5 {
                    let (a, b) = (n2(d, hull[i], sc), n2(d, line[i], sc));
                    let w = vec![c[i].0, c[i].1];
                    e = e & eqn(&a, &w) & eqn(&b, &w);
                }
                d.assert(e, "the outline is not the corners counter-clockwise from the lowest");
            }
        }
    }
}
fn aabb3<D: Dom>(d: &mut D, n: usize, g: i64, scales: usize) {
    let sc = scale(d, scales);
    let p = frees(d, 3, n, -g, g);
    aabb3_at(d, p, sc);
}
fn aabb3_at<D: Dom>(d: &mut D, p: Vec<N<D::E>>, sc: Sc) {
    let n = p.len();
    let v: Vec<D::V3> = p.iter().map(|q| v3(d, q, sc)).collect();
    let b = build3(d, &v);
    let (lo, hi) = (b.get_low().map(|x| n3(d, x, sc)), b.get_high().map(|x| n3(d, x, sc)));
    bounds(d, &p, lo.zip(hi));
    match b.extents() {
        None => d.check(n == 0, "no extents for some points"),
        Some((l, h, e)) => {
            let (l, h) = (n3(d, l, sc), n3(d, h, sc));
            let k = inv::<D>(sc);
            let e: N<D::E> = vec![d.ex(e.x()) * k, d.ex(e.y()) * k, d.ex(e.z()) * k];
            d.assert(eqn(&e, &sub(&h, &l)), "the extent is not high minus low");
            let gl = (n3(d, b.get_low().unwrap(), sc), n3(d, b.get_high().unwrap(), sc));
            d.assert(eqn(&gl.0, &l) & eqn(&gl.1, &h), "the corners of the extent differ from low and high");
        }
    }
    match b.center() {
        None => d.check(n == 0, "no center for some points"),
        Some(c) => {
            let c = n3(d, c, sc);
            let (l, h) = lo_hi(&p);
            let t = D::E::c(2);
            let c2: N<D::E> = c.iter().map(|x| *x * t).collect();
            let s: N<D::E> = (0..3).map(|k| l[k] + h[k]).collect();
            d.assert(eqn(&c2, &s), "not the center");
        }
    }
}
fn aabb3_has<D: Dom>(d: &mut D, g: i64, scales: usize) {
    let sc = scale(d, scales);
    let p = frees(d, 3, 4, 0, g);
    let v: Vec<D::V3> = p.iter().map(|q| v3(d, q, sc)).collect();
    let b = Aabb3::with_points(&v[..2]);
    let (l, h) = lo_hi(&p[..2]);
    let q = [inside(&l, &h, &p[2]), inside(&l, &h, &p[3])];
    match d.choice("what", 5) {
        0 => {
            let r = b.contains_point_inclusive(v[2]);
            d.cover(if r { "in" } else { "out" });
            d.assert(d.lit(r).iff(q[0]), "point containment is wrong");
        }
        1 => {
            let r = b.contains_line_inclusive(&Line3::new(v[2], v[3]));
            d.cover(if r { "in" } else { "out" });
            d.assert(d.lit(r).iff(q[0] & q[1]), "line containment is wrong");
        }
        2 => {
            let r = b.contains_aabb_inclusive(&Aabb3::with_points(&v[2..]));
            d.cover(if r { "in" } else { "out" });
            d.assert(d.lit(r).iff(q[0] & q[1]), "box containment is wrong");
        }
        3 => {
            let e = Aabb3::<D::V3>::default();
            let any = e.contains_point_inclusive(v[2])
                || e.contains_line_inclusive(&Line3::new(v[2], v[3]))
                || e.contains_aabb_inclusive(&b)
                || b.contains_aabb_inclusive(&e);
            d.check(!any, "an empty box contains something");
        }
        _ => {
            let (a, c) = (v[0], v[1]);
            let b1 = Aabb3::<D::V3>::from([a, c]);
            let b2 = Aabb3::<D::V3>::from([a.x(), a.y(), a.z(), c.x(), c.y(), c.z()]);
            for b in [b1, b2] {
                match (b.get_low(), b.get_high()) {
                    (Some(x), Some(y)) => {
                        let (x, y) = (n3(d, x, sc), n3(d, y, sc));
                        d.assert(eqn(&x, &p[0]) & eqn(&y, &p[1]), "a box made from two corners has other corners");
                    }
                    _ => d.fail("a box made from two corners is empty"),
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------ affine transform
fn affine<D: Dom>(d: &mut D, g: i64) {
    let sc = (1, 1);
    let z = vec![D::E::c(0), D::E::c(0)];
    let (a, b, q) = ([z.clone(), free(d, 2, "a", -g, g)], [z, free(d, 2, "b", -g, g)], free(d, 2, "q", -g, g));
    let (va, vb): (Vec<D::V2>, Vec<D::V2>) = (a.iter().map(|x| v2(d, x, sc)).collect(), b.iter().map(|x| v2(d, x, sc)).collect());
    let vq = v2(d, &q, sc);
    let Ok(t) = SimpleAffine::new(&Aabb2::with_points(&va), &Aabb2::with_points(&vb)) else {
        d.fail("no transform for two boxes");
        return;
    };
    // (the oracle branches too: its conditions are those the code has already decided)
    let mut pick = |x: D::E, y: D::E, small: bool| {
        if small {
            if d.branch(y.lt(x)) { y } else { x }
        } else if d.branch(x.lt(y)) {
            y
        } else {
            x
        }
    };
    let one = D::E::c(1);
    let (mut al, mut ah, mut bl, mut bh) = (vec![], vec![], vec![], vec![]);
    for k in 0..2 {
        al.push(pick(a[0][k], a[1][k], true));
        ah.push(pick(a[0][k], a[1][k], false));
        bl.push(pick(b[0][k], b[1][k], true));
        bh.push(pick(b[0][k], b[1][k], false));
    }
    // the largest side of the source fits the smallest side of the destination; sides are at least 1
    let (w, h) = (pick(ah[0] - al[0], one, false), pick(ah[1] - al[1], one, false));
    let den = pick(w, h, false);
    let (w, h) = (pick(bh[0] - bl[0], one, false), pick(bh[1] - bl[1], one, false));
    let num = pick(w, h, true);
    let two = D::E::c(2);
    match d.choice("what", 4) {
        0 => match t.transform_ab(vq) {
            Err(_) => d.fail("a finite point cannot be transformed"),
            Ok(r) => {
                let r = n2(d, r, sc);
                let mut e = d.lit(true);
                for k in 0..2 {
                    e = e & (r[k] * two * den).eq((q[k] * two - al[k] - ah[k]) * num + (bl[k] + bh[k]) * den);
                }
                d.assert(e, "not the scaled offset from the center of the source at the center of the destination");
                d.cover("ab");
            }
        },
        1 => match t.transform_ba(vq) {
            Err(_) => d.fail("a finite point cannot be transformed"),
            Ok(r) => {
                let r = n2(d, r, sc);
                let mut e = d.lit(true);
                for k in 0..2 {
                    e = e & (q[k] * two * den).eq((r[k] * two - al[k] - ah[k]) * num + (bl[k] + bh[k]) * den);
                }
                d.assert(e, "not the inverse transform");
                d.cover("ba");
            }
        },
        2 => match (t.transform_ab(vq), t.transform_ab_a([vq.x(), vq.y(), va[1].x(), va[1].y()]), t.transform_ab(va[1])) {
            (Ok(r), Ok(x), Ok(s)) => {
                let w = [r.x(), r.y(), s.x(), s.y()];
                let mut e = d.lit(true);
                for k in 0..4 {
                    e = e & d.ex(w[k]).eq(d.ex(x[k]));
                }
                d.assert(e, "the array version differs");
                d.cover("ab_a");
            }
            _ => d.fail("a finite point cannot be transformed"),
        },
        _ => match (t.transform_ba(vq), t.transform_ba_a([vq.x(), vq.y(), va[1].x(), va[1].y()]), t.transform_ba(va[1])) {
            (Ok(r), Ok(x), Ok(s)) => {
                let w = [r.x(), r.y(), s.x(), s.y()];
                let mut e = d.lit(true);
                for k in 0..4 {
                    e = e & d.ex(w[k]).eq(d.ex(x[k]));
                }
                d.assert(e, "the array version differs");
                d.cover("ba_a");
            }
            _ => d.fail("a finite point cannot be transformed"),
        },
    }
}
fn affine_inside<D: Dom>(d: &mut D, g: i64) {
    let sc = (1, 1);
    let z = vec![D::E::c(0), D::E::c(0)];
    let (a, b, q) = ([z.clone(), free(d, 2, "a", 1, g)], [z, free(d, 2, "b", 1, g)], free(d, 2, "q", 0, g));
    let (va, vb): (Vec<D::V2>, Vec<D::V2>) = (a.iter().map(|x| v2(d, x, sc)).collect(), b.iter().map(|x| v2(d, x, sc)).collect());
    let vq = v2(d, &q, sc);
    let k = d.choice("axis", 2);
    d.assume(q[0].le(a[1][0]) & q[1].le(a[1][1]));
    let Ok(r) = SimpleAffine::new(&Aabb2::with_points(&va), &Aabb2::with_points(&vb)).and_then(|t| t.transform_ab(vq)) else {
        d.fail("no transform for two boxes");
        return;
    };
    let r = n2(d, r, sc);
    d.assert(r[k].ge(D::E::c(0)) & r[k].le(b[1][k]), "a point of the source box leaves the destination box");
    d.cover("inside");
}
/// boxes are equal exactly when their corners are
fn aabb_equal<D: Dom>(d: &mut D, g: i64) {
    let sc = (1, 1);
    let p = frees(d, 2, 4, 0, g);
    let v: Vec<D::V2> = p.iter().map(|x| v2(d, x, sc)).collect();
    let n = d.choice("points", 5);
    let k = n.min(2);
    let (a, b) = (Aabb2::with_points(&v[..k]), Aabb2::with_points(&v[k..n]));
    let r = a == b;
    d.check((b == a) == r, "box equality is not symmetric");
    let mut o = d.lit(true);
    if k == n {
        o = d.lit(k == 0);
    } else {
        for c in 0..2 {
            // equal minima and maxima: every extreme of one side is reached and not passed by the other
            let (x, y): (Vec<D::E>, Vec<D::E>) = (p[..k].iter().map(|q| q[c]).collect(), p[k..n].iter().map(|q| q[c]).collect());
            let low = |d: &D, x: &[D::E], y: &[D::E]| {
                let mut all = d.lit(true);
                for a in x {
                    let mut some = d.lit(false);
                    for b in y {
                        some = some | b.le(*a);
                    }
                    all = all & some;
                }
                all
            };
            let high = |d: &D, x: &[D::E], y: &[D::E]| {
                let mut all = d.lit(true);
                for a in x {
                    let mut some = d.lit(false);
                    for b in y {
                        some = some | b.ge(*a);
                    }
                    all = all & some;
                }
                all
            };
            o = o & low(d, &x, &y) & low(d, &y, &x) & high(d, &x, &y) & high(d, &y, &x);
        }
    }
    let l = d.lit(r);
    d.assert(o.iff(l), "boxes are not equal exactly when their corners are");
    d.cover(if r { "equal" } else { "different" });
}
/// a transform put together by hand: every axis has its own scale
fn affine_free<D: Dom>(d: &mut D, g: i64) {
    let sc = (1, 1);
    let (a, s, b, q, r) = (free(d, 2, "a", -g, g), free(d, 2, "s", -g, g), free(d, 2, "b", -g, g), free(d, 2, "q", -g, g), free(d, 2, "r", -g, g));
    d.assume(s[0].ne(D::E::c(0)) & s[1].ne(D::E::c(0)));
    let [va, vs, vb, vq, vr] = [&a, &s, &b, &q, &r].map(|x| v2(d, x, sc));
    let t = SimpleAffine::<D::V2> { a_offset: [va.x(), va.y()], scale: [vs.x(), vs.y()], b_offset: [vb.x(), vb.y()] };
    let ab = d.choice("direction", 2) == 0;
    let f = |v: D::V2| if ab { t.transform_ab(v) } else { t.transform_ba(v) };
    let arr = [vq.x(), vq.y(), vr.x(), vr.y()];
    let g4 = if ab { t.transform_ab_a(arr) } else { t.transform_ba_a(arr) };
    match (f(vq), f(vr), g4) {
        (Ok(x), Ok(y), Ok(w)) => {
            let w: [Vec<D::E>; 2] = [n2(d, D::V2::new_2d(w[0], w[1]), sc), n2(d, D::V2::new_2d(w[2], w[3]), sc)];
            let mut e = d.lit(true);
            for (p, o) in [(&q, n2(d, x, sc)), (&r, n2(d, y, sc)), (&q, w[0].clone()), (&r, w[1].clone())] {
                for k in 0..2 {
                    e = e & if ab { o[k].eq((p[k] + a[k]) * s[k] + b[k]) } else { ((o[k] + a[k]) * s[k]).eq(p[k] - b[k]) };
                }
            }
            d.assert(e, "not every axis is moved and scaled by its own offset and scale");
            d.cover(if ab { "ab" } else { "ba" });
        }
        _ => d.fail("finite points cannot be transformed"),
    }
}
fn affine_none<D: Dom>(d: &mut D, g: i64) {
    let p = frees(d, 2, 2, -g, g);
    let v: Vec<D::V2> = p.iter().map(|x| v2(d, x, (1, 1))).collect();
    let b = Aabb2::with_points(&v);
    let e = Aabb2::<D::V2>::default();
    let bad = SimpleAffine::new(&b, &e).is_ok() || SimpleAffine::new(&e, &b).is_ok() || SimpleAffine::new(&e, &e).is_ok();
    d.check(!bad, "a transform for an empty box");
    // the default transform is the identity
    let t = SimpleAffine::<D::V2>::default();
    match (t.transform_ab(v[0]), t.transform_ba(v[1])) {
        (Ok(x), Ok(y)) => {
            let (x, y) = (n2(d, x, (1, 1)), n2(d, y, (1, 1)));
            d.assert(eqn(&x, &p[0]) & eqn(&y, &p[1]), "the default transform moves points");
        }
        _ => d.fail("the default transform fails"),
    }
    d.cover("done");
}

// ------------------------------------------------------------------------------------ planes
const PLANES: [Plane; 3] = [Plane::XY, Plane::XZ, Plane::YZ];
/// the axis a plane leaves out
const FLAT: [usize; 3] = [2, 1, 0];

fn planes<D: Dom>(d: &mut D, g: i64) {
    let sc = (1, 1);
    let k = d.choice("plane", 3);
    let plane = PLANES[k];
    let zero = D::E::c(0);
    let p = frees(d, 2, 2, -g, g);
    let mut q = frees3(d, 2, -g, g);
    for x in q.iter_mut() {
        x[FLAT[k]] = zero;
    }
    let a: Vec<D::V2> = p.iter().map(|x| v2(d, x, sc)).collect();
    let b: Vec<D::V3> = q.iter().map(|x| v3(d, x, sc)).collect();
    // (2D -> 3D, 3D -> 2D) by point, by line and by line string
    let how = d.choice("how", 3);
    let (up, down, round2, round3): (Vec<D::V3>, Vec<D::V2>, Vec<D::V2>, Vec<D::V3>) = match how {
        0 => {
            let up: Vec<D::V3> = a.iter().map(|x| plane.point_to_3d::<D::V3>(*x)).collect();
            let down: Vec<D::V2> = b.iter().map(|x| plane.point_to_2d::<D::V3>(*x)).collect();
            let r2 = up.iter().map(|x| plane.point_to_2d::<D::V3>(*x)).collect();
            let r3 = down.iter().map(|x| plane.point_to_3d::<D::V3>(*x)).collect();
            (up, down, r2, r3)
        }
        1 => {
            let up = Line2::new(a[0], a[1]).copy_to_3d(plane);
            let down = Line3::new(b[0], b[1]).copy_to_2d(plane);
            let r2 = up.copy_to_2d(plane);
            let r3 = down.copy_to_3d(plane);
            (vec![up.start, up.end], vec![down.start, down.end], vec![r2.start, r2.end], vec![r3.start, r3.end])
        }
        _ => {
            let up: Vec<D::V3> = a.copy_to_3d(plane);
            let down: Vec<D::V2> = b.copy_to_2d(plane);
            let r2 = up.copy_to_2d(plane);
            let r3 = down.copy_to_3d(plane);
            (up, down, r2, r3)
        }
    };
    let n = [up.len(), down.len(), round2.len(), round3.len()];
    d.check(n == [2; 4], "a different number of points");
    if n != [2; 4] {
        return;
    }
    for i in 0..2 {
        let u = n3(d, up[i], sc);
        d.assert(u[FLAT[k]].is0(), "a point is lifted out of the plane");
        let r = n2(d, round2[i], sc);
        d.assert(eqn(&r, &p[i]), "from 2D to 3D and back changes a point");
        let r = n3(d, round3[i], sc);
        d.assert(eqn(&r, &q[i]), "from 3D to 2D and back changes a point of the plane");
        // the coordinates are those of the point. Points keep the order x, y, z; line strings leave
        // y where it is; single lines (documented like line strings, done like points) may do either
        let (x, dn) = (&q[i], n2(d, down[i], sc));
        let w: Vec<D::E> = (0..3).filter(|j| *j != FLAT[k]).map(|j| x[j]).collect();
        let swapped = vec![w[1], w[0]];
        let ok = match (k, how) {
            (2, 1) => eqn(&dn, &w) | eqn(&dn, &swapped),
            (2, 2) => eqn(&dn, &swapped),
            _ => eqn(&dn, &w),
        };
        d.assert(ok, "the coordinates of the plane are not those kept");
    }
    d.cover("done");
}
fn frees3<D: Dom>(d: &mut D, n: usize, lo: i64, hi: i64) -> Vec<N<D::E>> {
    (0..n).map(|i| free(d, 3, &format!("q{i}"), lo, hi)).collect()
}
fn get_plane<D: Dom>(d: &mut D, g: i64, relaxed: bool) {
    let sc = (1, 1);
    let p = frees(d, 3, 2, 0, g);
    let v: Vec<D::V3> = p.iter().map(|x| v3(d, x, sc)).collect();
    let b = Aabb3::with_points(&v);
    // an axis is flat when its extent is at most a 16th of the largest (relaxed) or nothing (strict)
    let r = if relaxed { Plane::get_plane_relaxed(b, d.k(0.0625), 4) } else { Plane::get_plane(b) };
    let (l, h) = lo_hi(&p);
    let e = sub(&h, &l);
    let m = e[0].max(e[1]).max(e[2]);
    let flat: Vec<D::B> = e
        .iter()
        .map(|x| !m.is0() & if relaxed { (*x * D::E::c(16)).le(m) } else { x.is0() })
        .collect();
    for (i, f) in [(0, [2, 0, 1]), (1, [1, 0, 2]), (2, [0, 1, 2])] {
        let want = flat[f[0]] & !flat[f[1]] & !flat[f[2]];
        let got = r == Some(PLANES[i]);
        d.assert(d.lit(got).iff(want), "the plane found is not the one flat axis leaves");
    }
    d.cover(if r.is_some() { "plane" } else { "none" });
    d.check(Plane::get_plane(Aabb3::<D::V3>::default()).is_none(), "a plane for an empty box");
}

// ------------------------------------------------------------------------------------ iterators
fn iters<D: Dom>(d: &mut D, dim: usize, n: usize, g: i64) {
    let sc = (1, 1);
    let p = frees(d, dim, n, 0, g);
    let w = n.saturating_sub(1);
    let c = n / 2;
    let (win, chunk, rest, closed, lens): (Vec<[N<D::E>; 2]>, Vec<[N<D::E>; 2]>, Vec<N<D::E>>, bool, bool) = if dim == 2 {
        let v: Vec<D::V2> = p.iter().map(|x| v2(d, x, sc)).collect();
        let (wi, ci) = (v.window_iter(), v.chunk_iter());
        let lens = wi.len() == w && wi.is_empty() == (w == 0) && ci.len() == c && ci.is_empty() == (c == 0);
        let rest = ci.remainder().iter().map(|x| n2(d, *x, sc)).collect();
        (
            wi.map(|l| [n2(d, l.start, sc), n2(d, l.end, sc)]).collect(),
            ci.map(|l| [n2(d, l.start, sc), n2(d, l.end, sc)]).collect(),
            rest,
            {
                let cl = v.is_connected();
                let pc = v.point_count();
                d.check(pc == if n > 2 && cl { n - 1 } else { n }, "the point count is wrong");
                cl
            },
            lens,
        )
    } else {
        let v: Vec<D::V3> = p.iter().map(|x| v3(d, x, sc)).collect();
        let (wi, ci) = (v.window_iter(), v.chunk_iter());
        let lens = wi.len() == w && wi.is_empty() == (w == 0) && ci.len() == c && ci.is_empty() == (c == 0);
        let rest = ci.remainder().iter().map(|x| n3(d, *x, sc)).collect();
        (
            wi.map(|l| [n3(d, l.start, sc), n3(d, l.end, sc)]).collect(),
            ci.map(|l| [n3(d, l.start, sc), n3(d, l.end, sc)]).collect(),
            rest,
            v.is_connected(),
            lens,
        )
    };
    d.check(lens, "an iterator gives the wrong length");
    d.check(win.len() == w && chunk.len() == c && rest.len() == n % 2, "an iterator yields a wrong number of lines");
    if win.len() == w && chunk.len() == c && rest.len() == n % 2 {
        let mut e = d.lit(true);
        for i in 0..w {
            e = e & eqn(&win[i][0], &p[i]) & eqn(&win[i][1], &p[i + 1]);
        }
        for i in 0..c {
            e = e & eqn(&chunk[i][0], &p[2 * i]) & eqn(&chunk[i][1], &p[2 * i + 1]);
        }
        if n % 2 == 1 {
            e = e & eqn(&rest[0], &p[n - 1]);
        }
        d.assert(e, "an iterator yields other lines");
    }
    let same = if n == 0 { d.lit(true) } else { eqn(&p[0], &p[n - 1]) };
    d.assert(d.lit(closed).iff(same), "closed is not first equals last");
    d.cover(if closed { "closed" } else { "open" });
}
fn applied<D: Dom>(d: &mut D, n: usize, g: i64) {
    let p = frees(d, 3, n, -g, g);
    applied_at(d, p, g);
}
fn applied_at<D: Dom>(d: &mut D, p: Vec<N<D::E>>, g: i64) {
    let (n, sc) = (p.len(), (1, 1));
    let (se, ss) = d.i("shift", -g, g);
    let (mut a, mut b): (Vec<D::V2>, Vec<D::V3>) = (p.iter().map(|x| v2(d, x, sc)).collect(), p.iter().map(|x| v3(d, x, sc)).collect());
    // shift x and exchange x and y
    let f2 = |v: D::V2| D::V2::new_2d(v.y(), v.x() + ss);
    let f3 = |v: D::V3| D::V3::new_3d(v.z(), v.x() + ss, v.y());
    let l3 = Line3::new(b[0], b[n - 1]).apply(f3);
    a.apply(&f2);
    b.apply(&f3);
    let mut e = d.lit(a.len() == n && b.len() == n);
    for (i, q) in p.iter().enumerate() {
        let (x, y) = (n2(d, a[i], sc), n3(d, b[i], sc));
        e = e & eqn(&x, &vec![q[1], q[0] + se]) & eqn(&y, &vec![q[2], q[0] + se, q[1]]);
        if i == 0 || i == n - 1 {
            let z = n3(d, if i == 0 { l3.start } else { l3.end }, sc);
            if i != 0 || n > 1 {
                e = e & eqn(&z, &vec![q[2], q[0] + se, q[1]]);
            }
        }
    }
    d.assert(e, "an operation is not applied to every point once");
    // a monotone operation on a box moves its corners
    let mut b2 = Aabb2::with_points(&p.iter().map(|x| v2(d, x, sc)).collect::<Vec<_>>());
    let mut b3 = Aabb3::with_points(&p.iter().map(|x| v3(d, x, sc)).collect::<Vec<_>>());
    b2.apply(&|v: D::V2| D::V2::new_2d(v.x() + ss, v.y()));
    b3.apply(&|v: D::V3| D::V3::new_3d(v.x(), v.y() + ss, v.z()));
    let (l, h) = lo_hi(&p);
    match (b2.min_max(), b3.get_low(), b3.get_high()) {
        (Some((a, b)), Some(x), Some(y)) => {
            let (a, b, x, y) = (n2(d, a, sc), n2(d, b, sc), n3(d, x, sc), n3(d, y, sc));
            let e = eqn(&a, &vec![l[0] + se, l[1]])
                & eqn(&b, &vec![h[0] + se, h[1]])
                & eqn(&x, &vec![l[0], l[1] + se, l[2]])
                & eqn(&y, &vec![h[0], h[1] + se, h[2]]);
            d.assert(e, "an operation on a box is not applied to its corners");
        }
        _ => d.fail("an operation empties a box"),
    }
    d.cover("done");
}
fn conversions<D: Dom>(d: &mut D, g: i64) {
    let sc = (1, 1);
    let p = frees(d, 3, 2, -g, g);
    let v: Vec<D::V3> = p.iter().map(|x| v3(d, x, sc)).collect();
    let (a, b) = (v[0], v[1]);
    for l in [
        Line2::<D::V2>::from([a.x(), a.y(), b.x(), b.y()]),
        Line2::<D::V2>::from([[a.x(), a.y()], [b.x(), b.y()]]),
        Line2::new(D::V2::new_2d(a.x(), a.y()), D::V2::new_2d(b.x(), b.y())),
    ] {
        let (s, t) = (n2(d, l.start, sc), n2(d, l.end, sc));
        d.assert(eqn(&s, &p[0][..2].to_vec()) & eqn(&t, &p[1][..2].to_vec()), "a converted 2D line is another");
    }
    for l in [
        Line3::<D::V3>::from([a.x(), a.y(), a.z(), b.x(), b.y(), b.z()]),
        Line3::<D::V3>::from([a, b]),
        Line3::new(a, b),
    ] {
        let (s, t) = (n3(d, l.start, sc), n3(d, l.end, sc));
        d.assert(eqn(&s, &p[0]) & eqn(&t, &p[1]), "a converted 3D line is another");
    }
    d.cover("done");
}

// ------------------------------------------------------------------------------------ comparisons
/// |a - b| <= eps in every coordinate
fn near<E: ExT>(a: &N<E>, b: &N<E>, eps: E) -> E::B {
    let mut r = (a[0] - b[0]).le(eps) & (b[0] - a[0]).le(eps);
    for k in 1..a.len() {
        r = r & (a[k] - b[k]).le(eps) & (b[k] - a[k]).le(eps);
    }
    r
}
fn approx_line<D: Dom>(d: &mut D, g: i64) {
    let sc = (1, 1);
    let p = frees(d, 2, 4, 0, g);
    let v: Vec<D::V2> = p.iter().map(|x| v2(d, x, sc)).collect();
    let (a, b) = (Line2::new(v[0], v[1]), Line2::new(v[2], v[3]));
    let fwd = |e: D::E| near(&p[0], &p[2], e) & near(&p[1], &p[3], e);
    let rev = |e: D::E| near(&p[0], &p[3], e) & near(&p[1], &p[2], e);
    let zero = D::E::c(0);
    match d.choice("what", 3) {
        0 => {
            let r = a == b;
            d.assert(d.lit(r).iff(fwd(zero)), "equality of lines is not equality of the end points");
            d.cover(if r { "eq" } else { "ne" });
        }
        1 => {
            // in either direction
            let r = UlpsEq::ulps_eq(&a, &b, <D::S as AbsDiffEq>::default_epsilon(), <D::S as UlpsEq>::default_max_ulps());
            d.assert(d.lit(r).iff(fwd(zero) | rev(zero)), "ulps equality of lines is wrong");
            d.cover(if r { "eq" } else { "ne" });
        }
        _ => {
            let (ee, es) = d.i("eps", 0, g);
            let r = AbsDiffEq::abs_diff_eq(&a, &b, es);
            d.assert(d.lit(r).implies(fwd(ee) | rev(ee)), "lines further apart than the tolerance are equal");
            d.assert(fwd(ee).implies(d.lit(r)), "lines within the tolerance are not equal");
            d.assert((rev(ee) & !near(&p[0], &p[2], ee)).implies(d.lit(r)), "reversed lines within the tolerance are not equal");
            d.cover(if r { "eq" } else { "ne" });
        }
    }
}
/// many points, of which one pair may differ
fn approx_long<D: Dom>(d: &mut D, dim: usize, g: i64) {
    let n = 9;
    let at = [0, 4, 8][d.choice("point", 3)];
    let p: Vec<N<D::E>> = (0..n).map(|i| (0..dim).map(|k| D::E::c((3 * i + k) as i64 % 7)).collect()).collect();
    let mut q = p.clone();
    q[at] = free(d, dim, "q", 0, g);
    approx_at(d, dim, p, q, g);
}
fn approx_string<D: Dom>(d: &mut D, dim: usize, n: usize, m: usize, g: i64) {
    let p = frees(d, dim, n, 0, g);
    let q: Vec<N<D::E>> = (0..m).map(|i| free(d, dim, &format!("q{i}"), 0, g)).collect();
    approx_at(d, dim, p, q, g);
}
fn approx_at<D: Dom>(d: &mut D, dim: usize, p: Vec<N<D::E>>, q: Vec<N<D::E>>, g: i64) {
    let (n, m, sc) = (p.len(), q.len(), (1, 1));
    let (ee, es) = d.i("eps", 0, g);
    let (eps, ulps) = (<D::S as AbsDiffEq>::default_epsilon(), <D::S as UlpsEq>::default_max_ulps());
    let (r, u) = if dim == 2 {
        let a: Vec<D::V2> = p.iter().map(|x| v2(d, x, sc)).collect();
        let b: Vec<D::V2> = q.iter().map(|x| v2(d, x, sc)).collect();
        (Approx2::abs_diff_eq(&a, &b, es), Approx2::ulps_eq(&a, &b, eps, ulps))
    } else {
        let a: Vec<D::V3> = p.iter().map(|x| v3(d, x, sc)).collect();
        let b: Vec<D::V3> = q.iter().map(|x| v3(d, x, sc)).collect();
        (Approx3::abs_diff_eq(&a, &b, es), Approx3::ulps_eq(&a, &b, eps, ulps))
    };
    d.cover(if r { "eq" } else { "ne" });
    if n != m {
        d.check(!r && !u, "line strings of different lengths are equal");
        return;
    }
    let (mut within, mut same) = (d.lit(true), d.lit(true));
    for i in 0..n {
        within = within & near(&p[i], &q[i], ee);
        same = same & eqn(&p[i], &q[i]);
    }
    d.assert(d.lit(r).iff(within), "equality within a tolerance is not that of every coordinate");
    d.assert(d.lit(u).iff(same), "ulps equality is not that of every coordinate");
}

// ------------------------------------------------------------------------------------ properties
pub fn a01(deep: bool) -> Prop {
    let mut hs = vec![];
    let g = if deep { 255 } else { 63 };
    for n in 0..if deep { 6 } else { 5 } {
        hs.push(hx!(format!("box2-{n}"), format!("{n} points on -{g}..={g}², every way of building, scaled and shifted"), |d| aabb2(d, n, g, 4)));
    }
    let g = if deep { 31 } else { 15 };
    hs.push(hx!("box2-long", format!("3 sets of 12 points with one of them (of 3) anywhere on -{g}..={g}, every way of building"), |d| {
        let p = cloud(d, 2, g);
        aabb2_at(d, p, (1, 1))
    }));
    let mut h = hx!("contains2", format!("a box, a point, a line and another box on 0..={g}², scaled and shifted"), |d| aabb2_has(d, g, 4));
    h.must_cover = vec!["in", "out"];
    hs.push(h);
    let mut h = hx!("equal", "two boxes of up to 2 points on 0..=7², empty ones included", |d| aabb_equal(d, 7));
    h.must_cover = vec!["equal", "different"];
    hs.push(h);
    Prop {
        id: "A01",
        functions: &["linestring_2d::Aabb2", "linestring_2d::Aabb2::update_with_points", "linestring_2d::Aabb2::update_with_aabb", "linestring_2d::Aabb2::contains_aabb_inclusive"],
        bounds: "up to 4 points (thorough 5) on the grids listed, four scales".into(),
        assumptions: vec!["coordinates are finite".into()],
        harnesses: hs,
    }
}
pub fn a02(deep: bool) -> Prop {
    let mut hs = vec![];
    let g = if deep { 255 } else { 63 };
    for n in 0..if deep { 5 } else { 4 } {
        hs.push(hx!(format!("box3-{n}"), format!("{n} points on -{g}..={g}³, every way of building, scaled and shifted"), |d| aabb3(d, n, g, 4)));
    }
    let g = if deep { 31 } else { 15 };
    hs.push(hx!("box3-long", format!("3 sets of 12 points with one of them (of 3) anywhere on -{g}..={g}, every way of building"), |d| {
        let p = cloud(d, 3, g);
        aabb3_at(d, p, (1, 1))
    }));
    let mut h = hx!("contains3", format!("a box, a point, a line and another box on 0..={g}³, scaled and shifted"), |d| aabb3_has(d, g, 4));
    h.must_cover = vec!["in", "out"];
    hs.push(h);
    Prop {
        id: "A02",
        functions: &["linestring_3d::Aabb3", "linestring_3d::Aabb3::update_with_points", "linestring_3d::Aabb3::update_with_point", "linestring_3d::Aabb3::contains_aabb_inclusive"],
        bounds: "up to 3 points (thorough 4) on the grids listed, four scales".into(),
        assumptions: vec!["coordinates are finite".into()],
        harnesses: hs,
    }
}
pub fn t01(deep: bool) -> Prop {
    let (g, w) = if deep { (7, 255) } else { (5, 63) };
    let mut h = hx!("affine", format!("two boxes with a corner at the origin and a point on -{w}..={w}²"), |d| affine(d, w));
    h.merge = false;
    let hs = vec![
        h,
        hx!("affine-inside", format!("boxes at the origin with sides 1..={g} and a point of the source box"), |d| affine_inside(d, g)),
        {
            let mut h = hx!("affine-free", format!("transforms with offsets on -{w}..={w} and scales on -{w}..={w} except 0, one per axis; two points on -{w}..={w}²"), |d| affine_free(d, w));
            h.merge = false;
            h.must_cover = vec!["ab", "ba"];
            h
        },
        hx!("affine-none", "empty boxes; the default transform", |d| affine_none(d, 31)),
    ];
    Prop {
        id: "T01",
        functions: &["SimpleAffine::new", "SimpleAffine::transform_ab", "SimpleAffine::transform_ba", "SimpleAffine::transform_ab_a", "SimpleAffine::transform_ba_a"],
        bounds: "the grids listed".into(),
        assumptions: vec!["sides shorter than 1 count as 1, as the code documents by min_dim".into()],
        harnesses: hs,
    }
}
// ------------------------------------------------------------------------------------ non-finite input
fn special<D: Dom>(d: &mut D) -> D::S {
    let inf = <D::S as vector_traits::GenericScalar>::INFINITY;
    match d.choice("special", 3) {
        0 => inf,
        1 => <D::S as vector_traits::GenericScalar>::NEG_INFINITY,
        _ => inf - inf,
    }
}
/// n points of which the k-th has a NaN or infinite coordinate
fn spoiled<D: Dom>(d: &mut D, n: usize, g: i64) -> (Vec<D::V2>, usize) {
    let p = frees(d, 2, n, 0, g);
    let mut v: Vec<D::V2> = p.iter().map(|x| v2(d, x, (1, 1))).collect();
    let k = d.choice("which", n);
    let s = special(d);
    match d.choice("where", 3) {
        0 => v[k] = D::V2::new_2d(s, v[k].y()),
        1 => v[k] = D::V2::new_2d(v[k].x(), s),
        _ => {
            let t = special(d);
            v[k] = D::V2::new_2d(s, t)
        }
    }
    (v, k)
}
fn nf_sweep<D: Dom>(d: &mut D, n: usize, g: i64) {
    let (v, _) = spoiled(d, 2 * n, g);
    let bad = if d.choice("indexed", 2) == 1 {
        let e: Vec<(usize, usize)> = (0..n).map(|i| (2 * i, 2 * i + 1)).collect();
        let r = IntersectionTester::new(v).with_edges(e.iter()).and_then(|t| t.compute().map(|_| ()));
        r.is_ok()
    } else {
        let l: Vec<Line2<D::V2>> = v.chunks(2).map(|c| Line2::new(c[0], c[1])).collect();
        let r = IntersectionData::default().with_lines(l.into_iter()).and_then(|t| t.compute().map(|_| ()));
        r.is_ok()
    };
    d.check(!bad, "segments with a non-finite end point are accepted");
    d.cover("done");
}
fn nf_hull<D: Dom>(d: &mut D, n: usize, g: i64) {
    let (v, k) = spoiled(d, n, g);
    let idx: Vec<usize> = match d.choice("order", 3) {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        _ => (0..n).chain([0]).collect(),
    };
    let bad = match d.choice("algorithm", 3) {
        0 => indexed_gift_wrap(&v, &idx).is_ok(),
        1 => indexed_graham_scan(&v, &idx).is_ok(),
        _ => convex_hull_par(&v, &idx, [1, 2, 8][d.choice("chunk", 3)]).is_ok(),
    };
    d.check(!bad, "a hull of points with a non-finite coordinate is returned");
    // a vertex that is not selected does not matter
    let rest: Vec<usize> = idx.iter().copied().filter(|i| *i != k).collect();
    if !rest.is_empty() {
        let r = [indexed_gift_wrap(&v, &rest).is_ok(), indexed_graham_scan(&v, &rest).is_ok(), convex_hull_par(&v, &rest, 2).is_ok()];
        d.check(r == [true; 3], "a vertex that is not selected makes the hull fail");
    }
    d.cover("done");
}
fn nf_affine<D: Dom>(d: &mut D, g: i64) {
    let p = frees(d, 2, 2, 1, g);
    let z = v2(d, &vec![D::E::c(0); 2], (1, 1));
    let (a, b) = (v2(d, &p[0], (1, 1)), v2(d, &p[1], (1, 1)));
    let (a, b) = (Aabb2::with_points(&[z, a]), Aabb2::with_points(&[z, b]));
    let (v, k) = spoiled(d, 2, g);
    match SimpleAffine::new(&a, &b) {
        Ok(t) => {
            let four = [v[0].x(), v[0].y(), v[1].x(), v[1].y()];
            let r = [t.transform_ab(v[k]).is_ok(), t.transform_ba(v[k]).is_ok(), t.transform_ab_a(four).is_ok(), t.transform_ba_a(four).is_ok()];
            d.check(r == [false; 4], "a non-finite point is transformed without an error");
        }
        Err(_) => d.fail("no transform for two boxes"),
    }
    d.cover("done");
}
pub fn e01(deep: bool) -> Prop {
    let g = if deep { 3 } else { 2 };
    let mut hs = vec![];
    for n in [1, 2] {
        hs.push(hx!(format!("sweep-{n}"), format!("{n} segments on 0..={g}² with one NaN or infinite end point"), |d| nf_sweep(d, n, g)));
    }
    for n in 1..if deep { 6 } else { 5 } {
        let g = if n > 3 { g - 1 } else { g };
        hs.push(hx!(format!("hull-{n}"), format!("{n} points on 0..={g}² with one NaN or infinite coordinate"), |d| nf_hull(d, n, g)));
    }
    hs.push(hx!("affine", format!("boxes on 0..={g}², one NaN or infinite point"), |d| nf_affine(d, g)));
    for h in hs.iter_mut() {
        h.must_cover = vec!["done"];
    }
    Prop {
        id: "E01",
        functions: &["IntersectionData::with_lines", "IntersectionTester::with_edges", "convex_hull::indexed_gift_wrap", "convex_hull::indexed_graham_scan", "convex_hull::convex_hull_par", "SimpleAffine::transform_ab", "SimpleAffine::transform_ba", "SimpleAffine::transform_ab_a", "SimpleAffine::transform_ba_a"],
        bounds: "one point with one or two coordinates NaN or infinite at any position; the other coordinates on the grids listed".into(),
        assumptions: vec![],
        harnesses: hs,
    }
}
pub fn q01(deep: bool) -> Prop {
    let g = if deep { 255 } else { 63 };
    let mut h = hx!("get-plane", "boxes of two corners on 0..=31³", |d| get_plane(d, 31, false));
    h.must_cover = vec!["plane", "none"];
    let mut h2 = hx!("get-plane-relaxed", "boxes of two corners on 0..=40³, tolerance 1/16", |d| get_plane(d, 40, true));
    h2.must_cover = vec!["plane", "none"];
    let hs = vec![hx!("planes", format!("three planes; 2D and 3D points on -{g}..={g}, by point, line and line string"), |d| planes(d, g)), h, h2];
    Prop {
        id: "Q01",
        functions: &["Plane::point_to_3d", "Plane::point_to_2d", "Plane::get_plane_relaxed", "LineString2::copy_to_3d", "LineString3::copy_to_2d", "Line2::copy_to_3d", "Line3::copy_to_2d"],
        bounds: "the grids listed".into(),
        assumptions: vec![],
        harnesses: hs,
    }
}
pub fn i01(deep: bool) -> Prop {
    let mut hs = vec![];
    for dim in [2, 3] {
        for n in 0..if deep { 8 } else { 6 } {
            hs.push(hx!(format!("iter{dim}-{n}"), format!("{n} points in {dim}D on 0..=63"), |d| iters(d, dim, n, 63)));
        }
    }
    for n in [8, 9, 17, 18] {
        for dim in [2, 3] {
            hs.push(hx!(format!("iter{dim}-{n}"), format!("{n} points in {dim}D on 0..=63"), |d| iters(d, dim, n, 63)));
        }
    }
    hs.push(hx!("apply-12", "12 points of which one is free, on -63..=63, shifted and axes exchanged", |d| {
        let p = cloud(d, 3, 63);
        applied_at(d, p, 63)
    }));
    for n in 1..4 {
        hs.push(hx!(format!("apply-{n}"), format!("{n} points on -63..=63, shifted and axes exchanged"), |d| applied(d, n, 63)));
    }
    hs.push(hx!("conversions", "two points on -63..=63", |d| conversions(d, 63)));
    Prop {
        id: "I01",
        functions: &["WindowIterator", "ChunkIterator", "LineString2::is_connected", "LineString2::point_count", "LineString2::apply", "LineString3::apply", "Line2::from", "Line3::from"],
        bounds: "up to 5 points (thorough 7), and 8, 9, 12, 17 and 18, on the grids listed".into(),
        assumptions: vec![],
        harnesses: hs,
    }
}
pub fn x01(deep: bool) -> Prop {
    let mut hs = vec![];
    let g = if deep { 31 } else { 15 };
    let mut h = hx!("lines", format!("two 2D lines on 0..={g}², tolerances 0..={g}"), |d| approx_line(d, g));
    h.must_cover = vec!["eq", "ne"];
    hs.push(h);
    for dim in [2, 3] {
        let mut h = hx!(format!("strings{dim}-long"), format!("two line strings of 9 points in {dim}D, one point (of 3) free on 0..={g}"), |d| approx_long(d, dim, g));
        h.must_cover = vec!["eq", "ne"];
        hs.push(h);
        for (n, m) in [(0, 0), (1, 1), (2, 2), (3, 3), (1, 2), (2, 1), (0, 1), (5, 6)] {
            hs.push(hx!(format!("strings{dim}-{n}-{m}"), format!("line strings of {n} and {m} points in {dim}D on 0..={g}"), |d| approx_string(d, dim, n, m, g)));
        }
    }
    Prop {
        id: "X01",
        functions: &["Line2::eq", "Line2::abs_diff_eq", "Line2::ulps_eq", "Approx::abs_diff_eq", "Approx::ulps_eq"],
        bounds: "the grids listed; ulps equality of integers is equality".into(),
        assumptions: vec![],
        harnesses: hs,
    }
}
