//! Points, predicates and scales shared by the harnesses (the oracle side).
use crate::dom::*;
use vector_traits::*;

pub struct P<D: Dom> {
    pub x: D::E,
    pub y: D::E,
    pub v: D::V2,
}
impl<D: Dom> Clone for P<D> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<D: Dom> Copy for P<D> {}

/// coordinates are num/den times the grid, shifted by `off`
pub type Sc = (i64, i64);
const OFF: i64 = -4096;

/// coordinate = (grid value + shift) * times / by
pub const TINY: Sc = (1, 1 << 25);
const FAR: Sc = (0, 1 << 10);
const FAR_OFF: i64 = 1 << 30;
/// 1: the grid itself; 2: + times 2^10; 3: + times 2^-25 (any smaller and cross products are within the tolerance of the code); 4: + the grid shifted by (-4096,-4096);
/// 5: + times 2^-20; 6: + times 2^20; 7: + a grid of width 2^-10 around 2^20
pub fn scale<D: Dom>(d: &mut D, n: usize) -> Sc {
    if n <= 1 {
        return (1, 1);
    }
    [(1, 1), (1 << 10, 1), TINY, (0, 0), (1, 1 << 20), (1 << 20, 1), FAR][d.choice("scale", n)]
}
pub fn sc_scalar<D: Dom>(d: &D, e: D::E, sc: Sc) -> D::S {
    if sc == (0, 0) {
        d.scalar(e + D::E::c(OFF), 1, 1)
    } else if sc == FAR {
        d.scalar(e + D::E::c(FAR_OFF), 1, sc.1)
    } else {
        d.scalar(e, sc.0, sc.1)
    }
}
pub fn mk<D: Dom>(d: &D, x: D::E, y: D::E, sc: Sc) -> P<D> {
    let (sx, sy) = (sc_scalar(d, x, sc), sc_scalar(d, y, sc));
    P { x, y, v: D::V2::new_2d(sx, sy) }
}
pub fn ptr<D: Dom>(d: &mut D, name: &str, lo: i64, hi: i64, sc: Sc) -> P<D> {
    let x = d.int(&format!("{name}.x"), lo, hi);
    let y = d.int(&format!("{name}.y"), lo, hi);
    mk(d, x, y, sc)
}
pub fn cpt<D: Dom>(d: &mut D, x: i64, y: i64, sc: Sc) -> P<D> {
    mk(d, D::E::c(x), D::E::c(y), sc)
}
/// the exact value of a coordinate the code produced, in grid units
pub fn unscale<D: Dom>(d: &mut D, s: D::S, sc: Sc) -> D::E {
    let e = d.ex(s);
    if sc == (0, 0) {
        e - D::E::c(OFF)
    } else if sc == FAR {
        e * D::E::c(sc.1) - D::E::c(FAR_OFF)
    } else if sc == (1, 1) {
        e
    } else {
        e * D::E::frac(sc.1, sc.0)
    }
}
pub fn back<D: Dom>(d: &mut D, v: D::V2, sc: Sc) -> P<D> {
    let x = unscale(d, v.x(), sc);
    let y = unscale(d, v.y(), sc);
    P { x, y, v }
}
/// a length ratio: code units per grid unit, inverted
pub fn inv<D: Dom>(sc: Sc) -> D::E {
    if sc == (0, 0) {
        D::E::c(1)
    } else if sc == FAR {
        D::E::c(sc.1)
    } else {
        D::E::frac(sc.1, sc.0)
    }
}
/// (times, by) for lengths, which are scaled but not shifted
pub fn len_scale(sc: Sc) -> (i64, i64) {
    if sc == (0, 0) {
        (1, 1)
    } else if sc == FAR {
        (1, sc.1)
    } else {
        sc
    }
}
pub fn obs2<D: Dom>(d: &mut D, v: D::V2) {
    d.observe(v.x());
    d.observe(v.y());
}

pub fn orient<D: Dom>(a: P<D>, b: P<D>, c: P<D>) -> D::E {
    (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x)
}
pub fn eq2<D: Dom>(a: P<D>, b: P<D>) -> D::B {
    a.x.eq(b.x) & a.y.eq(b.y)
}
pub fn ne2<D: Dom>(a: P<D>, b: P<D>) -> D::B {
    !eq2(a, b)
}
pub fn between<D: Dom>(a: D::E, b: D::E, p: D::E) -> D::B {
    (a.le(p) & p.le(b)) | (b.le(p) & p.le(a))
}
pub fn in_box<D: Dom>(a: P<D>, b: P<D>, p: P<D>) -> D::B {
    between::<D>(a.x, b.x, p.x) & between::<D>(a.y, b.y, p.y)
}
pub fn on_seg<D: Dom>(a: P<D>, b: P<D>, p: P<D>) -> D::B {
    orient(a, b, p).is0() & in_box(a, b, p)
}
/// the two closed segments share a point
pub fn seg_meet<D: Dom>(a: P<D>, b: P<D>, c: P<D>, e: P<D>) -> D::B {
    let z = D::E::c(0);
    let (o1, o2) = (orient(a, b, c), orient(a, b, e));
    let (o3, o4) = (orient(c, e, a), orient(c, e, b));
    let proper = (o1.lt(z) & o2.gt(z) | o1.gt(z) & o2.lt(z)) & (o3.lt(z) & o4.gt(z) | o3.gt(z) & o4.lt(z));
    proper | on_seg(a, b, c) | on_seg(a, b, e) | on_seg(c, e, a) | on_seg(c, e, b)
}
/// the segments cross at a point interior to both
pub fn proper<D: Dom>(a: P<D>, b: P<D>, c: P<D>, e: P<D>) -> D::B {
    let z = D::E::c(0);
    let (o1, o2) = (orient(a, b, c), orient(a, b, e));
    let (o3, o4) = (orient(c, e, a), orient(c, e, b));
    (o1.lt(z) & o2.gt(z) | o1.gt(z) & o2.lt(z)) & (o3.lt(z) & o4.gt(z) | o3.gt(z) & o4.lt(z))
}
