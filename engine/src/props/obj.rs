//! N01: what is written to an OBJ file is what was given.
use super::util::*;
use crate::dom::*;
use crate::hx;
use crate::Prop;
use linestring::linestring_3d::{save_to_obj_file, Line3};
use std::sync::atomic::{AtomicU64, Ordering};
use vector_traits::*;

/// a scratch file which is gone when the path ends, however it ends
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        Scratch(std::env::temp_dir().join(format!("lsverify-{}-{}.obj", std::process::id(), N.fetch_add(1, Ordering::Relaxed))))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

struct Q<D: Dom>([D::E; 3], D::V3);
fn q3<D: Dom>(d: &D, e: [D::E; 3], sc: Sc) -> Q<D> {
    let v = D::V3::new_3d(sc_scalar(d, e[0], sc), sc_scalar(d, e[1], sc), sc_scalar(d, e[2], sc));
    Q(e, v)
}
fn eq3<D: Dom>(a: &[D::E; 3], b: &[D::E; 3]) -> D::B {
    a[0].eq(b[0]) & a[1].eq(b[1]) & a[2].eq(b[2])
}

/// write the lines (the points two by two), in lists of the given lengths, and read them back
fn round_trip<D: Dom>(d: &mut D, pts: &[Q<D>], lists: &[usize], sc: Sc) {
    let mut it = pts.chunks_exact(2);
    let lines: Vec<Vec<Line3<D::V3>>> = lists.iter().map(|n| (0..*n).map(|_| it.next().map(|c| Line3::new(c[0].1, c[1].1)).unwrap()).collect()).collect();
    assert!(it.next().is_none());
    let file = Scratch::new();
    d.with_text(|d| {
        if save_to_obj_file(&file.0, "some name", &lines).is_err() {
            return d.fail("the file is not written");
        }
        let Ok(text) = std::fs::read_to_string(&file.0) else { return d.fail("there is no file") };
        let (mut v, mut l, mut names) = (vec![], vec![], vec![]);
        for row in text.lines() {
            let row = row.split('#').next().unwrap_or("").trim();
            let w: Vec<&str> = row.split_whitespace().collect();
            match w.first() {
                None => {}
                Some(&"o") => names.push(row[1..].trim().to_string()),
                Some(&"v") => {
                    if w.len() != 4 {
                        return d.fail("a vertex does not have three coordinates");
                    }
                    let mut p = vec![];
                    for t in &w[1..] {
                        let Some(s) = d.read_text(t) else { return d.fail("a coordinate is not a number") };
                        p.push(unscale(d, s, sc));
                    }
                    v.push([p[0], p[1], p[2]]);
                }
                Some(&"l") => {
                    let i: Vec<usize> = w[1..].iter().filter_map(|t| t.parse().ok()).collect();
                    if i.len() != 2 || w.len() != 3 || i.iter().any(|i| *i < 1 || *i > v.len()) {
                        return d.fail("a line element does not name two vertices written before it");
                    }
                    l.push((i[0] - 1, i[1] - 1));
                }
                Some(_) => return d.fail("an element of another kind is written"),
            }
        }
        d.check(names == ["some name"], "the object is not named once as asked for");
        d.check(l.len() * 2 == pts.len(), "there is not one line element per line");
        for (c, (a, b)) in pts.chunks_exact(2).zip(&l) {
            let e = eq3::<D>(&v[*a], &c[0].0);
            d.assert(e, "a line element does not start where the line does");
            let e = eq3::<D>(&v[*b], &c[1].0);
            d.assert(e, "a line element does not end where the line does");
        }
        for (i, a) in v.iter().enumerate() {
            d.check(l.iter().any(|x| x.0 == i || x.1 == i), "a vertex is written which no line uses");
            for b in &v[..i] {
                let e = !eq3::<D>(a, b);
                d.assert(e, "a vertex is written twice");
            }
        }
        if v.len() < pts.len() {
            d.cover("shared");
        } else {
            d.cover("separate");
        }
    })
}

/// three lines; the points differ only in x, two of them also in y
fn free<D: Dom>(d: &mut D, g: i64) {
    let lists: &[usize] = [&[3][..], &[1, 2], &[2, 0, 1], &[0, 1, 1, 1]][d.choice("lists", 4)];
    let mut p = vec![];
    for i in 0..6 {
        let x = d.int(&format!("p{i}.x"), 0, g);
        let y = if i == 1 || i == 4 { d.int(&format!("p{i}.y"), 0, g) } else { D::E::c(-3) };
        p.push(q3(d, [x, y, D::E::c(-7)], (1, 1)));
    }
    round_trip(d, &p, lists, (1, 1));
}
/// one line free in all coordinates between others that share them
fn axes<D: Dom>(d: &mut D, g: i64) {
    let mut p = vec![];
    let c = |d: &D, a: i64, b: i64, e: i64| q3(d, [D::E::c(a), D::E::c(b), D::E::c(e)], (1, 1));
    p.push(c(d, 0, 1, 2));
    p.push(c(d, 2, 0, -1));
    for i in 0..2 {
        let e = [0, 1, 2].map(|a| d.int(&format!("p{i}.{a}"), -g, g));
        p.push(q3(d, e, (1, 1)));
    }
    p.push(c(d, -1, 0, 2));
    p.push(c(d, 0, 1, 2));
    round_trip(d, &p, &[1, 2], (1, 1));
}
/// coordinates which need many digits, or exponents
fn scaled<D: Dom>(d: &mut D, g: i64) {
    let sc = scale(d, 7);
    let mut p = vec![];
    for i in 0..4 {
        let x = d.int(&format!("p{i}.x"), -g, g);
        let mut e = [D::E::c(1), D::E::c(-2), D::E::c(3)];
        e[i % 3] = x;
        p.push(q3(d, e, sc));
    }
    round_trip(d, &p, &[2], sc);
}
/// a ring of many lines and one line across
fn long<D: Dom>(d: &mut D, n: i64) {
    let at = |i: i64| {
        let i = i % n;
        [D::E::c(i % 4), D::E::c(i / 4), D::E::c((i * i) % 3)]
    };
    let mut p = vec![];
    for i in 0..n {
        p.push(q3(d, at(i), (1, 1)));
        p.push(q3(d, at(i + 1), (1, 1)));
    }
    p.push(q3(d, at(n / 2), (1, 1)));
    let e = [(0, 3), (0, n / 4), (0, 2)].map(|(l, h)| d.int(&format!("q{h}.{l}{}", if h == 2 { "z" } else { "" }), l, h));
    p.push(q3(d, e, (1, 1)));
    round_trip(d, &p, &[n as usize - 3, 3, 1], (1, 1));
}
fn small<D: Dom>(d: &mut D) {
    let lists: &[usize] = [&[][..], &[0], &[0, 0], &[1]][d.choice("lists", 4)];
    let mut p = vec![];
    for i in 0..2 * lists.iter().sum::<usize>() {
        let e = [0, 1, 2].map(|a| d.int(&format!("p{i}.{a}"), -100, 100));
        p.push(q3(d, e, (1, 1)));
    }
    round_trip(d, &p, lists, (1, 1));
    // where no file can be made there is an error
    let dir = Scratch::new();
    let l: Vec<Vec<Line3<D::V3>>> = vec![];
    let r = save_to_obj_file(dir.0.join("a.obj"), "o", &l);
    d.check(r.is_err(), "writing where no file can be made is no error");
}

pub fn n01(deep: bool) -> Prop {
    let g = 1000;
    let mut hs = vec![];
    let mut h = hx!("free", format!("three lines in one to four lists, x of all six ends and y of two of them on 0..={g}"), |d| free(d, g));
    h.must_cover = vec!["shared", "separate"];
    hs.push(h);
    let g = 500;
    hs.push(hx!("axes", format!("one line anywhere on -{g}..={g}³ between two others"), |d| axes(d, g)));
    let g = 200;
    let mut h = hx!("scaled", format!("two lines, a coordinate of each end on -{g}..={g}, at 7 scales and offsets"), |d| scaled(d, g));
    h.must_cover = vec!["separate"];
    hs.push(h);
    let n = if deep { 40 } else { 14 };
    hs.push(hx!("long", format!("a ring of {n} lines and one more with an end anywhere on the grid of the ring"), |d| long(d, n)));
    hs.push(hx!("small", "no list, empty lists, one line with ends on -100..=100³, and a place where no file can be made", |d| small(d)));
    Prop {
        id: "N01",
        functions: &["linestring_3d::save_to_obj_file"],
        bounds: "up to 4 lists, 3 lines with free ends, 15 (thorough: 41) lines of which one end is free, on the grids listed".into(),
        assumptions: vec![
            "writing a finite number as decimal text without a precision is injective and reading it gives the number back (the standard library's promise); text therefore only depends on which numbers are equal, which is decided symbolically".into(),
            "no negative zero among the coordinates".into(),
        ],
        harnesses: hs,
    }
}
