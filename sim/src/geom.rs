//! Independent double-precision geometry: the reference the engine is judged against.

use crate::case::Shape;

pub type V = (f64, f64);
pub const SKIN: f64 = 0.01;

pub fn add(a: V, b: V) -> V {
    (a.0 + b.0, a.1 + b.1)
}
pub fn sub(a: V, b: V) -> V {
    (a.0 - b.0, a.1 - b.1)
}
pub fn mul(s: f64, a: V) -> V {
    (s * a.0, s * a.1)
}
pub fn dot(a: V, b: V) -> f64 {
    a.0 * b.0 + a.1 * b.1
}
pub fn cross(a: V, b: V) -> f64 {
    a.0 * b.1 - a.1 * b.0
}
pub fn len(a: V) -> f64 {
    dot(a, a).sqrt()
}
pub fn norm(a: V) -> V {
    let l = len(a);
    if l > 0.0 {
        mul(1.0 / l, a)
    } else {
        (0.0, 0.0)
    }
}
pub fn rot(ang: f64, v: V) -> V {
    let (s, c) = ang.sin_cos();
    (c * v.0 - s * v.1, s * v.0 + c * v.1)
}

#[derive(Clone, Copy, Debug)]
pub struct Xf {
    pub p: V,
    pub s: f64,
    pub c: f64,
}

impl Xf {
    pub fn new(p: V, a: f64) -> Xf {
        let (s, c) = a.sin_cos();
        Xf { p, s, c }
    }
    pub fn ap(&self, v: V) -> V {
        (self.c * v.0 - self.s * v.1 + self.p.0, self.s * v.0 + self.c * v.1 + self.p.1)
    }
    pub fn rot(&self, v: V) -> V {
        (self.c * v.0 - self.s * v.1, self.s * v.0 + self.c * v.1)
    }
    pub fn inv(&self, v: V) -> V {
        let d = sub(v, self.p);
        (self.c * d.0 + self.s * d.1, -self.s * d.0 + self.c * d.1)
    }
}

/// A convex core (1 point, a segment or a counter-clockwise polygon) with a radius.
#[derive(Clone, Debug)]
pub struct Prim {
    pub pts: Vec<V>,
    pub r: f64,
    /// Collides only from the right-hand side of its direction.
    pub one_sided: bool,
    /// Ghost vertices, when part of a chain or one-sided edge.
    pub ghost: Option<(V, V)>,
}

fn f2(p: (f32, f32)) -> V {
    (p.0 as f64, p.1 as f64)
}

/// The child `i` of a shape in its local frame.
pub fn child(s: &Shape, i: usize) -> Prim {
    match s {
        Shape::Circle { r, x, y } => Prim { pts: vec![f2((*x, *y))], r: *r as f64, one_sided: false, ghost: None },
        Shape::Box { hx, hy, x, y, a } => {
            let xf = Xf::new(f2((*x, *y)), *a as f64);
            let (hx, hy) = (*hx as f64, *hy as f64);
            let pts = [(-hx, -hy), (hx, -hy), (hx, hy), (-hx, hy)].iter().map(|p| xf.ap(*p)).collect();
            Prim { pts, r: SKIN, one_sided: false, ghost: None }
        }
        Shape::Poly { pts } => {
            let mut v: Vec<V> = pts.iter().map(|p| f2(*p)).collect();
            if area(&v) < 0.0 {
                v.reverse();
            }
            Prim { pts: v, r: SKIN, one_sided: false, ghost: None }
        }
        Shape::Edge { a, b } => Prim { pts: vec![f2(*a), f2(*b)], r: SKIN, one_sided: false, ghost: None },
        Shape::Edge1 { v } => {
            Prim { pts: vec![f2(v[1]), f2(v[2])], r: SKIN, one_sided: true, ghost: Some((f2(v[0]), f2(v[3]))) }
        }
        Shape::Chain { pts, prev, next } => {
            let g0 = if i == 0 { f2(*prev) } else { f2(pts[i - 1]) };
            let g1 = if i + 2 < pts.len() { f2(pts[i + 2]) } else { f2(*next) };
            Prim { pts: vec![f2(pts[i]), f2(pts[i + 1])], r: SKIN, one_sided: true, ghost: Some((g0, g1)) }
        }
        Shape::Loop { pts } => {
            let n = pts.len();
            Prim {
                pts: vec![f2(pts[i]), f2(pts[(i + 1) % n])],
                r: SKIN,
                one_sided: true,
                ghost: Some((f2(pts[(i + n - 1) % n]), f2(pts[(i + 2) % n]))),
            }
        }
    }
}

pub fn world_prim(s: &Shape, i: usize, xf: &Xf) -> Prim {
    let mut p = child(s, i);
    for v in p.pts.iter_mut() {
        *v = xf.ap(*v);
    }
    if let Some((a, b)) = p.ghost {
        p.ghost = Some((xf.ap(a), xf.ap(b)));
    }
    p
}

pub fn area(p: &[V]) -> f64 {
    let n = p.len();
    (0..n).map(|i| cross(p[i], p[(i + 1) % n])).sum::<f64>() / 2.0
}

/// Mass, centroid and rotational inertia about the local origin for unit density.
pub fn mass_of(s: &Shape) -> (f64, V, f64) {
    match s {
        Shape::Circle { r, x, y } => {
            let r = *r as f64;
            let c = f2((*x, *y));
            let m = std::f64::consts::PI * r * r;
            (m, c, m * (0.5 * r * r + dot(c, c)))
        }
        Shape::Box { .. } | Shape::Poly { .. } => {
            let p = child(s, 0).pts;
            let n = p.len();
            // Integrate about the first vertex to avoid cancellation.
            let o = p[0];
            let (mut a, mut c, mut i) = (0.0, (0.0, 0.0), 0.0);
            for k in 1..n - 1 {
                let (e1, e2) = (sub(p[k], o), sub(p[k + 1], o));
                let d = cross(e1, e2);
                a += d / 2.0;
                c = add(c, mul(d / 6.0, add(e1, e2)));
                let xx = e1.0 * e1.0 + e1.0 * e2.0 + e2.0 * e2.0;
                let yy = e1.1 * e1.1 + e1.1 * e2.1 + e2.1 * e2.1;
                i += d / 12.0 * (xx + yy);
            }
            let c = mul(1.0 / a, c);
            let ic = i - a * dot(c, c);
            let cw = add(c, o);
            (a, cw, ic + a * dot(cw, cw))
        }
        Shape::Edge { a, b } => (0.0, mul(0.5, add(f2(*a), f2(*b))), 0.0),
        Shape::Edge1 { v } => (0.0, mul(0.5, add(f2(v[1]), f2(v[2]))), 0.0),
        _ => (0.0, (0.0, 0.0), 0.0),
    }
}

pub fn seg_point(a: V, b: V, p: V) -> f64 {
    let d = sub(b, a);
    let l = dot(d, d);
    let t = if l > 0.0 { (dot(sub(p, a), d) / l).clamp(0.0, 1.0) } else { 0.0 };
    len(sub(p, add(a, mul(t, d))))
}

fn seg_seg(a: V, b: V, c: V, d: V) -> f64 {
    let (r, s) = (sub(b, a), sub(d, c));
    let den = cross(r, s);
    if den != 0.0 {
        let t = cross(sub(c, a), s) / den;
        let u = cross(sub(c, a), r) / den;
        if (0.0..=1.0).contains(&t) && (0.0..=1.0).contains(&u) {
            return 0.0;
        }
    }
    seg_point(a, b, c).min(seg_point(a, b, d)).min(seg_point(c, d, a)).min(seg_point(c, d, b))
}

fn edges(p: &[V]) -> Vec<(V, V)> {
    match p.len() {
        1 => vec![(p[0], p[0])],
        2 => vec![(p[0], p[1])],
        n => (0..n).map(|i| (p[i], p[(i + 1) % n])).collect(),
    }
}

fn axes(p: &[V]) -> Vec<V> {
    match p.len() {
        1 => vec![],
        2 => {
            let d = norm(sub(p[1], p[0]));
            vec![(d.1, -d.0), (-d.1, d.0), d, (-d.0, -d.1)]
        }
        n => (0..n)
            .map(|i| {
                let d = norm(sub(p[(i + 1) % n], p[i]));
                (d.1, -d.0)
            })
            .collect(),
    }
}

/// Signed distance of two convex cores: positive = distance, negative = depth along the best
/// separating axis.
pub fn core_sep(a: &[V], b: &[V]) -> f64 {
    let mut best = f64::MIN;
    for (p, q, s) in [(a, b, 1.0), (b, a, 1.0)] {
        for n in axes(p) {
            let n = mul(s, n);
            let hi = p.iter().map(|v| dot(n, *v)).fold(f64::MIN, f64::max);
            let lo = q.iter().map(|v| dot(n, *v)).fold(f64::MAX, f64::min);
            best = best.max(lo - hi);
        }
    }
    if best >= 0.0 || (a.len() == 1 && b.len() == 1) {
        let mut d = f64::MAX;
        for (p, q) in edges(a) {
            for (r, s) in edges(b) {
                d = d.min(seg_seg(p, q, r, s));
            }
        }
        return d;
    }
    best
}

/// Signed gap between two shapes including their radii.
pub fn gap(a: &Prim, b: &Prim) -> f64 {
    core_sep(&a.pts, &b.pts) - a.r - b.r
}

#[derive(Clone, Copy, Debug)]
pub struct Aabb {
    pub lo: V,
    pub hi: V,
}

impl Aabb {
    pub fn of(p: &Prim) -> Aabb {
        let mut a = Aabb { lo: (f64::MAX, f64::MAX), hi: (f64::MIN, f64::MIN) };
        for v in &p.pts {
            a.lo = (a.lo.0.min(v.0 - p.r), a.lo.1.min(v.1 - p.r));
            a.hi = (a.hi.0.max(v.0 + p.r), a.hi.1.max(v.1 + p.r));
        }
        a
    }
    pub fn grow(&self, e: f64) -> Aabb {
        Aabb { lo: (self.lo.0 - e, self.lo.1 - e), hi: (self.hi.0 + e, self.hi.1 + e) }
    }
    pub fn overlaps(&self, o: &Aabb) -> bool {
        self.lo.0 <= o.hi.0 && self.lo.1 <= o.hi.1 && o.lo.0 <= self.hi.0 && o.lo.1 <= self.hi.1
    }
    pub fn contains(&self, o: &Aabb) -> bool {
        self.lo.0 <= o.lo.0 && self.lo.1 <= o.lo.1 && o.hi.0 <= self.hi.0 && o.hi.1 <= self.hi.1
    }
}

/// Result of a reference ray cast: how sure we are, and where.
#[derive(Clone, Copy, Debug)]
pub enum Hit {
    Miss,
    /// Too close to call.
    Unsure,
    At { t: f64, n: V },
}

/// Ray p1→p2 against one child, in world coordinates.
pub fn ray(p: &Prim, back_hits: bool, p1: V, p2: V) -> Hit {
    let d = sub(p2, p1);
    let l = len(d);
    let eps = 1e-3;
    match p.pts.len() {
        1 => {
            let c = p.pts[0];
            let s = sub(p1, c);
            let start = len(s) - p.r;
            if start.abs() < eps {
                return Hit::Unsure;
            }
            if start < 0.0 {
                return Hit::Miss;
            }
            let u = norm(d);
            let perp = cross(u, sub(c, p1)).abs();
            if (perp - p.r).abs() < eps * (1.0 + p.r) {
                return Hit::Unsure;
            }
            if perp > p.r {
                return Hit::Miss;
            }
            let along = dot(u, sub(c, p1)) - (p.r * p.r - perp * perp).sqrt();
            if along < -eps {
                return Hit::Miss;
            }
            if along > l + eps {
                return Hit::Miss;
            }
            if along < eps || along > l - eps {
                return Hit::Unsure;
            }
            let at = add(p1, mul(along, u));
            Hit::At { t: along / l, n: norm(sub(at, c)) }
        }
        2 => {
            let (a, b) = (p.pts[0], p.pts[1]);
            let e = sub(b, a);
            let den = cross(d, e);
            let le = len(e);
            if den.abs() < 1e-3 * l * le {
                return if seg_seg(a, b, p1, p2) > eps { Hit::Miss } else { Hit::Unsure };
            }
            let t = cross(sub(a, p1), e) / den;
            let u = cross(sub(a, p1), d) / den;
            let (et, eu) = (eps / l / (den.abs() / (l * le)), eps / le / (den.abs() / (l * le)));
            if t < -et || t > 1.0 + et || u < -eu || u > 1.0 + eu {
                return Hit::Miss;
            }
            if t < et || t > 1.0 - et || u < eu || u > 1.0 - eu {
                return Hit::Unsure;
            }
            let right = norm((e.1, -e.0));
            let from_right = dot(right, sub(p1, a)) > 0.0;
            if p.one_sided && !back_hits && !from_right {
                return Hit::Miss;
            }
            Hit::At { t, n: if from_right { right } else { mul(-1.0, right) } }
        }
        n => {
            let (mut lo, mut hi) = (f64::MIN, f64::MAX);
            let mut nn = (0.0, 0.0);
            let mut inside = true;
            let mut near = f64::MAX;
            for i in 0..n {
                let e = norm(sub(p.pts[(i + 1) % n], p.pts[i]));
                let ax = (e.1, -e.0);
                let num = dot(ax, sub(p.pts[i], p1));
                let den = dot(ax, d);
                if num < 0.0 {
                    inside = false;
                }
                near = near.min(num.abs());
                if den.abs() < 1e-9 * l {
                    if num < -eps {
                        return Hit::Miss;
                    }
                    if num < eps {
                        return Hit::Unsure;
                    }
                    continue;
                }
                let t = num / den;
                if den < 0.0 {
                    if t > lo {
                        lo = t;
                        nn = ax;
                    }
                } else if t < hi {
                    hi = t;
                }
            }
            let start_gap = core_sep(&p.pts, &[p1]);
            if start_gap.abs() < eps {
                return Hit::Unsure;
            }
            if inside {
                return Hit::Miss;
            }
            let et = 2.0 * eps / l;
            // Grazing rays are not judged.
            let graze = {
                let mut deep = f64::MIN;
                if hi > lo {
                    let mid = add(p1, mul(0.5 * (lo + hi), d));
                    deep = -core_sep(&p.pts, &[mid]);
                }
                deep
            };
            if hi < lo {
                let dist = {
                    let mut m = f64::MAX;
                    for i in 0..n {
                        m = m.min(seg_seg(p.pts[i], p.pts[(i + 1) % n], p1, p2));
                    }
                    m
                };
                return if dist > eps { Hit::Miss } else { Hit::Unsure };
            }
            if lo > 1.0 + et || lo < -et {
                return Hit::Miss;
            }
            if graze < eps || lo > 1.0 - et || lo < et {
                return Hit::Unsure;
            }
            Hit::At { t: lo, n: nn }
        }
    }
}

/// Point containment: Some(true/false) when clear, None near the boundary.
pub fn inside(p: &Prim, q: V) -> Option<bool> {
    let eps = 1e-3;
    match p.pts.len() {
        1 => {
            let d = len(sub(q, p.pts[0])) - p.r;
            if d.abs() < eps {
                None
            } else {
                Some(d < 0.0)
            }
        }
        2 => Some(false),
        _ => {
            let d = core_sep(&p.pts, &[q]);
            if d.abs() < eps {
                None
            } else {
                Some(d < 0.0)
            }
        }
    }
}
