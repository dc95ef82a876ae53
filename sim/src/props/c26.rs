//! Chains and one-sided edges: no catching at interior vertices, solid from one side only.

use super::*;
use crate::rng::Rng;

pub const PROP: Prop = Prop {
    id: "C26",
    gen,
    run,
    quick: 150000,
    thorough: 1_000_000,
    rule: "a run counts when a body slid over at least three interior vertices, or went through a one-sided surface from behind, or was stopped by it in front",
    assumptions: &[
        "runs of segments are straight, bodies stay more than a metre from their ends, and every segment is at least 20 cm long",
        "sliding bodies do not bounce and lie flat on the surface or are round",
        "bodies crossing from behind do not turn",
    ],
    real: REAL,
    stub: STUB,
    known: Some(known),
};

fn dts(r: &mut Rng, slide: bool) -> Vec<f32> {
    match r.below(4) {
        0 => vec![1.0 / 60.0],
        1 => vec![1.0 / 60.0, 1.0 / 30.0, 1.0 / 120.0],
        2 => vec![1.0 / 60.0, 1.0 / 60.0, 0.0, 0.03, if slide { 0.05 } else { 0.2 }],
        _ => vec![1.0 / 20.0, 1.0 / 240.0, 1.0 / 50.0],
    }
}

/// A straight surface along the local x axis, solid towards +y.
fn surface(r: &mut Rng, len: f32) -> Vec<Shape> {
    let mut xs = vec![len];
    let (lo, hi) = *r.pick(&[(0.2f32, 0.5), (0.2, 1.0), (0.5, 3.0), (0.2, 3.0)]);
    while *xs.last().unwrap() > -len {
        let x = xs.last().unwrap() - r.logf(lo, hi).max(0.2);
        xs.push(x);
    }
    let pts: Vec<P> = xs.iter().map(|x| (*x, 0.0)).collect();
    let n = pts.len();
    // The neighbours beyond the ends continue the line or bend away from it.
    let bend = |r: &mut Rng| if r.chance(0.4) { 0.0 } else { r.f(-1.5, 1.5) };
    let (prev, next) = ((pts[0].0 + 1.0, bend(r)), (pts[n - 1].0 - 1.0, bend(r)));
    match r.below(4) {
        0 => {
            // A closed loop whose top is the run; it may start and end anywhere.
            let mut q = pts.clone();
            q.push((pts[n - 1].0, -4.0));
            q.push((pts[0].0, -4.0));
            let k = r.below(q.len());
            q.rotate_left(k);
            vec![Shape::Loop { pts: q }]
        }
        1 => {
            let at = |i: i32| if i < 0 { prev } else if i as usize >= n { next } else { pts[i as usize] };
            (0..n as i32 - 1).map(|i| Shape::Edge1 { v: [at(i - 1), at(i), at(i + 1), at(i + 2)] }).collect()
        }
        2 if n > 6 => {
            // Two chains that continue each other.
            let k = r.int(2, n as i64 - 3) as usize;
            vec![
                Shape::Chain { pts: pts[..=k].to_vec(), prev, next: pts[k + 1] },
                Shape::Chain { pts: pts[k..].to_vec(), prev: pts[k - 1], next },
            ]
        }
        _ => vec![Shape::Chain { pts, prev, next }],
    }
}

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C26", seed);
    for (k, p) in [("no_warm", 0.2), ("no_sleep", 0.3), ("no_toi", 0.25)] {
        if r.chance(p) {
            c.set(k, 1.0);
        }
    }
    let a = if r.chance(0.4) { 0.0 } else { r.f(-3.1, 3.1) };
    let (t, n) = ((a.cos(), a.sin()), (-a.sin(), a.cos()));
    let len = r.f(10.0, 20.0);
    let mut fl = BodySpec { t: if r.chance(0.2) { 1 } else { 0 }, a, ..Default::default() };
    let slick = r.chance(0.6);
    let mu = if slick { 0.0 } else { r.f(0.05, 0.8) };
    for s in surface(&mut r, len) {
        let mut f = Fix::of(s);
        f.mu = mu;
        f.e = 0.0;
        fl.fix.push(f);
    }
    c.ops.push(Op::Body(fl));
    let slide = r.chance(0.6);
    let k = r.below(3);
    let (hx, hy) = (r.f(0.15, 0.8), r.f(0.15, 0.5));
    let sh = match k {
        0 => Shape::Circle { r: hy, x: 0.0, y: 0.0 },
        1 => Shape::Box { hx, hy, x: 0.0, y: 0.0, a: 0.0 },
        _ => Shape::Poly { pts: vec![(-hx, -hy), (hx, -hy), (hx * 1.2, 0.0), (0.5 * hx, hy), (-0.5 * hx, hy), (-1.2 * hx, 0.0)] },
    };
    let mut b = BodySpec { a, ..Default::default() };
    b.bullet = r.chance(0.3);
    b.sleep = r.chance(0.8);
    let mut f = Fix::of(sh);
    f.d = r.logf(0.3, 5.0);
    f.mu = mu;
    f.e = 0.0;
    b.fix.push(f);
    let dts = dts(&mut r, slide);
    let dmax = dts.iter().cloned().fold(0.0, f32::max);
    let (vi, pi) = (r.int(4, 12) as u8, r.int(2, 6) as u8);
    if slide {
        c.set("slide", 1.0);
        let g = r.f(5.0, 15.0);
        c.set("gx", (-g * n.0) as f64);
        c.set("gy", (-g * n.1) as f64);
        let s = if r.chance(0.5) { 1.0 } else { -1.0 };
        let v = s * r.logf(0.5, 60.0f32).min(1.8 / dmax);
        // One body in three starts over the first segments.
        let x = -s * (len - if r.chance(0.33) { r.f(1.3, 2.0) } else { 4.0 });
        let h = hy + 0.01;
        b.x = t.0 * x + n.0 * h;
        b.y = t.1 * x + n.1 * h;
        b.vx = t.0 * v;
        b.vy = t.1 * v;
        b.fixed = k > 0 && r.chance(0.3);
        if k == 0 && !slick && r.chance(0.7) {
            b.w = -v / hy;
        }
        c.ops.push(Op::Body(b));
    } else {
        c.set("cross", 1.0);
        c.set("gy", 0.0);
        let behind = r.chance(0.6);
        let h = r.f(1.0, 2.5) * if behind { -1.0 } else { 1.0 };
        let x = if r.chance(0.4) { (len - r.f(0.5, 3.0)) * if r.chance(0.5) { 1.0 } else { -1.0 } } else { r.f(-0.4, 0.4) * len };
        b.x = t.0 * x + n.0 * h;
        b.y = t.1 * x + n.1 * h;
        if k == 0 || r.chance(0.5) {
            b.a = r.f(-3.0, 3.0);
        }
        let slow = c.on("no_toi") && !behind;
        let v = r.logf(0.3, 60.0f32).min(if slow { 0.1 } else { 1.3 } / dmax) * if behind { 1.0 } else { -1.0 };
        let vt = v * r.f(-1.0, 1.0);
        b.vx = n.0 * v + t.0 * vt;
        b.vy = n.1 * v + t.1 * vt;
        b.fixed = r.chance(0.3);
        c.ops.push(Op::Body(b));
    }
    let steps = if thorough { r.int(30, 300) } else { r.int(30, 120) };
    for _ in 0..steps {
        if r.chance(0.04) {
            c.ops.push(match r.below(4) {
                0 => Op::Bullet { b: 1, on: r.chance(0.5) },
                1 => Op::Flag { w: 1 + r.below(2) as u8, on: r.chance(0.5) },
                2 => Op::Awake { b: 1, on: true },
                _ => Op::Flag { w: 0, on: r.chance(0.5) },
            });
        }
        c.ops.push(Op::Step { dt: *r.pick(&dts), vi, pi });
    }
    c
}

#[derive(Default)]
struct M {
    slide: bool,
    /// The ends of the run.
    ends: (f64, f64),
    left: bool,
    start: Option<S>,
    steps: u32,
    fast: bool,
    prev: Option<S>,
    verts: Vec<f64>,
    over: std::collections::BTreeSet<usize>,
}

#[derive(Clone, Copy, Debug)]
struct S {
    /// Position and velocity in the frame of the surface, angle.
    p: (f64, f64),
    v: (f64, f64),
    a: f64,
    w: f64,
}

fn state(fl: &MB, b: &MB) -> S {
    let xf = xf_of(fl);
    let p = b.ptr.borrow();
    let (c, v) = (p.get_world_center(), p.get_linear_velocity());
    let v = (v.x as f64, v.y as f64);
    S {
        p: xf.inv((c.x as f64, c.y as f64)),
        v: (xf.c * v.0 + xf.s * v.1, -xf.s * v.0 + xf.c * v.1),
        a: p.get_angle() as f64,
        w: p.get_angular_velocity() as f64,
    }
}

impl M {
    /// A round body that touches a chain while rolling its centre past a vertex can be missed by both
    /// neighbouring segments (known finding vertex-gap).
    fn gap(&self, b: &MB, s: S) -> bool {
        let (Some(p), Shape::Circle { r, .. }) = (self.prev, &b.fix[0].f.shape) else { return false };
        let (dx, dy) = (s.p.0 - p.p.0, s.p.1 - p.p.1);
        let at = |h: f64| p.p.0 + dx * ((h - p.p.1) / dy).clamp(0.0, 1.0);
        let (x, y) = (at(*r as f64 + 0.02), at(*r as f64 - 0.02));
        self.verts.iter().any(|v| *v > x.min(y) - 0.005 && *v < x.max(y) + 0.005)
    }
}

impl Monitor for M {
    fn before(&mut self, sim: &mut Sim, _op: &Op, _ctx: &mut Ctx) {
        if sim.bodies.len() == 2 {
            self.prev = Some(state(&sim.bodies[0], &sim.bodies[1]));
        }
    }

    fn after(&mut self, sim: &mut Sim, op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        if sim.bodies.len() != 2 || sim.bodies[1].fix.len() != 1 || sim.flags[3] {
            return Ok(());
        }
        let (fl, b) = (&sim.bodies[0], &sim.bodies[1]);
        let s = state(fl, b);
        let Some(st) = self.start else {
            self.start = Some(s);
            for f in &fl.fix {
                for p in prims(fl, f) {
                    for q in &p.pts {
                        let l = xf_of(fl).inv(*q);
                        if l.1 > -0.5 {
                            self.verts.push(l.0);
                        }
                    }
                }
            }
            self.verts.sort_by(|a, b| a.partial_cmp(b).unwrap());
            self.verts.dedup_by(|a, b| (*a - *b).abs() < 1e-3);
            self.ends = (self.verts.first().copied().unwrap_or(0.0), self.verts.last().copied().unwrap_or(0.0));
            return Ok(());
        };
        let Some(dt) = info.dt else { return Ok(()) };
        let Op::Step { .. } = op else { return Ok(()) };
        // The body reaches at most a metre from its centre.
        if s.p.0 < self.ends.0 + 1.1 || s.p.0 > self.ends.1 - 1.1 {
            self.left = true;
        }
        if self.left || dt <= 0.0 {
            return Ok(());
        }
        let mu = b.fix[0].f.mu;
        let xf = xf_of(fl);
        let g = (sim.gravity.0 as f64, sim.gravity.1 as f64);
        if (xf.c * g.0 + xf.s * g.1).abs() > 1e-4 || self.slide != (-xf.s * g.0 + xf.c * g.1 < -1.0) {
            return Ok(());
        }
        if (self.slide && dt > 0.051) || s.v.0.hypot(s.v.1) * dt as f64 > 1.95 {
            self.left = true;
            return Ok(());
        }
        ctx.st.evals += 1;
        if self.slide {
            self.steps += 1;
            for (i, x) in self.verts.iter().enumerate() {
                if (x - st.p.0) * (x - s.p.0) < 0.0 {
                    self.over.insert(i);
                }
            }
            if self.over.len() > 3 {
                ctx.reached = true;
                ctx.probe("slid_over_vertices");
            }
            let round = matches!(b.fix[0].f.shape, Shape::Circle { .. });
            self.fast |= s.v.0.abs() * dt as f64 > 0.15;
            if round || b.s.fixed || (mu == 0.0 && !self.fast) {
                ctx.max("height change while sliding, m", (s.p.1 - st.p.1).abs());
                ctx.max("normal speed while sliding, m/s", s.v.1.abs());
                if !round {
                    ctx.max("turn while sliding, rad", (s.a - st.a).abs());
                }
                if (s.p.1 - st.p.1).abs() > 0.15 || s.v.1.abs() > 2.0 {
                    return viol("jump", format!("the sliding body is at height {:.4} with normal speed {:.4}, having started at {:.4}", s.p.1, s.v.1, st.p.1));
                }
                if !round && (s.a - st.a).abs() > 0.6 {
                    return viol("tumble", format!("the sliding body turned by {:.4}", s.a - st.a));
                }
            }
            if mu == 0.0 && (s.v.0 - st.v.0).abs() / (1.0 + st.v.0.abs()) > 0.2 {
                return viol("speed", format!("the sliding speed went from {:.5} to {:.5} without friction", st.v.0, s.v.0));
            }
            if mu == 0.0 {
                ctx.max("speed change while sliding without friction, relative", (s.v.0 - st.v.0).abs() / (1.0 + st.v.0.abs()));
            }
        } else {
            if st.p.1 < 0.0 {
                let dv = (s.v.0 - st.v.0).hypot(s.v.1 - st.v.1);
                ctx.max("velocity change when crossing from behind, m/s", dv);
                if dv > 1e-3 * (1.0 + st.v.0.hypot(st.v.1)) {
                    return viol("behind", format!("a body crossing from behind changed its velocity from {:?} to {:?}", st.v, s.v));
                }
                // Until its centre is through, the surface does not touch it at all.
                if let (Some(p), true) = (self.prev, s.p.1 < -1e-3) {
                    let off = (s.p.0 - p.p.0 - p.v.0 * dt as f64).hypot(s.p.1 - p.p.1 - p.v.1 * dt as f64);
                    ctx.max("deviation from a straight path behind the surface, m", off);
                    if off > 1e-3 {
                        return viol("behind", format!("a body whose centre is {:.4} behind the surface left its straight path by {off:.5}", -s.p.1));
                    }
                }
                if s.p.1 > 0.0 {
                    ctx.probe("crossed_from_behind");
                    ctx.reached = true;
                }
            } else {
                if !sim.flags[2] || (s.w * dt as f64).abs() > 0.35 {
                    self.left = true;
                    return Ok(());
                }
                ctx.max("depth behind the surface coming from the front, m", -s.p.1);
                if s.p.1 < -0.01 {
                    if self.gap(b, s) {
                        ctx.probe("vertex_gap");
                        self.left = true;
                        return Ok(());
                    }
                    return viol("front", format!("a body arriving from the solid side is {:.4} behind the surface", -s.p.1));
                }
                if s.v.1 > st.v.1 + 0.01 {
                    ctx.probe("stopped_in_front");
                    ctx.reached = true;
                }
            }
        }
        Ok(())
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = M { slide: case.on("slide"), ..Default::default() };
    if !m.slide && !case.on("cross") {
        return Ok(());
    }
    drive(case, ctx, &mut m)
}

/// A fast round body aimed at the vertex between two segments, at offsets a tenth of a millimetre apart.
fn known() -> Vec<(String, String)> {
    for i in 0..400 {
        let mut c = Case::new("C26", 0);
        c.set("cross", 1.0);
        let mut fl = BodySpec { t: 0, ..Default::default() };
        let mut f = Fix::of(Shape::Chain { pts: vec![(12.0, 0.0), (0.0, 0.0), (-12.0, 0.0)], prev: (13.0, 0.0), next: (-13.0, 0.0) });
        f.e = 0.0;
        fl.fix.push(f);
        c.ops.push(Op::Body(fl));
        let mut b = BodySpec { x: 0.58 + 0.0001 * i as f32, y: 0.79, vx: -24.731, vy: -27.333, bullet: true, ..Default::default() };
        let mut f = Fix::of(Shape::Circle { r: 0.1527134, x: 0.0, y: 0.0 });
        f.e = 0.0;
        b.fix.push(f);
        c.ops.push(Op::Body(b));
        c.ops.push(Op::Step { dt: 1.0 / 30.0, vi: 10, pi: 5 });
        let mut ctx = Ctx::new();
        if run(&c, &mut ctx).is_ok() && ctx.st.probes.contains_key("vertex_gap") {
            return vec![("vertex-gap".into(), "a fast round body whose centre passes the vertex between two chain segments at the moment of touching is missed by both and goes through".into())];
        }
    }
    vec![]
}
