//! Fast bodies do not tunnel through walls.

use super::*;
use crate::gen::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C07",
    gen,
    run,
    quick: 200000,
    thorough: 1_500_000,
    rule: "a run counts when a body that would have covered more than its own width plus the wall in one step met a wall",
    assumptions: &[
        "walls are static (or, for bullets, a moving plate) and meet at angles of at least ninety degrees",
        "the bodies in a container do not collide with each other",
        "continuous collision is on during the whole run",
        "bodies that are not round are judged while they turn less than 0.35 rad per step; faster spin can defeat the impact search by design",
        "single calls that finish only part of a step (sub-stepping) are not judged",
    ],
    real: REAL,
    stub: STUB,
    known: None,
};

/// Bodies that are not round are judged while they turn less than this per step.
const TURN: f32 = 0.35;

fn dts(r: &mut Rng, c: &Case) -> Vec<f32> {
    // Under gravity a stall presses a resting body into the wall; stalls go with free flight.
    let falls = c.get("gx") != 0.0 || c.get("gy") != 0.0;
    match r.below(4) {
        2 if falls => vec![1.0 / 60.0, 0.0, 1.0 / 15.0],
        0 => vec![1.0 / 60.0],
        1 => vec![1.0 / 60.0, 1.0 / 30.0, 1.0 / 120.0],
        2 => vec![1.0 / 60.0, 0.0, 0.1, 0.25, 0.5],
        _ => vec![1.0 / 20.0, 1.0 / 240.0, 1.0 / 50.0],
    }
}

fn mover(r: &mut Rng) -> Shape {
    match r.below(4) {
        0 => Shape::Circle { r: r.logf(0.05, 0.5), x: 0.0, y: 0.0 },
        1 => Shape::Box { hx: r.logf(0.08, 0.5), hy: r.logf(0.08, 0.5), x: 0.0, y: 0.0, a: 0.0 },
        2 => {
            let n = r.int(3, 7) as usize;
            let rad = r.f(0.25, 0.5);
            Shape::Poly { pts: regular(r, n, rad, rad, 0.0, 0.0) }
        }
        _ => Shape::Circle { r: r.logf(0.1, 0.3), x: r.f(-0.2, 0.2), y: r.f(-0.2, 0.2) },
    }
}

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C07", seed);
    for (k, p) in [("no_warm", 0.2), ("no_sleep", 0.3)] {
        if r.chance(p) {
            c.set(k, 1.0);
        }
    }
    if r.chance(0.4) {
        c.set("gx", r.f(-10.0, 10.0) as f64);
        c.set("gy", r.f(-10.0, 10.0) as f64);
    }
    if r.chance(0.25) {
        plate(&mut r, &mut c, thorough);
    } else {
        container(&mut r, &mut c, thorough);
    }
    c
}

/// Corners of the container, counter-clockwise.
fn corners(case: &Case) -> Vec<geom::V> {
    let n = case.u("n").max(4);
    let (rad, ph) = (case.get("rad"), case.get("ph"));
    (0..n)
        .map(|i| {
            let a = ph + i as f64 * std::f64::consts::TAU / n as f64;
            (rad * a.cos(), rad * a.sin())
        })
        .collect()
}

fn container(r: &mut Rng, c: &mut Case, thorough: bool) {
    c.set("n", r.int(4, 7) as f64);
    c.set("rad", r.f(2.5, 7.0) as f64);
    c.set("ph", r.f(0.0, 6.28) as f64);
    let p: Vec<P> = corners(c).iter().map(|v| (v.0 as f32, v.1 as f32)).collect();
    let n = p.len();
    let (mu, e) = (if r.chance(0.3) { 0.0 } else { r.f(0.0, 1.0) }, if r.chance(0.3) { 0.0 } else { r.f(0.0, 1.0) });
    let kind = r.below(4);
    let split = r.chance(0.4);
    let mut walls = BodySpec { t: 0, ..Default::default() };
    if kind == 3 {
        // Solid towards the inside.
        let mut q = p.clone();
        q.reverse();
        let mut f = Fix::of(Shape::Loop { pts: q });
        f.mu = mu;
        f.e = e;
        walls.fix.push(f);
        c.ops.push(Op::Body(walls));
    } else {
        let h = if kind == 0 { r.f(0.3, 0.8) } else { r.f(0.01, 0.05) };
        for i in 0..n {
            let (a, b) = (p[i], p[(i + 1) % n]);
            let d = (b.0 - a.0, b.1 - a.1);
            let l = d.0.hypot(d.1);
            let sh = if kind < 2 {
                let out = (d.1 / l, -d.0 / l);
                Shape::Box { hx: l * 0.5 + 2.0 * h, hy: h, x: 0.5 * (a.0 + b.0) + h * out.0, y: 0.5 * (a.1 + b.1) + h * out.1, a: d.1.atan2(d.0) }
            } else {
                Shape::Edge { a, b }
            };
            let mut f = Fix::of(sh);
            f.mu = mu;
            f.e = e;
            walls.fix.push(f);
            if split {
                c.ops.push(Op::Body(std::mem::replace(&mut walls, BodySpec { t: 0, ..Default::default() })));
            }
        }
        if !split {
            c.ops.push(Op::Body(walls));
        }
    }
    c.set("walls", c.ops.len() as f64);
    c.set("sides", if kind == 3 { 1.0 } else { n as f64 });
    let dts = dts(r, c);
    let dmax = dts.iter().cloned().fold(0.0, f32::max);
    let m = r.int(1, 5);
    let sp = |r: &mut Rng| {
        let v = r.logf(1.0, 1.9 / dmax.min(1.0 / 30.0));
        let a = r.f(0.0, 6.28);
        (v * a.cos(), v * a.sin())
    };
    for _ in 0..m {
        let mut b = BodySpec { x: r.f(-0.5, 0.5), y: r.f(-0.5, 0.5), a: r.f(-3.0, 3.0), ..Default::default() };
        let v = sp(r);
        b.vx = v.0;
        b.vy = v.1;
        b.w = r.f(-10.0, 10.0);
        b.bullet = r.chance(0.3);
        b.fixed = r.chance(0.35);
        if b.fixed || r.chance(0.4) {
            b.w = 0.0;
        }
        b.gs = if r.chance(0.2) { 0.0 } else { 1.0 };
        let mut f = Fix::of(mover(r));
        f.d = r.logf(0.1, 10.0);
        f.mu = r.f(0.0, 1.0);
        f.e = if r.chance(0.4) { 0.0 } else { r.f(0.0, 1.0) };
        f.th = if r.chance(0.7) { 1.0 } else { 0.0 };
        f.group = -1;
        b.fix.push(f);
        c.ops.push(Op::Body(b));
    }
    let (vi, pi) = (r.int(1, 10) as u8, r.int(1, 6) as u8);
    if r.chance(0.2) {
        // One body is thrown at the same wall again and again and hardly leaves it in between.
        let b = c.u("walls") as u32 + r.below(m as usize) as u32;
        let a = r.f(0.0, 6.28);
        let dt = *r.pick(&[1.0f32 / 60.0, 1.0 / 30.0, 1.0 / 20.0]);
        for _ in 0..r.int(9, 20) {
            let v = r.f(0.5, 1.9) / dt.max(1.0 / 30.0);
            c.ops.push(Op::Vel { b, x: v * a.cos(), y: v * a.sin(), w: 0.0 });
            c.ops.push(Op::Step { dt, vi, pi });
            if r.chance(0.3) {
                c.ops.push(Op::Step { dt, vi, pi });
            }
            let v = -r.logf(0.01, 0.4) / dt;
            c.ops.push(Op::Vel { b, x: v * a.cos(), y: v * a.sin(), w: 0.0 });
            c.ops.push(Op::Step { dt, vi, pi });
        }
    }
    let steps = if thorough { r.int(30, 250) } else { r.int(30, 120) };
    for _ in 0..steps {
        if r.chance(0.15) {
            let b = c.u("walls") as u32 + r.below(m as usize) as u32;
            let v = sp(r);
            c.ops.push(match r.below(7) {
                0 => Op::Impulse { b, k: 1, x: v.0 * 0.2, y: v.1 * 0.2, ox: 0.0, oy: 0.0, wake: true },
                1 => Op::Transform { b, x: r.f(-0.5, 0.5), y: r.f(-0.5, 0.5), a: r.f(-3.0, 3.0) },
                2 => Op::Bullet { b, on: r.chance(0.5) },
                3 => Op::Awake { b, on: r.chance(0.5) },
                4 => Op::FixedRot { b, on: r.chance(0.5) },
                _ => Op::Vel { b, x: v.0, y: v.1, w: if r.chance(0.5) { 0.0 } else { r.f(-10.0, 10.0) } },
            });
        }
        let dt = *r.pick(&dts);
        c.ops.push(Op::Step { dt, vi, pi });
    }
}

/// A bullet and a thin moving plate.
fn plate(r: &mut Rng, c: &mut Case, thorough: bool) {
    c.set("plate", 1.0);
    c.set("gx", 0.0);
    c.set("gy", 0.0);
    let mut b = BodySpec { t: if r.chance(0.3) { 1 } else { 2 }, ..Default::default() };
    b.fixed = true;
    b.a = r.f(-3.0, 3.0);
    let hy = r.f(2.0, 4.0);
    c.set("hy", hy as f64);
    let dir = (b.a.cos(), b.a.sin());
    let v = r.f(-4.0, 4.0);
    if r.chance(0.6) {
        b.vx = dir.0 * v;
        b.vy = dir.1 * v;
    }
    let mut f = Fix::of(Shape::Box { hx: r.logf(0.02, 0.1), hy, x: 0.0, y: 0.0, a: 0.0 });
    f.d = r.logf(1.0, 20.0);
    f.e = if r.chance(0.4) { 0.0 } else { r.f(0.0, 1.0) };
    f.mu = r.f(0.0, 1.0);
    b.fix.push(f);
    let a = b.a;
    let dts = dts(r, c);
    let dmax = dts.iter().cloned().fold(0.0, f32::max);
    let awake = r.chance(0.7);
    if !awake && b.vx == 0.0 && b.vy == 0.0 {
        b.awake = false;
    }
    let side = if r.chance(0.5) { 1.0f32 } else { -1.0 };
    let d = side * r.f(0.8, 4.0);
    let off = r.f(-0.5, 0.5);
    let rot = |x: f32, y: f32| (a.cos() * x - a.sin() * y, a.sin() * x + a.cos() * y);
    let pos = rot(d, off);
    let sp = r.logf(1.0, 1.9 / dmax.min(1.0 / 30.0));
    let vel = rot(-side * sp, r.f(-0.1, 0.1) * sp);
    let mut m = BodySpec { x: pos.0, y: pos.1, a: r.f(-3.0, 3.0), vx: vel.0, vy: vel.1, w: r.f(-10.0, 10.0), bullet: true, ..Default::default() };
    m.fixed = r.chance(0.4);
    if m.fixed {
        m.w = 0.0;
    }
    let mut f = Fix::of(mover(r));
    f.d = r.logf(0.1, 5.0);
    f.mu = r.f(0.0, 1.0);
    f.e = if r.chance(0.4) { 0.0 } else { r.f(0.0, 1.0) };
    m.fix.push(f);
    let mut two = vec![b, m];
    if r.chance(0.5) {
        two.reverse();
    }
    c.ops.extend(two.into_iter().map(Op::Body));
    let (vi, pi) = (r.int(1, 10) as u8, r.int(1, 6) as u8);
    for _ in 0..if thorough { r.int(10, 100) } else { r.int(10, 40) } {
        c.ops.push(Op::Step { dt: *r.pick(&dts), vi, pi });
    }
}

struct M {
    walls: Vec<geom::V>,
    sides: usize,
    plate: bool,
    hy: f64,
    side: f64,
    before: Vec<(geom::V, bool)>,
    turn: BTreeMap<u32, f32>,
    spun: BTreeSet<u32>,
}

impl Monitor for M {
    fn before(&mut self, sim: &mut Sim, op: &Op, _ctx: &mut Ctx) {
        if let Op::Step { dt, .. } = op {
            self.before = sim
                .bodies
                .iter()
                .map(|b| {
                    let p = b.ptr.borrow();
                    let (c, v) = (p.get_world_center(), p.get_linear_velocity());
                    let w = extent(b);
                    ((c.x as f64, c.y as f64), (v.x as f64).hypot(v.y as f64) * *dt as f64 > 2.0 * w + 0.1)
                })
                .collect();
        }
    }

    fn after(&mut self, sim: &mut Sim, _op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        if info.dt.is_none() || !sim.flags[2] || sim.flags[3] {
            return Ok(());
        }
        let dt = info.dt.unwrap();
        for b in &sim.bodies {
            let round = b.fix.iter().all(|f| matches!(f.f.shape, Shape::Circle { x, y, .. } if x == 0.0 && y == 0.0));
            let p = b.ptr.borrow();
            let turn = self.turn.insert(b.id, p.get_angle()).map_or(0.0, |a| (p.get_angle() - a).abs());
            if !round && turn.max(p.get_angular_velocity().abs() * dt) > TURN && self.spun.insert(b.id) {
                ctx.probe("body_no_longer_judged_spins_fast");
            }
        }
        let fast: Vec<u32> = sim.bodies.iter().zip(&self.before).filter(|(_, f)| f.1).map(|(b, _)| b.id).collect();
        for e in &sim.rec.borrow().ev[info.ev0..] {
            if let E::Begin { ba, bb, .. } = e {
                if fast.contains(ba) || fast.contains(bb) {
                    ctx.probe("fast_body_met_wall");
                    ctx.reached = true;
                }
            }
        }
        if self.plate {
            if sim.bodies.len() < 2 {
                return Ok(());
            }
            let k = sim.bodies[0].s.bullet as usize;
            let (p, m) = (&sim.bodies[k], &sim.bodies[1 - k]);
            if p.s.bullet || !m.s.bullet {
                return Ok(());
            }
            let xf = xf_of(p);
            let c = m.ptr.borrow().get_world_center();
            let l = xf.inv((c.x as f64, c.y as f64));
            if self.spun.contains(&m.id) {
                return Ok(());
            }
            ctx.st.evals += 1;
            if l.1.abs() > self.hy - 1.0 || self.side == 0.0 {
                // Beside the plate the body may change sides.
                self.side = if self.side == 0.0 && l.1.abs() < self.hy - 1.0 { l.0.signum() } else { 0.0 };
            } else if l.0 * self.side < 0.0 {
                return viol("passed-through", format!("the bullet {} went through the plate: its centre is at {:.4}, {:.4} in the plate's frame", m.id, l.0, l.1));
            } else {
                ctx.max("least distance of a bullet's centre from the plate, negated, m", -l.0 * self.side);
            }
            return Ok(());
        }
        let n = self.walls.len();
        if sim.bodies.iter().filter(|b| b.s.t == 0).map(|b| b.fix.len()).sum::<usize>() != self.sides {
            return Ok(());
        }
        for b in &sim.bodies {
            if b.s.t != 2 || b.fix.is_empty() || self.spun.contains(&b.id) {
                continue;
            }
            let c = b.ptr.borrow().get_world_center();
            let c = (c.x as f64, c.y as f64);
            let mut out = f64::MIN;
            for i in 0..n {
                let (p, q) = (self.walls[i], self.walls[(i + 1) % n]);
                let d = geom::norm(geom::sub(q, p));
                let o = geom::dot(geom::sub(c, p), (d.1, -d.0));
                out = out.max(o);
            }
            ctx.st.evals += 1;
            ctx.max("centre outside the container by, m", out);
            if out > 0.0 || out.is_nan() {
                return viol("escaped", format!("the centre of body {} is {out:.4} m outside the container, at {c:?}", b.id));
            }
        }
        Ok(())
    }
}

/// Smallest half width of a body's shape.
fn extent(b: &MB) -> f64 {
    b.fix.iter().map(|f| match &f.f.shape {
        Shape::Circle { r, .. } => *r as f64,
        Shape::Box { hx, hy, .. } => hx.min(*hy) as f64,
        Shape::Poly { pts } => pts.iter().map(|p| p.0.hypot(p.1)).fold(0.0, f32::max) as f64,
        _ => 1e9,
    }).fold(0.0, f64::max)
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    let whole = ["n", "rad", "ph", "sides"].iter().all(|k| case.cfg.contains_key(*k));
    if !whole && !case.on("plate") {
        return Ok(());
    }
    let mut m = M { walls: corners(case), sides: case.u("sides"), plate: case.on("plate"), hy: case.get("hy"), side: 0.0, before: vec![], turn: Default::default(), spun: Default::default() };
    drive(case, ctx, &mut m)
}
