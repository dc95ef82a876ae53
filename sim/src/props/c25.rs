//! Collisions do not create energy, and a bounce returns the restitution's share of the approach speed.

use super::*;
use crate::gen::*;
use crate::rng::Rng;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C25",
    gen,
    run,
    quick: 120000,
    thorough: 1_500_000,
    rule: "a run counts when bodies collided at more than the bounce threshold at least twice (energy) or bounced or were stopped (rebound)",
    assumptions: &[
        "energy is judged without gravity, joints, moving surfaces, applied forces or callbacks that change velocities, and with at least 8 velocity iterations",
        "rebounds are judged for one body against a flat surface, and for two round bodies in free flight",
        "a pair uses the larger of the two restitutions and the smaller of the two thresholds",
        "sub-stepping is used for the energy bound only",
    ],
    real: REAL,
    stub: STUB,
    known: None,
};

fn dts(r: &mut Rng) -> Vec<f32> {
    match r.below(4) {
        0 => vec![1.0 / 60.0],
        1 => vec![1.0 / 60.0, 1.0 / 30.0, 1.0 / 120.0],
        2 => vec![1.0 / 60.0, 1.0 / 60.0, 0.0, 0.1, 0.25],
        _ => vec![1.0 / 20.0, 1.0 / 240.0, 1.0 / 50.0],
    }
}

fn e_of(r: &mut Rng) -> f32 {
    match r.below(4) {
        0 => 0.0,
        1 => 1.0,
        _ => r.f(0.0, 1.0),
    }
}

fn th_of(r: &mut Rng) -> f32 {
    *r.pick(&[1.0, 1.0, 0.0, 0.3, 3.0])
}

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C25", seed);
    for (k, p) in [("no_warm", 0.2), ("no_sleep", 0.3), ("no_toi", 0.2)] {
        if r.chance(p) {
            c.set(k, 1.0);
        }
    }
    match r.below(5) {
        0 | 1 => gas(&mut r, &mut c, thorough),
        2 | 3 => floor(&mut r, &mut c, thorough),
        _ => pair(&mut r, &mut c, thorough),
    }
    c
}

fn lump(r: &mut Rng, k: usize) -> Shape {
    match k {
        0 => Shape::Circle { r: r.logf(0.1, 0.6), x: 0.0, y: 0.0 },
        1 => Shape::Box { hx: r.logf(0.15, 0.6), hy: r.logf(0.15, 0.6), x: 0.0, y: 0.0, a: 0.0 },
        _ => {
            let n = r.int(3, 7) as usize;
            let rad = r.f(0.25, 0.6);
            Shape::Poly { pts: regular(r, n, rad, rad, 0.0, 0.0) }
        }
    }
}

fn gas(r: &mut Rng, c: &mut Case, thorough: bool) {
    c.set("gas", 1.0);
    c.set("gy", 0.0);
    if r.chance(0.15) {
        c.set("substep", 1.0);
    }
    let slick = r.chance(0.4);
    let dead = r.chance(0.4);
    let kinds: Vec<usize> = match r.below(3) {
        _ if !dead && r.chance(0.9) => vec![0],
        0 => vec![0],
        1 => vec![1, 2],
        _ => vec![0, 1, 2],
    };
    let half = r.f(2.0, 5.0);
    if r.chance(0.8) {
        let mut walls = BodySpec { t: 0, a: if r.chance(0.5) { r.f(-3.0, 3.0) } else { 0.0 }, ..Default::default() };
        let k = r.below(2);
        for i in 0..4 {
            let a = i as f32 * std::f32::consts::FRAC_PI_2;
            let (s, co) = a.sin_cos();
            let at = |x: f32, y: f32| (co * x - s * y, s * x + co * y);
            let sh = if k == 0 {
                let p = at(half + 0.5, 0.0);
                Shape::Box { hx: 0.5, hy: half + 1.0, x: p.0, y: p.1, a }
            } else {
                Shape::Edge { a: at(half, -half), b: at(half, half) }
            };
            let mut f = Fix::of(sh);
            f.mu = if slick { 0.0 } else { r.f(0.0, 1.0) };
            f.e = if dead { 0.0 } else { e_of(r) };
            f.th = th_of(r);
            walls.fix.push(f);
        }
        c.ops.push(Op::Body(walls));
    }
    let first = c.ops.len();
    let n = r.int(2, 9) as usize;
    let dts = dts(r);
    let dmax = dts.iter().cloned().fold(0.0, f32::max);
    let side = (n as f32).sqrt().ceil() as usize;
    for i in 0..n {
        let g = 1.6 * half / side as f32;
        let (x, y) = ((i % side) as f32 * g - 0.8 * half + 0.5 * g, (i / side) as f32 * g - 0.8 * half + 0.5 * g);
        let mut b = BodySpec { x, y, a: r.f(-3.0, 3.0), ..Default::default() };
        let v = r.logf(0.5, 1.0 / dmax.min(1.0 / 15.0));
        let a = r.f(0.0, 6.28);
        b.vx = v * a.cos();
        b.vy = v * a.sin();
        if r.chance(0.5) {
            b.w = r.f(-8.0, 8.0);
        }
        b.bullet = r.chance(0.2);
        b.fixed = r.chance(0.15);
        if b.fixed {
            b.w = 0.0;
        }
        b.sleep = r.chance(0.8);
        if r.chance(0.1) {
            b.ld = r.f(0.0, 0.5);
            b.ad = r.f(0.0, 0.5);
        }
        let k = *r.pick(&kinds);
        let mut f = Fix::of(lump(r, k));
        f.d = r.logf(0.2, 5.0);
        f.mu = if slick { 0.0 } else { r.f(0.0, 1.0) };
        f.e = if dead { 0.0 } else { e_of(r) };
        f.th = th_of(r);
        b.fix.push(f);
        c.ops.push(Op::Body(b));
    }
    let (vi, pi) = (if r.chance(0.5) { r.int(2, 14) } else { r.int(120, 250) } as u8, r.int(2, 8) as u8);
    let steps = if thorough { r.int(30, 200) } else { r.int(30, 100) };
    for _ in 0..steps {
        if r.chance(0.08) {
            let b = (first + r.below(n)) as u32;
            c.ops.push(match r.below(8) {
                0 => Op::Bullet { b, on: r.chance(0.5) },
                1 => Op::Awake { b, on: r.chance(0.5) },
                2 => Op::Flag { w: r.below(3) as u8, on: r.chance(0.5) },
                3 => Op::Arm { ev: Ev::Pre, every: *r.pick(&[1, 2, 5]), off: r.u32() % 5, act: Act::Disable },
                4 => Op::Arm { ev: Ev::Pre, every: 1, off: 0, act: Act::Restitution(if dead { 0.0 } else { r.f(0.0, 1.0) }) },
                5 => Op::Disarm,
                6 => Op::DelBody { b },
                _ => {
                    let a = r.f(0.0, 6.28);
                    let v = r.f(0.5, 8.0);
                    Op::Vel { b, x: v * a.cos(), y: v * a.sin(), w: 0.0 }
                }
            });
        }
        c.ops.push(Op::Step { dt: *r.pick(&dts), vi, pi });
    }
}

fn floor(r: &mut Rng, c: &mut Case, thorough: bool) {
    c.set("floor", 1.0);
    let a = if r.chance(0.4) { 0.0 } else { r.f(-3.1, 3.1) };
    let n = (-a.sin(), a.cos());
    let t = (a.cos(), a.sin());
    let g = if r.chance(0.3) { 0.0 } else { r.f(1.0, 20.0) };
    let gt = if r.chance(0.3) { r.f(-5.0, 5.0) } else { 0.0 };
    c.set("gx", (-g * n.0 + gt * t.0) as f64);
    c.set("gy", (-g * n.1 + gt * t.1) as f64);
    let mut fl = BodySpec { t: if r.chance(0.3) { 1 } else { 0 }, a, ..Default::default() };
    if fl.t == 1 && r.chance(0.7) {
        let (vn, vt) = (r.f(-1.5, 1.5), r.f(-2.0, 2.0));
        fl.vx = n.0 * vn + t.0 * vt;
        fl.vy = n.1 * vn + t.1 * vt;
    }
    let mut f = Fix::of(if r.chance(0.5) {
        Shape::Box { hx: 60.0, hy: 2.0, x: 0.0, y: -2.0, a: 0.0 }
    } else {
        Shape::Edge { a: (-60.0, 0.0), b: (60.0, 0.0) }
    });
    let edge = matches!(f.shape, Shape::Edge { .. });
    f.mu = if r.chance(0.3) { 0.0 } else { r.f(0.0, 1.0) };
    f.e = e_of(r);
    f.th = th_of(r);
    fl.fix.push(f);
    c.ops.push(Op::Body(fl));
    let k = r.below(2);
    let mut b = BodySpec { ..Default::default() };
    b.fixed = k > 0 || r.chance(0.3);
    b.a = if k == 0 { r.f(-3.0, 3.0) } else { a + r.int(0, 3) as f32 * std::f32::consts::FRAC_PI_2 };
    if !b.fixed {
        b.w = r.f(-10.0, 10.0);
    }
    let mut f = Fix::of(lump(r, k));
    f.d = r.logf(0.1, 10.0);
    f.mu = if r.chance(0.3) { 0.0 } else { r.f(0.0, 1.0) };
    f.e = e_of(r);
    f.th = th_of(r);
    b.fix.push(f);
    b.bullet = r.chance(0.3);
    b.sleep = r.chance(0.8);
    b.gs = if r.chance(0.2) { r.f(0.0, 2.0) } else { 1.0 };
    let dts = dts(r);
    let dmax = dts.iter().cloned().fold(0.0, f32::max);
    let over = c.on("no_toi");
    // Without continuous collision a fast body would pass through.
    let cap = if over { if edge { 0.08 } else { 0.2 } } else { 1.5 } / dmax;
    let vn = r.logf(0.05, 30.0f32).min(cap);
    let vt = if r.chance(0.3) { 0.0 } else { r.f(-3.0, 3.0) };
    let h = r.f(0.7, 3.0);
    b.x = n.0 * h;
    b.y = n.1 * h;
    b.vx = -n.0 * vn + t.0 * vt;
    b.vy = -n.1 * vn + t.1 * vt;
    c.ops.push(Op::Body(b));
    let (vi, pi) = (r.int(2, 10) as u8, r.int(1, 6) as u8);
    let steps = if thorough { r.int(40, 300) } else { r.int(40, 150) };
    for _ in 0..steps {
        if r.chance(0.03) {
            let v = r.logf(0.05, 30.0f32).min(cap);
            c.ops.push(match r.below(4) {
                0 => Op::Bullet { b: 1, on: r.chance(0.5) },
                1 => Op::Awake { b: 1, on: r.chance(0.5) },
                2 => Op::Flag { w: 1, on: r.chance(0.5) },
                _ => Op::Vel { b: 1, x: -n.0 * v, y: -n.1 * v, w: 0.0 },
            });
        }
        c.ops.push(Op::Step { dt: *r.pick(&dts), vi, pi });
    }
}

fn pair(r: &mut Rng, c: &mut Case, thorough: bool) {
    c.set("pair", 1.0);
    c.set("gy", 0.0);
    let dts = dts(r);
    let dmax = dts.iter().cloned().fold(0.0, f32::max);
    let dir = r.f(-3.1, 3.1);
    let (u, t) = ((dir.cos(), dir.sin()), (-dir.sin(), dir.cos()));
    let common = (r.f(-1.0, 1.0), r.f(-1.0, 1.0));
    let sp = r.logf(0.05, 20.0f32);
    for s in [-1.0f32, 1.0] {
        let mut b = BodySpec { ..Default::default() };
        let rad = r.logf(0.15, 0.8);
        let off = r.f(-0.1, 0.1);
        b.x = u.0 * s * 1.5 + t.0 * off;
        b.y = u.1 * s * 1.5 + t.1 * off;
        b.bullet = r.chance(0.6);
        let v = sp.min(if b.bullet && !c.on("no_toi") { 0.9 } else { 0.1 } / dmax) * r.f(0.1, 1.0);
        b.vx = -u.0 * s * v + common.0;
        b.vy = -u.1 * s * v + common.1;
        b.fixed = r.chance(0.2);
        if !b.fixed {
            b.w = r.f(-10.0, 10.0);
        }
        let mut f = Fix::of(Shape::Circle { r: rad, x: 0.0, y: 0.0 });
        f.d = r.logf(0.1, 10.0);
        f.mu = if r.chance(0.3) { 0.0 } else { r.f(0.0, 1.0) };
        f.e = e_of(r);
        f.th = th_of(r);
        b.fix.push(f);
        c.ops.push(Op::Body(b));
    }
    let (vi, pi) = (r.int(2, 10) as u8, r.int(1, 6) as u8);
    for _ in 0..if thorough { r.int(40, 200) } else { r.int(40, 100) } {
        if r.chance(0.05) {
            let b = r.below(2) as u32;
            c.ops.push(match r.below(3) {
                0 => Op::Bullet { b, on: r.chance(0.5) },
                1 => Op::Awake { b, on: true },
                _ => Op::Flag { w: 1, on: r.chance(0.5) },
            });
        }
        c.ops.push(Op::Step { dt: *r.pick(&dts), vi, pi });
    }
}

#[derive(Clone, Copy)]
struct Was {
    v: (f64, f64),
    c: (f64, f64),
    awake: bool,
}

#[derive(Default)]
struct M {
    gas: bool,
    was: BTreeMap<u32, Was>,
    e0: f64,
    hits: u32,
}

/// Kinetic energy of the moving bodies.
fn energy(sim: &Sim) -> f64 {
    sim.bodies
        .iter()
        .filter(|b| b.s.t == 2 && b.s.enabled)
        .map(|b| {
            let p = b.ptr.borrow();
            let (m, lc, v, w) = (p.get_mass() as f64, p.get_local_center(), p.get_linear_velocity(), p.get_angular_velocity() as f64);
            let i = if b.s.fixed { 0.0 } else { p.get_inertia() as f64 - m * ((lc.x as f64).powi(2) + (lc.y as f64).powi(2)) };
            0.5 * m * ((v.x as f64).powi(2) + (v.y as f64).powi(2)) + 0.5 * i.max(0.0) * w * w
        })
        .sum()
}

fn round(b: &MB) -> bool {
    b.fix.iter().all(|f| matches!(f.f.shape, Shape::Circle { x, y, .. } if x == 0.0 && y == 0.0))
}

/// Smallest half width.
fn half(b: &MB) -> f64 {
    match b.fix[0].f.shape {
        Shape::Circle { r, .. } => r as f64,
        Shape::Box { hx, hy, .. } => hx.min(hy) as f64,
        _ => 0.0,
    }
}

/// A box standing on one of its sides.
fn flat(a: &MB, b: &MB) -> bool {
    let q = (b.ptr.borrow().get_angle() - a.ptr.borrow().get_angle()) / std::f32::consts::FRAC_PI_2;
    matches!(b.fix[0].f.shape, Shape::Box { x, y, a, .. } if x == 0.0 && y == 0.0 && a == 0.0) && (q - q.round()).abs() < 1e-4
}

impl Monitor for M {
    fn before(&mut self, sim: &mut Sim, op: &Op, _ctx: &mut Ctx) {
        if !matches!(op, Op::Step { .. }) {
            return;
        }
        self.e0 = energy(sim);
        self.was = sim
            .bodies
            .iter()
            .map(|b| {
                let p = b.ptr.borrow();
                let (v, c) = (p.get_linear_velocity(), p.get_world_center());
                (b.id, Was { v: (v.x as f64, v.y as f64), c: (c.x as f64, c.y as f64), awake: p.is_awake() })
            })
            .collect();
    }

    fn after(&mut self, sim: &mut Sim, op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        let (Some(dt), Op::Step { vi, .. }) = (info.dt, op) else { return Ok(()) };
        if self.gas {
            return self.bound(sim, info, *vi, ctx);
        }
        if sim.bodies.len() != 2 || sim.flags[3] {
            return Ok(());
        }
        if sim.bodies.iter().any(|b| b.fix.len() != 1 || b.s.ld != 0.0 || !self.was.contains_key(&b.id)) {
            return Ok(());
        }
        let h = dt as f64;
        let (a, b) = (&sim.bodies[0], &sim.bodies[1]);
        if b.s.t != 2 || b.force != (0.0, 0.0) || a.force != (0.0, 0.0) {
            return Ok(());
        }
        let free = a.s.t == 2;
        // The direction that counts: the floor's normal, or the one reported for the two bodies.
        let n = if free {
            if !round(a) || !round(b) {
                return Ok(());
            }
            let rec = sim.rec.borrow();
            let Some(n) = rec.ev[info.ev0..].iter().rev().find_map(|e| match e {
                E::Pre { ba, d, .. } if d.count > 0 => Some((d.normal, *ba)),
                _ => None,
            }) else {
                return Ok(());
            };
            let s = if n.1 == a.id { 1.0 } else { -1.0 };
            ((n.0).0 as f64 * s, (n.0).1 as f64 * s)
        } else {
            let ok = match &a.fix[0].f.shape {
                Shape::Box { hx, hy, x, y, a } => *hx == 60.0 && *x == 0.0 && *a == 0.0 && *y == -*hy,
                Shape::Edge { a, b } => a.1 == 0.0 && b.1 == 0.0,
                _ => false,
            };
            if !ok || a.s.w != 0.0 || !(round(b) || b.s.fixed && flat(a, b)) {
                return Ok(());
            }
            let c = b.ptr.borrow().get_world_center();
            if xf_of(a).inv((c.x as f64, c.y as f64)).0.abs() > 58.0 {
                return Ok(());
            }
            let an = a.ptr.borrow().get_angle() as f64;
            let n = (-an.sin(), an.cos());
            // Deep inside, the way out may be another one.
            let (ca, cb) = (self.was[&a.id].c, self.was[&b.id].c);
            if geom::dot(geom::sub(cb, ca), n) < 0.7 * half(b) {
                ctx.probe("not_judged_deep_inside");
                return Ok(());
            }
            n
        };
        let g = (sim.gravity.0 as f64, sim.gravity.1 as f64);
        let vel = |x: &MB, ctx: &mut Ctx| {
            let w = self.was[&x.id];
            let p = x.ptr.borrow();
            let v = p.get_linear_velocity();
            let mut e = w.v;
            // A body that slept may be woken inside the step; it then has its old velocity, zero.
            if x.s.t == 2 && w.awake {
                e = (e.0 + h * x.s.gs as f64 * g.0, e.1 + h * x.s.gs as f64 * g.1);
            }
            if e.0.hypot(e.1) * h > 1.98 {
                ctx.probe("not_judged_too_fast");
                return None;
            }
            Some((e, (v.x as f64, v.y as f64)))
        };
        let (Some((ea, va)), Some((eb, vb))) = (vel(a, ctx), vel(b, ctx)) else { return Ok(()) };
        if a.ptr.borrow().is_awake() != self.was[&a.id].awake || b.ptr.borrow().is_awake() != self.was[&b.id].awake {
            return Ok(());
        }
        if dt <= 0.0 || (!self.was[&a.id].awake && !self.was[&b.id].awake) {
            return Ok(());
        }
        let approach = -((eb.0 - ea.0) * n.0 + (eb.1 - ea.1) * n.1);
        let leave = (vb.0 - va.0) * n.0 + (vb.1 - va.1) * n.1;
        let size = 1.0 + [ea.0, ea.1, eb.0, eb.1].iter().fold(0.0f64, |m, x| m.max(x.abs()));
        let tol = 3e-4 * size;
        ctx.st.evals += 1;
        if (leave + approach).abs() <= tol {
            return Ok(());
        }
        let (fa, fb) = (&a.fix[0].f, &b.fix[0].f);
        let e = fa.e.max(fb.e) as f64;
        let th = fa.th.min(fb.th) as f64;
        if approach < -tol {
            return viol("changed-while-leaving", format!("the bodies were parting at {:.5} and after the step part at {leave:.5}", -approach));
        }
        if (approach - th).abs() < tol {
            return Ok(());
        }
        let want = if approach > th { e * approach } else { 0.0 };
        if (want + ea.0.hypot(ea.1) + eb.0.hypot(eb.1)) * h > 1.98 {
            ctx.probe("not_judged_too_fast");
            return Ok(());
        }
        if approach > th {
            ctx.probe(if free { "pair_bounced" } else { "floor_bounced" });
        } else {
            ctx.probe("stopped");
        }
        ctx.reached = true;
        ctx.max("difference of rebound and scaled approach speed, relative", (leave - want).abs() / size);
        if (leave - want).abs() > tol {
            return viol(
                "rebound",
                format!("approach at {approach:.6}, restitution {e}, threshold {th}: leaves at {leave:.6} instead of {want:.6} (step {dt})"),
            );
        }
        Ok(())
    }
}

impl M {
    fn bound(&mut self, sim: &Sim, info: &Info, vi: u8, ctx: &mut Ctx) -> Res {
        if sim.gravity != (0.0, 0.0) || !sim.joints.is_empty() {
            return Ok(());
        }
        if sim.bodies.iter().any(|b| b.s.t == 1 || b.fix.iter().any(|f| f.f.e > 1.0) || b.s.fixed && b.ptr.borrow().get_angular_velocity() != 0.0 || b.force != (0.0, 0.0) || b.torque != 0.0) {
            return Ok(());
        }
        for e in &sim.rec.borrow().ev[info.ev0..] {
            if let E::Begin { .. } = e {
                self.hits += 1;
            }
        }
        if self.hits >= 2 {
            ctx.reached = true;
        }
        let e1 = energy(sim);
        ctx.st.evals += 1;
        let rel = (e1 - self.e0) / (self.e0 + 1e-3);
        let slick = sim.bodies.iter().all(|b| b.fix.iter().all(|f| f.f.mu == 0.0));
        let rnd = sim.bodies.iter().all(|b| b.s.t != 2 || round(b));
        let mut deg: BTreeMap<u32, std::collections::BTreeSet<Key>> = Default::default();
        for e in &sim.rec.borrow().ev[info.ev0..] {
            if let E::Pre { ba, bb, k, .. } | E::Post { ba, bb, k, .. } = e {
                for b in [ba, bb] {
                    if sim.body(*b).map_or(false, |b| b.s.t == 2) {
                        deg.entry(*b).or_default().insert(*k);
                    }
                }
            }
        }
        let alone = deg.values().all(|s| s.len() < 2);
        let dead = sim.bodies.iter().all(|b| b.fix.iter().all(|f| f.f.e == 0.0));
        if !alone {
            ctx.probe("not_judged_several_contacts_at_once");
            return Ok(());
        }
        let k = match (rnd, dead) {
            (true, _) => "growth of energy in a step, round bodies, relative",
            (_, true) => "growth of energy in a step, inelastic bodies, relative",
            _ => {
                ctx.probe("not_judged_bouncing_polygons");
                return Ok(());
            }
        };
        if !rnd && !slick && vi < 100 {
            return Ok(());
        }
        ctx.max(k, rel);
        let lim = 1e-4;
        if !(rel <= lim) {
            return viol("energy", format!("kinetic energy went from {:.6} to {e1:.6} in one step", self.e0));
        }
        Ok(())
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = M { gas: case.on("gas"), ..Default::default() };
    if !m.gas && !case.on("floor") && !case.on("pair") {
        return Ok(());
    }
    drive(case, ctx, &mut m)
}
