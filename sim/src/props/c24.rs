//! Motion stays finite and bounded.

use super::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::user::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_fixture::*;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C24",
    gen,
    run,
    quick: 150000,
    thorough: 2_000_000,
    rule: "a run counts when a body reached the largest movement of a step, and extreme steps, speeds, forces or masses were injected",
    assumptions: &[
        "speeds, forces and impulses up to a million, steps from a microsecond to a hundred seconds, densities over six decades",
        "joints are judged while none shares a moving body with another one",
        "the largest movement is judged with continuous collision off; contacts may add their documented largest correction",
        "the boxes are judged without sub-stepping and without velocities set inside callbacks",
    ],
    real: REAL,
    stub: STUB,
    known: None,
};

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C24", seed);
    swarm_flags(&mut r, &mut c);
    if r.chance(0.1) {
        c.set("no_block", 1.0);
    }
    c.set("no_toi", r.chance(0.6) as u8 as f64);
    let mut p = Profile::default();
    p.arena = *r.pick(&[2.5, 5.0]);
    p.bodies = (2, 8);
    p.joints = *r.pick(&[(0, 0), (0, 1)]);
    p.speed = r.logf(5.0, 1e6);
    p.density = if r.chance(0.3) { (1e-3, 1e3) } else { (0.2, 3.0) };
    p.arms = vec!["disable", "friction", "restitution", "tangent", "reset", "read", "clock"];
    p.w.push(("odd_step", 4.0));
    p.w.push(("shift", 0.3));
    p.ops = if thorough { (30, 140) } else { (15, 60) };
    let wild = r.fork();
    let mut g = Gen::new(r, p);
    g.schedule(&mut c);
    extremes(wild, &mut c);
    c
}

fn extremes(mut r: Rng, c: &mut Case) {
    let (spin, push, far, step) = (r.chance(0.4), r.chance(0.4), r.chance(0.3), r.chance(0.5));
    let fixed = if r.chance(0.3) { Some(*r.pick(&[1e-5f32, 1e-3, 0.3, 1.0, 20.0])) } else { None };
    for op in c.ops.iter_mut() {
        match op {
            Op::Vel { w, .. } if spin => *w *= r.logf(1.0, 1e5),
            Op::Body(b) if spin => b.w *= r.logf(1.0, 1e5),
            Op::Force { x, y, .. } | Op::Impulse { x, y, .. } if push => {
                let k = r.logf(1.0, 3e4);
                *x *= k;
                *y *= k;
            }
            Op::Transform { x, y, a, .. } if far && r.chance(0.3) => {
                let k = r.logf(1.0, 1e3);
                *x *= k;
                *y *= k;
                *a *= r.logf(1.0, 30.0);
            }
            Op::Gravity { x, y } if push => {
                let k = r.logf(1.0, 1e3);
                *x *= k;
                *y *= k;
            }
            Op::Step { dt, .. } if *dt > 0.0 => {
                if let Some(f) = fixed {
                    *dt = f;
                } else if step && r.chance(0.3) {
                    *dt = r.logf(1e-6, 100.0);
                }
            }
            _ => {}
        }
    }
}

const MOVE: f64 = 2.0;
const TURN: f64 = std::f64::consts::FRAC_PI_2;
const PUSH: f64 = 0.2;

#[derive(Default)]
struct M {
    was: BTreeMap<u32, ((f64, f64), f64)>,
    sub: bool,
    mixed: bool,
    most: bool,
    odd: bool,
}

impl Monitor for M {
    fn before(&mut self, sim: &mut Sim, op: &Op, _ctx: &mut Ctx) {
        self.was.clear();
        if let Op::Step { .. } = op {
            for b in &sim.bodies {
                let p = b.ptr.borrow();
                let c = p.get_world_center();
                self.was.insert(b.id, ((c.x as f64, c.y as f64), p.get_angle() as f64));
            }
        }
    }

    fn after(&mut self, sim: &mut Sim, op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        self.sub |= sim.flags[3];
        self.mixed |= (0..sim.joints.len()).any(|i| !super::c13::alone(sim, i));
        match op {
            Op::Vel { x, y, .. } if x.hypot(*y) > 500.0 => {
                self.odd = true;
                ctx.fault("extreme_speed");
            }
            Op::Force { x, y, .. } | Op::Impulse { x, y, .. } if x.hypot(*y) > 1000.0 => {
                self.odd = true;
                ctx.fault("extreme_push");
            }
            Op::Transform { x, y, .. } if x.hypot(*y) > 50.0 => ctx.fault("far_teleport"),
            Op::Step { dt, .. } if *dt > 1.0 || *dt > 0.0 && *dt < 1e-4 => {
                self.odd = true;
                ctx.fault("extreme_step");
            }
            _ => {}
        }
        if self.mixed {
            return Ok(());
        }
        ctx.st.evals += 1;
        for b in &sim.bodies {
            let p = b.ptr.borrow();
            let (x, c, v, a, w) = (p.get_position(), p.get_world_center(), p.get_linear_velocity(), p.get_angle(), p.get_angular_velocity());
            if ![x.x, x.y, c.x, c.y, v.x, v.y, a, w].iter().all(|f| f.is_finite()) {
                return viol("not-finite", format!("body {}: position {x:?} centre {c:?} angle {a} velocity {v:?} {w}", b.id));
            }
        }
        let Some(dt) = info.dt else { return Ok(()) };
        let Op::Step { pi, .. } = op else { return Ok(()) };
        if !self.sub && !sim.flags[2] && dt > 0.0 {
            let cs = contacts(sim);
            for b in &sim.bodies {
                let Some((c0, a0)) = self.was.get(&b.id) else { continue };
                let p = b.ptr.borrow();
                let (c, v) = (p.get_world_center(), p.get_linear_velocity());
                let joined = sim.joints.iter().any(|j| j.a == b.id || j.b == b.id || j.extra.contains(&b.id));
                let points: f64 = cs.iter().filter(|k| k.touching && !k.sensor && (k.ba == b.id || k.bb == b.id)).map(|k| k.points as f64).sum();
                let d = (c.x as f64 - c0.0).hypot(c.y as f64 - c0.1);
                let turn = (p.get_angle() as f64 - a0).abs();
                let round = 1e-6 * (c0.0.abs() + c0.1.abs() + 10.0);
                let free = points == 0.0 && !joined;
                if !joined {
                    let most = MOVE * (1.0 + 1e-5) + round + PUSH * (1.0 + 1e-4) * *pi as f64 * points;
                    ctx.max(if free { "moved_free" } else { "moved_in_contact" }, d / most);
                    if !(d <= most) {
                        return viol("moved-too-far", format!("body {} moved by {d} in a step of {dt}, at most {most} allowed ({points} contact points)", b.id));
                    }
                }
                if free {
                    ctx.max("turned", turn / TURN);
                    if !(turn <= TURN * (1.0 + 1e-4) + 1e-6 * a0.abs()) {
                        return viol("turned-too-far", format!("body {} turned by {turn} in a step of {dt}", b.id));
                    }
                }
                if b.s.t > 0 && p.is_awake() && b.s.enabled {
                    let s = (v.x as f64).hypot(v.y as f64) * dt as f64;
                    let t = p.get_angular_velocity().abs() as f64 * dt as f64;
                    ctx.max("speed_left", s / MOVE);
                    if !(s <= MOVE * (1.0 + 1e-5)) || !(t <= TURN * (1.0 + 1e-5)) {
                        return viol("speed-too-high", format!("body {} ends a step of {dt} with velocity {v:?} {}", b.id, p.get_angular_velocity()));
                    }
                    if s > 0.999 * MOVE || t > 0.999 * TURN {
                        self.most = true;
                        ctx.probe("largest_movement");
                    }
                }
            }
        }
        if sim.flags[2] && dt > 0.0 && self.odd {
            self.most |= sim.bodies.iter().any(|b| {
                let v = b.ptr.borrow().get_linear_velocity();
                v.length() * dt > 0.9 * MOVE as f32
            });
        }
        if !self.sub {
            self.boxes(sim, ctx)?;
        }
        if self.most && self.odd {
            ctx.reached = true;
        }
        Ok(())
    }
}

impl M {
    fn boxes(&self, sim: &Sim, ctx: &mut Ctx) -> Res {
        let w = sim.world.borrow();
        for b in sim.bodies.iter().filter(|b| b.s.enabled) {
            for f in &b.fix {
                for (k, p) in prims(b, f).iter().enumerate() {
                    let a = geom::Aabb::of(p);
                    let e = 1e-3 + 2e-6 * (a.lo.0.abs() + a.lo.1.abs() + a.hi.0.abs() + a.hi.1.abs());
                    if a.hi.0 - a.lo.0 < 4.0 * e || a.hi.1 - a.lo.1 < 4.0 * e {
                        continue;
                    }
                    for q in [(a.lo.0 + e, a.lo.1 + e), (a.hi.0 - e, a.hi.1 - e)] {
                        let v = v2(q.0 as f32, q.1 as f32);
                        let mut ids = BTreeSet::new();
                        w.query_aabb(
                            |f: FixturePtr<U>| {
                                ids.insert(fid(&f));
                                true
                            },
                            B2AABB { lower_bound: v, upper_bound: v },
                        );
                        ctx.st.evals += 1;
                        if !ids.contains(&f.id) {
                            return viol("box", format!("part {k} of fixture {} of body {} reaches {q:?}, outside its broad-phase box", f.id, b.id));
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    drive(case, ctx, &mut M::default())
}
