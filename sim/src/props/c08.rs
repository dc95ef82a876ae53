//! Sleeping is sound: only resting islands sleep, disturbance wakes them.

use super::*;
use crate::gen::*;
use crate::rng::Rng;
use box2d_rs::b2_joint::JointAsDerived;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C08",
    gen,
    run,
    quick: 60000,
    thorough: 1_500_000,
    rule: "a run counts when a body fell asleep by itself during a step and a sleeping body was woken",
    assumptions: &[
        "how long a body was slow and how neighbours share their state is judged with continuous collision off, where the speed at the end of a step is the one the decision was made on",
        "callbacks do not change velocities in this check",
        "that connected bodies do fall asleep is judged for separate bodies on a flat floor only",
    ],
    real: REAL,
    stub: STUB,
    known: None,
};

const LIN: f64 = 0.01;
const ANG: f64 = 2.0 / 180.0 * std::f64::consts::PI;
const TTS: f64 = 0.5;
/// Longest simulated time a separate body on a flat floor may take to fall asleep.
const SETTLE: f64 = 12.0;

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C08", seed);
    if r.chance(0.25) {
        return rest(r, c);
    }
    swarm_flags(&mut r, &mut c);
    if r.chance(0.6) {
        c.set("no_toi", 1.0);
    }
    if r.chance(0.7) {
        c.cfg.remove("no_sleep");
        c.cfg.remove("substep");
    }
    let mut p = Profile::default();
    p.bodies = (2, 7);
    p.speed = *r.pick(&[0.02, 0.5, 6.0]);
    p.arena = *r.pick(&[2.5, 5.0]);
    p.joints = *r.pick(&[(0, 0), (0, 3)]);
    p.arms = vec!["disable", "friction", "restitution", "read", "clock"];
    p.sleepers = 0.4;
    p.dts = vec![1.0 / 60.0, 1.0 / 30.0, 1.0 / 15.0, 0.1];
    for e in p.w.iter_mut() {
        match e.0 {
            "awake" => e.1 = 8.0,
            "force" | "impulse" | "del_body" | "del_joint" | "sleep_ok" | "joint_set" => e.1 = 4.0,
            "flag" => e.1 = 1.0,
            "gravity" => e.1 = 0.3,
            _ => {}
        }
    }
    p.w.push(("odd_step", 2.0));
    p.ops = if thorough { (40, 160) } else { (20, 80) };
    let slow = r.chance(0.5);
    let mut g = Gen::new(r.fork(), p);
    if slow {
        g.p.gravity = false;
    }
    g.schedule(&mut c);
    if slow {
        c.set("gx", 0.0);
        c.set("gy", 0.0);
    }
    // Long enough for whatever rests to fall asleep, then one more disturbance.
    for _ in 0..2 {
        let mut t = 0.0;
        while t < 1.2 {
            let s = g.step();
            if let Op::Step { dt, .. } = s {
                t += dt as f64;
            }
            c.ops.push(s);
        }
        for _ in 0..r.int(1, 3) {
            let k = *r.pick(&["awake", "force", "impulse", "del_body", "del_fixture", "del_joint", "joint_set", "vel", "type", "sleep_ok", "enable"]);
            let o = g.op(k);
            c.ops.push(o);
            if r.chance(0.5) {
                let s = g.step();
                c.ops.push(s);
            }
        }
    }
    c
}

/// Separate bodies on a flat floor, disturbed, then left alone.
fn rest(mut r: Rng, mut c: Case) -> Case {
    c.set("rest", 1.0);
    c.set("gy", -10.0);
    if r.chance(0.5) {
        c.set("no_toi", 1.0);
    }
    if r.chance(0.2) {
        c.set("no_warm", 1.0);
    }
    let mut g = BodySpec { t: 0, ..Default::default() };
    let mut f = Fix::of(match r.below(3) {
        0 => Shape::Box { hx: 40.0, hy: 0.5, x: 0.0, y: -0.5, a: 0.0 },
        1 => Shape::Edge { a: (-40.0, 0.0), b: (40.0, 0.0) },
        _ => {
            let n = r.int(3, 9) as usize;
            let pts: Vec<P> = (0..n).map(|i| (40.0 - 80.0 * i as f32 / (n - 1) as f32, 0.0)).collect();
            Shape::Chain { prev: (41.0, 0.0), next: (-41.0, 0.0), pts }
        }
    });
    f.mu = r.f(0.2, 1.0);
    g.fix.push(f);
    c.ops.push(Op::Body(g));
    let n = r.int(1, 4);
    for i in 0..n {
        let mut b = BodySpec { x: -12.0 + 8.0 * i as f32, y: r.f(0.8, 2.0), ..Default::default() };
        b.a = r.f(-3.0, 3.0);
        b.ad = 1.0;
        b.ld = 1.0;
        let sh = match r.below(3) {
            0 => Shape::Circle { r: r.f(0.2, 0.6), x: 0.0, y: 0.0 },
            1 => Shape::Box { hx: r.f(0.2, 0.6), hy: r.f(0.2, 0.6), x: 0.0, y: 0.0, a: 0.0 },
            _ => {
                let k = r.int(3, 6) as usize;
                let rad = r.f(0.4, 0.7);
                Shape::Poly { pts: regular(&mut r, k, rad, rad, 0.0, 0.0) }
            }
        };
        let mut f = Fix::of(sh);
        f.d = r.logf(0.3, 3.0);
        f.mu = r.f(0.2, 1.0);
        f.e = if r.chance(0.6) { 0.0 } else { r.f(0.0, 0.4) };
        f.group = -1;
        b.fix.push(f);
        c.ops.push(Op::Body(b));
    }
    let dt = *r.pick(&[1.0f32 / 60.0, 1.0 / 50.0, 1.0 / 30.0, 1.0 / 120.0]);
    let (vi, pi) = (r.int(4, 10) as u8, r.int(2, 5) as u8);
    for _ in 0..r.int(3, 12) {
        let b = 1 + r.below(n as usize) as u32;
        let o = match r.below(5) {
            0 => Op::Impulse { b, k: 1, x: r.f(-0.5, 0.5), y: r.f(0.0, 1.0), ox: 0.0, oy: 0.0, wake: true },
            1 => Op::Awake { b, on: r.chance(0.6) },
            2 => Op::Vel { b, x: r.f(-0.5, 0.5), y: r.f(-1.0, 1.0), w: r.f(-2.0, 2.0) },
            3 => Op::SleepOk { b, on: r.chance(0.5) },
            _ => Op::Step { dt: *r.pick(&[0.0f32, 0.1, 0.2]), vi, pi },
        };
        c.ops.push(o);
        for _ in 0..r.int(1, 40) {
            c.ops.push(Op::Step { dt, vi, pi });
        }
    }
    for b in 1..=n {
        c.ops.push(Op::SleepOk { b: b as u32, on: true });
    }
    let mut t = 0.0;
    while t < SETTLE + 0.3 {
        let d = if r.chance(0.2) { dt * r.f(0.5, 1.5) } else { dt };
        t += d as f64;
        c.ops.push(Op::Step { dt: d, vi, pi });
    }
    c
}

#[derive(Clone)]
struct Was {
    awake: bool,
    state: [u32; 6],
}

/// Settings of a joint that say where its bodies are to go: limits, motor, offsets, target.
fn settings(j: &MJ) -> Vec<f32> {
    let flag = |f: bool| f as u8 as f32;
    match j.ptr.borrow().as_derived() {
        JointAsDerived::ERevoluteJoint(d) => vec![flag(d.is_limit_enabled()), d.get_lower_limit(), d.get_upper_limit(), flag(d.is_motor_enabled()), d.get_motor_speed(), d.get_max_motor_torque()],
        JointAsDerived::EPrismaticJoint(d) => vec![flag(d.is_limit_enabled()), d.get_lower_limit(), d.get_upper_limit(), flag(d.is_motor_enabled()), d.get_motor_speed(), d.get_max_motor_force()],
        JointAsDerived::EWheelJoint(d) => vec![flag(d.is_limit_enabled()), d.get_lower_limit(), d.get_upper_limit(), flag(d.is_motor_enabled()), d.get_motor_speed(), d.get_max_motor_torque()],
        JointAsDerived::EMotorJoint(d) => vec![d.get_linear_offset().x, d.get_linear_offset().y, d.get_angular_offset()],
        JointAsDerived::EMouseJoint(d) => vec![d.get_target().x, d.get_target().y],
        _ => vec![],
    }
}

#[derive(Default)]
struct M {
    rest: bool,
    was: BTreeMap<u32, Was>,
    /// Simulated time each body has been slow.
    low: BTreeMap<u32, f64>,
    /// Simulated time each body has been without contacts and joints.
    alone: BTreeMap<u32, f64>,
    /// Bodies that the coming operation has to wake.
    owed: Vec<(u32, String)>,
    /// Contacts before the operation that touched without pushing.
    loose: Vec<Key>,
    /// Bodies of every joint.
    ends: BTreeMap<u32, (u32, u32)>,
    /// The joint about to be set: both bodies and its settings before.
    tuned: Option<(u32, u32, u32, Vec<f32>)>,
    quiet: f64,
    /// Whether the world allowed sleeping before the operation.
    sleeping: bool,
    full: u32,
    sub: bool,
    fell: bool,
    woke: bool,
    bad_toi: u32,
}

fn state(b: &MB) -> [u32; 6] {
    let p = b.ptr.borrow();
    let (t, v) = (p.get_transform(), p.get_linear_velocity());
    [t.p.x, t.p.y, p.get_angle(), v.x, v.y, p.get_angular_velocity()].map(|x| x.to_bits())
}

/// The origin is recomputed from the centre of mass during an impact, so it may be off by rounding.
fn moved(a: [u32; 6], b: [u32; 6]) -> bool {
    let d = |i: usize| (f32::from_bits(a[i]) - f32::from_bits(b[i])).abs() > 1e-6 * (3.0 + f32::from_bits(a[i]).abs());
    a[2..] != b[2..] || d(0) || d(1)
}

impl Monitor for M {
    fn before(&mut self, sim: &mut Sim, op: &Op, _ctx: &mut Ctx) {
        self.was = sim.bodies.iter().map(|b| (b.id, Was { awake: b.ptr.borrow().is_awake(), state: state(b) })).collect();
        self.owed.clear();
        self.sleeping = sim.flags[0];
        self.ends = sim.joints.iter().map(|j| (j.id, (j.a, j.b))).collect();
        let n = sim.bodies.len() as u32;
        if n == 0 {
            return;
        }
        let all = contacts(sim);
        self.loose = all.iter().filter(|c| c.points == 0).map(|c| c.k).collect();
        let solid: Vec<CI> = all.into_iter().filter(|c| c.touching && !c.sensor && c.points > 0).collect();
        let partners = |id: u32, fix: Option<u32>, out: &mut Vec<(u32, String)>| {
            for c in &solid {
                if let Some(f) = fix {
                    if c.k.fa != f && c.k.fb != f {
                        continue;
                    }
                }
                if c.ba == id {
                    out.push((c.bb, "a touching partner went away".into()));
                } else if c.bb == id {
                    out.push((c.ba, "a touching partner went away".into()));
                }
            }
        };
        self.tuned = None;
        match *op {
            Op::JointSet { j, .. } if !sim.joints.is_empty() => {
                let j = &sim.joints[j as usize % sim.joints.len()];
                self.tuned = Some((j.id, j.a, j.b, settings(j)));
            }
            Op::DelBody { b } => {
                let id = sim.bodies[(b % n) as usize].id;
                partners(id, None, &mut self.owed);
                for j in &sim.joints {
                    if j.a == id {
                        self.owed.push((j.b, "a joined partner went away".into()));
                    } else if j.b == id {
                        self.owed.push((j.a, "a joined partner went away".into()));
                    }
                }
            }
            Op::DelFixture { b, f } => {
                let m = &sim.bodies[(b % n) as usize];
                if !m.fix.is_empty() {
                    let fid = m.fix[f as usize % m.fix.len()].id;
                    partners(m.id, Some(fid), &mut self.owed);
                }
            }
            _ => {}
        }
    }

    fn after(&mut self, sim: &mut Sim, op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        if info.skipped {
            return Ok(());
        }
        let find = |id: u32| sim.bodies.iter().find(|b| b.id == id);
        if info.dt.is_none() {
            self.quiet = 0.0;
            // Wake rules.
            let mut owed = std::mem::take(&mut self.owed);
            match op {
                Op::DelFixture { .. } if info.dead_fix.is_empty() => owed.clear(),
                Op::DelBody { .. } if info.dead_bodies.is_empty() => owed.clear(),
                _ => {}
            }
            if let Some(id) = info.body {
                let t = find(id).map_or(0, |b| b.s.t);
                let why = match *op {
                    Op::Vel { x, y, w, .. } if t > 0 && (x != 0.0 || y != 0.0 || w != 0.0) => Some("a velocity was set"),
                    Op::Force { wake: true, .. } if t == 2 => Some("a force was applied"),
                    Op::Impulse { wake: true, .. } if t == 2 => Some("an impulse was applied"),
                    Op::Awake { on: true, .. } if t > 0 => Some("it was woken"),
                    Op::SleepOk { on: false, .. } if t > 0 => Some("it may not sleep"),
                    _ => None,
                };
                if let Some(w) = why {
                    owed.push((id, w.into()));
                }
                if let (Op::Awake { on: false, .. }, Some(b)) = (op, find(id)) {
                    ctx.st.evals += 1;
                    if t > 0 && (b.ptr.borrow().is_awake() || state(b)[3..] != [0, 0, 0]) {
                        return viol("not-asleep", format!("body {id} was put to sleep but is awake or moving"));
                    }
                }
                let idle = matches!(op, Op::Force { wake: false, .. } | Op::Impulse { wake: false, .. });
                if let (true, Some(b), Some(w)) = (idle, find(id), self.was.get(&id)) {
                    ctx.st.evals += 1;
                    if t > 0 && !w.awake && (b.ptr.borrow().is_awake() || state(b) != w.state) {
                        return viol("disturbed-asleep", format!("a {} without waking changed the sleeping body {id}", op.kind()));
                    }
                }
            }
            if let Op::Flag { .. } = op {
                if self.sleeping && !sim.flags[0] {
                    owed.extend(sim.bodies.iter().map(|b| (b.id, "sleeping is switched off".to_string())));
                }
            }
            if let Some((id, a, b, was)) = self.tuned.take() {
                if let Some(j) = sim.joints.iter().find(|j| j.id == id) {
                    if settings(j) != was {
                        // A mouse joint acts on its second body only.
                        if j.s.k != JK::Mouse {
                            owed.push((a, "a joint on it was set".into()));
                        }
                        owed.push((b, "a joint on it was set".into()));
                    }
                }
            }
            for j in &info.dead_joints {
                if let Some((a, b)) = self.ends.get(j) {
                    owed.push((*a, "a joint on it was removed".into()));
                    owed.push((*b, "a joint on it was removed".into()));
                }
            }
            for (id, why) in owed {
                if let Some(b) = find(id) {
                    if b.s.t == 0 {
                        continue;
                    }
                    ctx.st.evals += 1;
                    if !b.ptr.borrow().is_awake() {
                        return viol("not-woken", format!("body {id} is still asleep although {why}"));
                    }
                    if self.was.get(&id).map_or(false, |w| !w.awake) {
                        self.woke = true;
                        ctx.probe("sleeping_body_woken");
                    }
                }
            }
            return self.done(ctx);
        }
        let dt = info.dt.unwrap() as f64;
        self.quiet += dt;
        if sim.flags[3] {
            self.sub = true;
            self.full = 0;
        } else if dt > 0.0 {
            self.full += 1;
        }
        let whole = !self.sub || self.full >= 2;
        if sim.flags[2] {
            self.bad_toi = 2;
        } else if self.bad_toi > 0 {
            self.bad_toi -= 1;
        }
        let plain = !sim.flags[2] && self.bad_toi == 0 && whole;
        let cs = contacts(sim);
        for b in &sim.bodies {
            let Some(w) = self.was.get(&b.id) else { continue };
            if b.s.t == 0 {
                continue;
            }
            let p = b.ptr.borrow();
            let awake = p.is_awake();
            ctx.st.evals += 1;
            // A step as long as the waiting time can wake a body and put it to sleep again.
            if !w.awake && !awake && dt < 0.49 && moved(w.state, state(b)) {
                return viol("moved-asleep", format!("body {} was asleep before and after the step but its state changed", b.id));
            }
            let v = p.get_linear_velocity();
            let slow = (v.x as f64).hypot(v.y as f64) <= LIN * 1.001 && (p.get_angular_velocity() as f64).abs() <= ANG * 1.001;
            let low = self.low.entry(b.id).or_default();
            let before = *low;
            if dt == 0.0 {
                // Nothing is solved and nothing decided.
            } else if !w.awake && !awake || !slow {
                *low = 0.0;
            } else {
                *low += dt;
            }
            if w.awake && !awake {
                ctx.st.evals += 1;
                self.fell = true;
                ctx.probe("body_fell_asleep");
                if !sim.flags[0] || !b.s.sleep {
                    return viol("slept-against-the-rules", format!("body {} fell asleep although {} forbids it", b.id, if sim.flags[0] { "the body" } else { "the world" }));
                }
                if plain && before + dt < TTS - 1e-4 {
                    return viol("slept-early", format!("body {} fell asleep after being slow for only {:.4} s", b.id, before + dt));
                }
                *low = 0.0;
            }
            if !w.awake && awake {
                self.woke = true;
                ctx.probe("sleeping_body_woken_in_step");
            }
        }
        // Whoever starts or stops touching in a step is awake after it.
        if dt < 0.49 {
            let sensor = |id: u32| sim.bodies.iter().flat_map(|b| &b.fix).find(|f| f.id == id).map_or(true, |f| f.f.sensor);
            for e in &sim.rec.borrow().ev[info.ev0..] {
                let (k, ba, bb, how) = match e {
                    E::Begin { k, ba, bb, .. } => (k, ba, bb, "started"),
                    E::End { k, ba, bb } => (k, ba, bb, "stopped"),
                    _ => continue,
                };
                if sensor(k.fa) || sensor(k.fb) || how == "stopped" && self.loose.contains(k) {
                    continue;
                }
                for id in [*ba, *bb] {
                    let Some(b) = find(id) else { continue };
                    if b.s.t == 0 || !b.s.enabled {
                        continue;
                    }
                    ctx.st.evals += 1;
                    if !b.ptr.borrow().is_awake() {
                        return viol("not-woken", format!("body {id} {how} touching another body in the step but is asleep after it"));
                    }
                    if self.was.get(&id).map_or(false, |w| !w.awake) {
                        ctx.probe("woken_by_a_contact");
                    }
                }
            }
        }
        if plain && dt > 0.0 {
            // Bodies that push each other or share a joint have the same state.
            let on = |id: u32| find(id).map(|b| (b.s.t, b.s.enabled, b.ptr.borrow().is_awake()));
            let mut pairs: Vec<(u32, u32, &str)> = vec![];
            for c in &cs {
                if c.touching && c.enabled && !c.sensor {
                    pairs.push((c.ba, c.bb, "touching"));
                }
            }
            for j in &sim.joints {
                pairs.push((j.a, j.b, "joined"));
            }
            for (x, y, how) in pairs {
                if let (Some((tx, ex, ax)), Some((ty, ey, ay))) = (on(x), on(y)) {
                    if tx > 0 && ty > 0 && ex && ey {
                        ctx.st.evals += 1;
                        if ax != ay {
                            return viol("split-island", format!("bodies {x} and {y} are {how}, but after the step one is awake ({ax}, {ay}) and the other is not"));
                        }
                        if !ax {
                            ctx.probe("connected_bodies_asleep");
                        }
                    }
                }
            }
        }
        // A separate slow body falls asleep.
        if dt > 0.0 && sim.flags[0] && whole {
            let mut busy: BTreeSet<u32> = BTreeSet::new();
            let mut shared: BTreeSet<u32> = BTreeSet::new();
            for c in &cs {
                if c.touching {
                    let moving = |id: u32| find(id).map_or(true, |b| b.s.t > 0);
                    if moving(c.ba) && moving(c.bb) {
                        shared.insert(c.ba);
                        shared.insert(c.bb);
                    }
                    busy.insert(c.ba);
                    busy.insert(c.bb);
                }
            }
            for j in &sim.joints {
                busy.insert(j.a);
                busy.insert(j.b);
                busy.extend(j.extra.iter());
            }
            for e in &sim.rec.borrow().ev[info.ev0..] {
                if let E::Begin { ba, bb, .. } | E::End { ba, bb, .. } = e {
                    busy.insert(*ba);
                    busy.insert(*bb);
                }
            }
            for b in &sim.bodies {
                let alone = self.alone.entry(b.id).or_default();
                *alone = if busy.contains(&b.id) { 0.0 } else { *alone + dt };
                let alone = *alone;
                if b.s.t == 0 || !b.s.enabled || !b.s.sleep {
                    continue;
                }
                let low = self.low.get(&b.id).copied().unwrap_or(0.0);
                let lone = !busy.contains(&b.id);
                ctx.st.evals += 1;
                if b.ptr.borrow().is_awake() && low.min(self.quiet).min(alone) > TTS + 2.0 * dt + 1e-3 && plain {
                    return viol("stays-awake", format!("the separate body {} has been slow and undisturbed for {:.3} s but is awake", b.id, low.min(self.quiet)));
                }
                if self.rest && !lone && !shared.contains(&b.id) {
                    if !b.ptr.borrow().is_awake() {
                        ctx.probe("body_rests_on_floor");
                    } else if self.quiet > SETTLE {
                        return viol("stays-awake", format!("body {} lies on a flat floor and was left alone for {:.2} s but is awake", b.id, self.quiet));
                    } else {
                        ctx.max("longest quiet time of an awake body on the floor, s", self.quiet);
                    }
                }
            }
        }
        self.done(ctx)
    }
}

impl M {
    fn done(&self, ctx: &mut Ctx) -> Res {
        if self.fell && self.woke {
            ctx.reached = true;
        }
        Ok(())
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = M::default();
    m.rest = case.on("rest");
    drive(case, ctx, &mut m)
}
