//! Momentum changes are exactly accounted for by the reported impulses and reactions.

use super::*;
use crate::gen::*;
use crate::rng::Rng;
use box2d_rs::b2_joint::*;
use box2d_rs::b2_math::B2vec2;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C13",
    gen,
    run,
    quick: 160000,
    thorough: 2_000_000,
    rule: "a run counts when bodies under contact impulses were accounted for (closed worlds: when bodies exchanged momentum)",
    assumptions: &[
        "per-body accounting runs without continuous collision (its impulses are reported for sub-intervals)",
        "bodies attached to gears or to a pulley with a side under 0.3 m, bodies asleep before or after the step and bodies at the speed limit are not accounted",
        "steps with two joints on one moving body, with jointed bodies moving more than a metre or a radian per step, or impulses above 1000, are not accounted, nor the two after them",
        "callbacks do not change velocities or apply forces",
        "a mouse joint damps the spin of its body; only its linear part is accounted",
    ],
    real: REAL,
    stub: STUB,
    known: None,
};

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C13", seed);
    if r.chance(0.2) {
        return linked(r, c, thorough);
    }
    swarm_flags(&mut r, &mut c);
    if r.chance(0.1) {
        c.set("no_block", 1.0);
    }
    c.cfg.remove("substep");
    let closed = r.chance(0.3);
    let mut p = Profile::default();
    p.arena = *r.pick(&[2.0, 4.0, 6.0]);
    p.bodies = (2, 8);
    p.arms = vec!["disable", "friction", "restitution", "tangent", "read", "clock"];
    p.joints = *r.pick(&[(0, 0), (1, 1), (0, 2)]);
    p.jkinds = vec![JK::Distance, JK::Friction, JK::Mouse, JK::Motor, JK::Revolute, JK::Prismatic, JK::Weld, JK::Wheel, JK::Pulley];
    for e in p.w.iter_mut() {
        match e.0 {
            "flag" => e.1 = 0.0,
            "joint_set" => e.1 = 4.0,
            "force" => e.1 = 5.0,
            _ => {}
        }
    }
    p.w.push(("odd_step", 2.0));
    p.w.push(("mass_data", 0.5));
    if closed {
        c.set("closed", 1.0);
        c.cfg.remove("no_toi");
        if r.chance(0.4) {
            c.set("no_toi", 1.0);
        }
        c.set("no_sleep", 1.0);
        p.types = [0.0, 0.0, 1.0];
        p.ground = 0.0;
        p.gravity = false;
        p.damping = false;
        p.sleepers = 0.0;
        p.disabled = 0.0;
        p.shapes = [1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0];
        p.jkinds = vec![JK::Distance, JK::Friction, JK::Motor, JK::Revolute, JK::Prismatic, JK::Weld, JK::Wheel];
        p.joints = *r.pick(&[(0, 0), (0, 2)]);
        p.speed = *r.pick(&[3.0, 10.0, 40.0]);
        p.w.retain(|e| !matches!(e.0, "gravity" | "type" | "enable" | "damp" | "awake" | "sleep_ok"));
    } else {
        c.set("no_toi", 1.0);
    }
    if thorough {
        p.ops = (30, 140);
    }
    let mut g = Gen::new(r, p);
    g.schedule(&mut c);
    c
}

/// Free bodies linked by a tree of joints, with a gear between two of them, and nothing else.
fn linked(mut r: Rng, mut c: Case, thorough: bool) -> Case {
    c.set("closed", 1.0);
    c.set("linked", 1.0);
    c.set("no_sleep", 1.0);
    c.set("no_toi", 1.0);
    c.set("gx", 0.0);
    c.set("gy", 0.0);
    if r.chance(0.2) {
        c.set("no_warm", 1.0);
    }
    let n = r.int(2, 5) as u32;
    let mut at: Vec<(f32, f32)> = vec![];
    let geared = n > 2 && r.chance(0.6);
    let mut js = vec![];
    for i in 0..n {
        let par = if i == 0 || r.chance(0.5) { 0 } else { r.below(i as usize) as u32 };
        let (dx, dy) = (r.f(-1.5, 1.5), r.f(-1.5, 1.5));
        let (x, y) = at.get(par as usize).map_or((0.0, 0.0), |p| (p.0 + dx, p.1 + dy));
        at.push((x, y));
        let mut b = BodySpec { x, y, a: r.f(-3.0, 3.0), vx: r.f(-3.0, 3.0), vy: r.f(-3.0, 3.0), w: r.f(-3.0, 3.0), ..Default::default() };
        let (ox, oy) = if r.chance(0.5) { (0.0, 0.0) } else { (r.f(-0.3, 0.3), r.f(-0.3, 0.3)) };
        let mut f = Fix::of(match r.below(2) {
            0 => Shape::Box { hx: r.f(0.3, 0.8), hy: r.f(0.3, 0.8), x: ox, y: oy, a: 0.0 },
            _ => Shape::Circle { r: r.f(0.3, 0.8), x: ox, y: oy },
        });
        f.d = r.logf(0.3, 3.0);
        f.group = -1;
        b.fix.push(f);
        c.ops.push(Op::Body(b));
        if i == 0 {
            continue;
        }
        let kinds: &[JK] = if geared {
            &[JK::Revolute, JK::Prismatic]
        } else {
            &[JK::Distance, JK::Friction, JK::Motor, JK::Revolute, JK::Prismatic, JK::Weld, JK::Wheel]
        };
        let k = *r.pick(kinds);
        let t = r.f(0.0, 1.0);
        js.push(JointSpec {
            k,
            a: par,
            b: i,
            x: dx * t,
            y: dy * t,
            ang: r.f(-3.1, 3.1),
            p: [r.f(0.0, 2.0), r.f(0.0, 2.0), r.f(-2.0, 2.0), r.f(-2.0, 2.0)],
            limit: !geared && r.chance(0.5),
            motor: r.chance(0.5),
            collide: false,
        });
    }
    c.ops.extend(js.into_iter().map(Op::Joint));
    if geared {
        let q = r.f(0.4, 2.5) * if r.chance(0.5) { -1.0 } else { 1.0 };
        let a = r.below(n as usize - 1) as u32;
        let b = (a + 1 + r.below(n as usize - 2) as u32) % (n - 1);
        c.ops.push(Op::Joint(JointSpec { k: JK::Gear, a, b, x: 0.0, y: 0.0, ang: 0.0, p: [q, 0.0, 0.0, 0.0], limit: false, motor: false, collide: false }));
    }
    let dt = *r.pick(&[1.0f32 / 60.0, 1.0 / 120.0, 1.0 / 30.0]);
    let vi = r.int(1, 10) as u8;
    for _ in 0..r.int(20, if thorough { 120 } else { 60 }) {
        let b = r.below(n as usize) as u32;
        match r.below(12) {
            0 => c.ops.push(Op::Vel { b, x: r.f(-5.0, 5.0), y: r.f(-5.0, 5.0), w: r.f(-5.0, 5.0) }),
            1 => c.ops.push(Op::Force { b, k: r.below(3) as u8, x: r.f(-20.0, 20.0), y: r.f(-20.0, 20.0), ox: r.f(-0.5, 0.5), oy: r.f(-0.5, 0.5), wake: true }),
            2 if !geared => c.ops.push(Op::JointSet { j: r.below(n as usize) as u32, w: r.below(7) as u8, v: r.f(-2.0, 2.0), v2: r.f(-2.0, 2.0) }),
            3 => c.ops.push(Op::Step { dt: *r.pick(&[0.0, 0.002, 0.05]), vi, pi: 3 }),
            _ => {}
        }
        c.ops.push(Op::Step { dt, vi, pi: 3 });
    }
    c
}

struct Was {
    c: (f64, f64),
    v: (f64, f64),
    w: f64,
    awake: bool,
    force: (f64, f64),
    torque: f64,
}

/// The two sides of a pulley at the start of a step.
struct Rope {
    /// Body, its anchor, direction away from the ground anchor, force per reported force.
    sides: [(u32, (f64, f64), (f64, f64), f64); 2],
    short: bool,
}

#[derive(Default)]
struct M {
    closed: bool,
    was: BTreeMap<u32, Was>,
    anchors: BTreeMap<u32, (f64, f64)>,
    /// Where the reaction acts on the first body.
    firsts: BTreeMap<u32, (f64, f64)>,
    ropes: BTreeMap<u32, Rope>,
    hits: u32,
    /// Sizes of the impulses of the step before: the solver starts from them.
    last: BTreeMap<u32, (f64, f64)>,
    last_dt: f64,
    wild: u32,
    linked: bool,
    /// Joints that have shared a moving body with another one.
    taint: BTreeSet<u32>,
    /// How far apart the points are where each joint acts on its two bodies (across its axis, if it has one).
    apart: BTreeMap<u32, f64>,
    last_imp: f64,
}

fn cross(a: (f64, f64), b: (f64, f64)) -> f64 {
    a.0 * b.1 - a.1 * b.0
}

#[derive(Default, Clone)]
struct Sum {
    p: (f64, f64),
    l: f64,
    /// Sizes, for tolerances.
    ps: f64,
    ls: f64,
    arm: f64,
    joined: bool,
    skip: bool,
    skip_ang: bool,
    contacts: u32,
}

/// How far the points where a joint acts on its two bodies are apart, across the direction it acts in.
fn apart(sim: &Sim, j: &MJ) -> f64 {
    let p = j.ptr.borrow();
    let (a, b) = (p.get_anchor_a(), p.get_anchor_b());
    let d = ((b.x - a.x) as f64, (b.y - a.y) as f64);
    match p.as_derived() {
        JointAsDerived::EDistanceJoint(_) | JointAsDerived::EWheelJoint(_) => 0.0,
        JointAsDerived::EPrismaticJoint(q) => {
            if !sim.joints.iter().any(|g| g.s.k == JK::Gear && g.deps.contains(&j.id)) {
                return 0.0;
            }
            let u = p.get_base().get_body_a().borrow().get_world_vector(q.get_local_axis_a());
            (d.0 * u.y as f64 - d.1 * u.x as f64).abs() + 1e-5
        }
        JointAsDerived::EMotorJoint(q) => {
            let t = p.get_base().get_body_a().borrow().get_world_point(q.get_linear_offset());
            ((b.x - t.x) as f64).hypot((b.y - t.y) as f64) + 1e-5
        }
        _ => d.0.hypot(d.1) + 1e-5,
    }
}

/// Whether the joint shares no moving body with another one.
pub fn alone(sim: &Sim, i: usize) -> bool {
    let j = &sim.joints[i];
    let moves = |id: u32| sim.body(id).map_or(false, |b| b.s.t == 2);
    !sim.joints.iter().enumerate().any(|(k, o)| k != i && [j.a, j.b].iter().any(|x| moves(*x) && (o.a == *x || o.b == *x || o.extra.contains(x))))
}

impl Monitor for M {
    fn before(&mut self, sim: &mut Sim, op: &Op, _ctx: &mut Ctx) {
        if !matches!(op, Op::Step { .. }) {
            return;
        }
        self.was.clear();
        for b in &sim.bodies {
            let p = b.ptr.borrow();
            let (c, v) = (p.get_world_center(), p.get_linear_velocity());
            self.was.insert(
                b.id,
                Was {
                    c: (c.x as f64, c.y as f64),
                    v: (v.x as f64, v.y as f64),
                    w: p.get_angular_velocity() as f64,
                    awake: p.is_awake(),
                    force: b.force,
                    torque: b.torque,
                },
            );
        }
        self.anchors.clear();
        self.firsts.clear();
        for j in &sim.joints {
            let a = j.ptr.borrow().get_anchor_b();
            self.anchors.insert(j.id, (a.x as f64, a.y as f64));
            let a = first(j);
            self.firsts.insert(j.id, (a.x as f64, a.y as f64));
        }
        self.ropes = sim.joints.iter().filter_map(|j| rope(j).map(|r| (j.id, r))).collect();
        self.apart = sim.joints.iter().map(|j| (j.id, apart(sim, j))).collect();
    }

    fn after(&mut self, sim: &mut Sim, _op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        let Some(dt) = info.dt else { return Ok(()) };
        // Falling asleep drops accumulated forces.
        for b in sim.bodies.iter_mut() {
            if self.was.get(&b.id).map_or(false, |w| w.awake) && !b.ptr.borrow().is_awake() {
                b.force = (0.0, 0.0);
                b.torque = 0.0;
            }
        }
        if dt == 0.0 {
            return Ok(());
        }
        // Joints sharing a body may contradict each other and throw bodies around; rounding then
        // swamps the account, also for whatever they hit.
        // What piles up in them stays after the other joint is gone.
        if !self.linked {
            for (i, j) in sim.joints.iter().enumerate() {
                if !alone(sim, i) {
                    self.taint.insert(j.id);
                }
                if self.taint.contains(&j.id) {
                    self.wild = 3;
                }
            }
        }
        if self.closed {
            self.total(sim, dt, info, ctx)
        } else if !sim.flags[2] {
            self.each(sim, dt, info, ctx)
        } else {
            Ok(())
        }
    }
}

/// Sliding and wheel joints push the first body where the second one is held, a motor at its target.
fn first(j: &MJ) -> B2vec2 {
    let p = j.ptr.borrow();
    match p.as_derived() {
        JointAsDerived::EPrismaticJoint(_) | JointAsDerived::EWheelJoint(_) => p.get_anchor_b(),
        JointAsDerived::EMotorJoint(x) => p.get_base().get_body_a().borrow().get_world_point(x.get_linear_offset()),
        _ => p.get_anchor_a(),
    }
}

/// None for other joints.
fn rope(j: &MJ) -> Option<Rope> {
    let p = j.ptr.borrow();
    let JointAsDerived::EPulleyJoint(x) = p.as_derived() else { return None };
    let mut short = false;
    let mut side = |b: u32, a: B2vec2, g: B2vec2, k: f64| {
        let (dx, dy) = (a.x as f64 - g.x as f64, a.y as f64 - g.y as f64);
        let len = dx.hypot(dy);
        short |= len < 0.3;
        (b, (a.x as f64, a.y as f64), (dx / len, dy / len), k)
    };
    let sides = [
        side(j.a, p.get_anchor_a(), x.get_ground_anchor_a(), 1.0),
        side(j.b, p.get_anchor_b(), x.get_ground_anchor_b(), x.get_ratio() as f64),
    ];
    Some(Rope { sides, short })
}

impl M {
    fn each(&mut self, sim: &Sim, dt: f32, info: &Info, ctx: &mut Ctx) -> Res {
        let h = dt as f64;
        let mut sums: BTreeMap<u32, Sum> = sim.bodies.iter().map(|b| (b.id, Sum::default())).collect();
        {
            let rec = sim.rec.borrow();
            let mut pre: BTreeMap<Key, &PreData> = BTreeMap::new();
            for e in &rec.ev[info.ev0..] {
                match e {
                    E::Pre { k, d, .. } => {
                        pre.insert(*k, d);
                    }
                    E::Post { k, ba, bb, d } => {
                        let Some(pd) = pre.get(k) else {
                            for b in [ba, bb] {
                                if let Some(s) = sums.get_mut(b) {
                                    s.skip = true;
                                }
                            }
                            continue;
                        };
                        let n = (pd.normal.0 as f64, pd.normal.1 as f64);
                        let t = (n.1, -n.0);
                        for i in 0..d.count {
                            let (jn, jt) = (d.n[i] as f64, d.t[i] as f64);
                            let imp = (jn * n.0 + jt * t.0, jn * n.1 + jt * t.1);
                            let pt = (pd.points[i].0 as f64, pd.points[i].1 as f64);
                            for (b, sg) in [(ba, -1.0), (bb, 1.0)] {
                                let (Some(s), Some(w)) = (sums.get_mut(b), self.was.get(b)) else { continue };
                                s.p = (s.p.0 + sg * imp.0, s.p.1 + sg * imp.1);
                                let r = (pt.0 - w.c.0, pt.1 - w.c.1);
                                s.l += sg * cross(r, imp);
                                let sz = jn.abs() + jt.abs();
                                s.ps += sz;
                                s.ls += sz * (1e-2 + r.0.abs() + r.1.abs());
                                if jn != 0.0 {
                                    s.contacts += 1;
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        for j in &sim.joints {
            if j.s.k == JK::Gear || self.ropes.get(&j.id).map_or(false, |r| r.short) {
                for b in [j.a, j.b].iter().chain(j.extra.iter()) {
                    if let Some(s) = sums.get_mut(b) {
                        s.skip = true;
                    }
                }
                continue;
            }
            let on = |id: u32| sim.body(id).map_or(false, |b| b.s.enabled);
            if !on(j.a) || !on(j.b) {
                continue;
            }
            let (f, t) = {
                let p = j.ptr.borrow();
                (p.get_reaction_force(1.0), p.get_reaction_torque(1.0) as f64)
            };
            let f = (f.x as f64, f.y as f64);
            let sz = f.0.abs() + f.1.abs();
            for b in [j.a, j.b] {
                if let Some(s) = sums.get_mut(&b) {
                    s.joined = true;
                }
            }
            if let Some(rope) = self.ropes.get(&j.id) {
                // The report is the pull of the rope along its second side.
                let u = rope.sides[1].2;
                let pull = f.0 * u.0 + f.1 * u.1;
                if pull.abs() > 1e-3 {
                    ctx.probe("pulley pulled");
                }
                for (b, a, u, k) in &rope.sides {
                    let (Some(s), Some(w)) = (sums.get_mut(b), self.was.get(b)) else { continue };
                    let r = (a.0 - w.c.0, a.1 - w.c.1);
                    let f = (-k * pull * u.0, -k * pull * u.1);
                    s.p = (s.p.0 + f.0, s.p.1 + f.1);
                    s.arm = s.arm.max(r.0.abs() + r.1.abs());
                    s.l += cross(r, f);
                    s.ps += k * sz;
                    s.ls += k * sz * (1e-2 + r.0.abs() + r.1.abs());
                }
                continue;
            }
            if let (Some(s), Some(w)) = (sums.get_mut(&j.b), self.was.get(&j.b)) {
                let a = self.anchors[&j.id];
                let r = (a.0 - w.c.0, a.1 - w.c.1);
                s.p = (s.p.0 + f.0, s.p.1 + f.1);
                s.arm = s.arm.max(r.0.abs() + r.1.abs());
                s.l += cross(r, f) + t;
                s.ps += sz;
                s.ls += sz * (1e-2 + r.0.abs() + r.1.abs()) + t.abs();
                if j.s.k == JK::Mouse {
                    s.skip_ang = true;
                }
            }
            if j.s.k != JK::Mouse {
                if let (Some(s), Some(w)) = (sums.get_mut(&j.a), self.was.get(&j.a)) {
                    let a = self.firsts[&j.id];
                    let r = (a.0 - w.c.0, a.1 - w.c.1);
                    s.p = (s.p.0 - f.0, s.p.1 - f.1);
                    s.arm = s.arm.max(r.0.abs() + r.1.abs());
                    s.l -= cross(r, f) + t;
                    s.ps += sz;
                    s.ls += sz * (1e-2 + r.0.abs() + r.1.abs()) + t.abs();
                }
            }
        }
        let ratio = if self.last_dt > 0.0 { (h / self.last_dt).max(1.0) } else { 1.0 };
        self.last_dt = h;
        let last = std::mem::take(&mut self.last);
        for (id, s) in sums.iter_mut() {
            self.last.insert(*id, (s.ps, s.ls));
            if let Some(l) = last.get(id) {
                s.ps += ratio * l.0;
                s.ls += ratio * l.1;
            }
        }
        // Joints that contradict each other throw bodies around; rounding then swamps the account.
        if !sim.joints.is_empty() && sim.bodies.iter().any(|b| {
            let p = b.ptr.borrow();
            let v = p.get_linear_velocity();
            h * (v.x as f64).hypot(v.y as f64) > 1.0 || h * (p.get_angular_velocity() as f64).abs() > 1.0
        }) || last.values().chain(self.last.values()).any(|l| !(l.0 < 1e3 && l.1 < 1e3)) {
            self.wild = 3;
        }
        if self.wild > 0 {
            self.wild -= 1;
            ctx.probe("joint fighting, step not judged");
            return Ok(());
        }
        let (gx, gy) = (sim.gravity.0 as f64, sim.gravity.1 as f64);
        for b in &sim.bodies {
            if b.s.t != 2 || !b.s.enabled {
                continue;
            }
            let (Some(w), s) = (self.was.get(&b.id), &sums[&b.id]) else { continue };
            let p = b.ptr.borrow();
            if !w.awake || !p.is_awake() || s.skip {
                continue;
            }
            let m = p.get_mass() as f64;
            if m <= 0.0 {
                continue;
            }
            let (v, om) = (p.get_linear_velocity(), p.get_angular_velocity() as f64);
            let v = (v.x as f64, v.y as f64);
            // At the speed limit the velocity was cut.
            let clamp_v = h * v.0.hypot(v.1) > 1.999;
            let clamp_w = h * om.abs() > 0.4999 * std::f64::consts::PI;
            let slack = if s.joined { 30.0 } else { 4.0 };
            let gs = b.s.gs as f64;
            let ld = 1.0 / (1.0 + h * b.s.ld as f64);
            let ad = 1.0 / (1.0 + h * b.s.ad as f64);
            let free = ((w.v.0 + h * (gs * gx + w.force.0 / m)) * ld, (w.v.1 + h * (gs * gy + w.force.1 / m)) * ld);
            let free_v = free.0.abs() + free.1.abs();
            if !clamp_v {
                let got = (m * (v.0 - free.0), m * (v.1 - free.1));
                // Opposite limits of one joint may cancel inside the reported reaction.
                let tol = (if s.joined { 2e-3 } else { 6e-4 }) * s.ps + 3e-5 * slack * m * (1.0 + free.0.abs() + free.1.abs() + v.0.abs() + v.1.abs());
                ctx.st.evals += 1;
                ctx.max("linear account, error over tolerance", (got.0 - s.p.0).abs().max((got.1 - s.p.1).abs()) / tol);
                if !((got.0 - s.p.0).abs() <= tol && (got.1 - s.p.1).abs() <= tol) {
                    return viol(
                        "momentum",
                        format!("body {} of mass {m} gained momentum {got:?} in a step of {dt} beyond gravity, forces and damping; the reported impulses add up to {:?}", b.id, s.p),
                    );
                }
                self.hits += (s.contacts > 0) as u32;
            }
            let lc = p.get_local_center();
            let i0 = p.get_inertia() as f64;
            let ic = if b.s.fixed { 0.0 } else { i0 - m * ((lc.x as f64).powi(2) + (lc.y as f64).powi(2)) };
            if !clamp_w && !clamp_v && !s.skip_ang {
                if b.s.fixed || i0 <= 0.0 {
                    if b.s.fixed && (om - w.w * ad).abs() > 1e-5 * (1.0 + w.w.abs()) {
                        return viol("fixed-rotation", format!("body {} has its rotation fixed, but its spin went from {} to {om}", b.id, w.w));
                    }
                    continue;
                }
                if ic < 1e-2 * i0 {
                    continue;
                }
                let free = (w.w + h * w.torque / ic) * ad;
                let got = ic * (om - free);
                let far = 1e-6 * (w.c.0.abs() + w.c.1.abs());
                let tol = (if s.joined { 4e-3 } else { 1e-3 }) * s.ls + (far + 5e-3 * s.arm) * s.ps + 3e-5 * slack * s.arm * m * (1.0 + free_v + v.0.abs() + v.1.abs()) + 1e-4 * slack * i0 * (1.0 + free.abs() + om.abs());
                ctx.st.evals += 1;
                ctx.max("angular account, error over tolerance", (got - s.l).abs() / tol);
                if !((got - s.l).abs() <= tol) {
                    return viol(
                        "angular-momentum",
                        format!("body {} of inertia {ic} gained angular momentum {got} in a step of {dt}; the reported impulses add up to {}", b.id, s.l),
                    );
                }
            }
        }
        if self.hits >= 3 {
            ctx.reached = true;
        }
        Ok(())
    }

    /// All bodies are dynamic and nothing acts from outside: the total never changes.
    fn total(&mut self, sim: &Sim, dt: f32, info: &Info, ctx: &mut Ctx) -> Res {
        let h = dt as f64;
        let (mut p0, mut p1, mut l0, mut l1, mut size, mut lsize) = ((0.0, 0.0), (0.0, 0.0), 0.0, 0.0, 0.0, 0.0);
        for b in &sim.bodies {
            let Some(w) = self.was.get(&b.id) else { return Ok(()) };
            let p = b.ptr.borrow();
            let m = p.get_mass() as f64;
            let v = p.get_linear_velocity();
            let v = (v.x as f64, v.y as f64);
            let om = p.get_angular_velocity() as f64;
            // A body without mass is immovable, and the speed limit takes momentum away.
            if m <= 0.0 || b.s.fixed || h * v.0.hypot(v.1) > 1.99 || h * om.abs() > 1.57 || h * w.v.0.hypot(w.v.1) > 1.9 || h * w.w.abs() > 1.5 || p.get_inertia() <= 0.0 {
                return Ok(());
            }
            let lc = p.get_local_center();
            let ic = p.get_inertia() as f64 - m * ((lc.x as f64).powi(2) + (lc.y as f64).powi(2));
            let f = w.force;
            p0 = (p0.0 + m * w.v.0 + h * f.0, p0.1 + m * w.v.1 + h * f.1);
            p1 = (p1.0 + m * v.0, p1.1 + m * v.1);
            l0 += m * cross(w.c, w.v) + ic * w.w + h * (cross(w.c, f) + w.torque);
            l1 += m * cross(w.c, v) + ic * om;
            size += m * (w.v.0.abs() + w.v.1.abs() + v.0.abs() + v.1.abs()) + h * (f.0.abs() + f.1.abs());
            lsize += (1.0 + w.c.0.abs() + w.c.1.abs()) * m * (w.v.0.abs() + w.v.1.abs() + v.0.abs() + v.1.abs())
                + p.get_inertia() as f64 * (w.w.abs() + om.abs())
                + h * w.torque.abs();
        }
        let reach = 1.0 + self.was.values().map(|w| w.c.0.abs() + w.c.1.abs()).fold(0.0, f64::max);
        // Several impacts may have been handled at speeds between.
        let mut imp = 0.0;
        let mut posts = 0;
        let mut toi_risk = false;
        for e in &sim.rec.borrow().ev[info.ev0..] {
            if let E::Post { d, .. } = e {
                for i in 0..d.count {
                    imp += (d.n[i].abs() + d.t[i].abs()) as f64;
                    posts += 1;
                }
            }
            if let E::Pre { d, .. } = e {
                for v in d.v {
                    if h * (v.0 as f64).hypot(v.1 as f64) > 1.9 || h * (v.2 as f64).abs() > 1.5 {
                        toi_risk = true;
                    }
                }
            }
        }
        if toi_risk {
            return Ok(());
        }
        let (mut jimp, mut twist) = (0.0, 0.0);
        let gear = |id: u32| sim.joints.iter().any(|g| g.s.k == JK::Gear && g.deps.contains(&id));
        for j in &sim.joints {
            let p = j.ptr.borrow();
            let f = p.get_reaction_force(1.0);
            let f = (f.x as f64).hypot(f.y as f64);
            let gap = self.apart.get(&j.id).copied().unwrap_or(0.0);
            jimp += f + p.get_reaction_torque(1.0).abs() as f64;
            twist += f * gap;
            if j.s.k == JK::Gear {
                let lam = f + p.get_reaction_torque(1.0).abs() as f64;
                jimp += 3.0 * lam;
                twist += 4.0 * lam * j.deps.iter().map(|d| self.apart.get(d).copied().unwrap_or(0.0)).sum::<f64>();
            }
            // Limits and a gear may contradict each other.
            if self.linked && gear(j.id) && (j.s.limit || j.s.k == JK::Gear) {
                self.wild = 3;
            }
        }
        let last = std::mem::replace(&mut self.last_imp, jimp);
        let jimp = jimp + last * if self.last_dt > 0.0 { (h / self.last_dt).max(1.0) } else { 1.0 };
        self.last_dt = h;
        if jimp > 1e3 {
            self.wild = 3;
        }
        if self.wild > 0 {
            self.wild -= 1;
            return Ok(());
        }
        let tol = 1e-5 + 1e-4 * size + 1e-4 * imp + 1e-4 * jimp;
        ctx.st.evals += 1;
        ctx.max("total momentum, error over tolerance", (p1.0 - p0.0).abs().max((p1.1 - p0.1).abs()) / tol);
        if !((p1.0 - p0.0).abs() <= tol && (p1.1 - p0.1).abs() <= tol) {
            return viol("total-momentum", format!("the total momentum of an isolated set of bodies went from {p0:?} to {p1:?} in a step of {dt}"));
        }
        if !sim.flags[2] {
            let tol = 1e-5 + 1e-5 * lsize + 1e-5 * imp * sim.bodies.len() as f64 + 1.3 * twist + 1e-4 * jimp * reach;
            ctx.st.evals += 1;
            ctx.max("total angular momentum, error over tolerance", (l1 - l0).abs() / tol);
            if !((l1 - l0).abs() <= tol) {
                return viol("total-angular-momentum", format!("the total angular momentum of an isolated set of bodies went from {l0} to {l1} in a step of {dt}"));
            }
        }
        if posts > 0 || self.linked && jimp > 0.0 {
            self.hits += 1;
        }
        if self.hits >= 3 {
            ctx.reached = true;
        }
        Ok(())
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    drive(case, ctx, &mut M { closed: case.on("closed"), linked: case.on("linked"), ..Default::default() })
}

