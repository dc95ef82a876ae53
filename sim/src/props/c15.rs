//! Joints hold their constraint, stay within their force limits and recover after disturbances.

use super::*;
use crate::gen::*;
use crate::rng::Rng;
use box2d_rs::b2_joint::*;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C15",
    gen,
    run,
    quick: 60000,
    thorough: 2_000_000,
    rule: "a run counts when a joint was judged in at least thirty quiet steps after a disturbance",
    assumptions: &[
        "joined bodies do not collide, joints form trees and do not contradict each other",
        "sleeping is off",
        "constraints are judged from two seconds of simulated time after the last disturbance, spring laws and force limits in every step",
        "pulleys are judged while both rope sides are longer than half a metre",
    ],
    real: REAL,
    stub: STUB,
    known: None,
};

/// Simulated time after which a disturbance must be forgotten.
const SETTLE: f64 = 2.0;

fn shape(r: &mut Rng) -> Fix {
    let (x, y) = if r.chance(0.4) { (r.f(-0.3, 0.3), r.f(-0.3, 0.3)) } else { (0.0, 0.0) };
    let mut f = Fix::of(if r.chance(0.5) {
        Shape::Circle { r: r.f(0.25, 0.8), x, y }
    } else {
        Shape::Box { hx: r.f(0.3, 0.9), hy: r.f(0.2, 0.9), x, y, a: r.f(-1.0, 1.0) }
    });
    f.d = r.f(0.5, 3.0);
    f.group = -1;
    f
}

fn body(r: &mut Rng, t: u8, x: f32, y: f32) -> (BodySpec, f32) {
    let mut b = BodySpec { t, x, y, a: if r.chance(0.5) { r.f(-2.0, 2.0) } else { 0.0 }, ..Default::default() };
    b.sleep = false;
    if r.chance(0.3) {
        b.ld = r.f(0.0, 2.0);
        b.ad = r.f(0.0, 2.0);
    }
    b.fix.push(shape(r));
    if r.chance(0.2) {
        b.fix.push(shape(r));
    }
    let m = b.fix.iter().map(|f| geom::mass_of(&f.shape).0 * f.d as f64).sum::<f64>() as f32;
    (b, m)
}

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C15", seed);
    c.set("no_sleep", 1.0);
    if r.chance(0.1) {
        c.set("no_warm", 1.0);
    }
    if r.chance(0.3) {
        c.set("no_toi", 1.0);
    }
    let kinds = [JK::Distance, JK::Friction, JK::Gear, JK::Mouse, JK::Motor, JK::Pulley, JK::Revolute, JK::Prismatic, JK::Weld, JK::Wheel];
    let k = *r.pick(&kinds);
    let tree = matches!(k, JK::Revolute | JK::Weld | JK::Distance) && r.chance(0.25);
    let mut ta = *r.pick(&[0u8, 0, 1, 2]);
    if k == JK::Pulley {
        ta = *r.pick(&[0u8, 2, 2]);
    }
    if tree {
        ta = 0;
    }
    if k == JK::Gear {
        ta = *r.pick(&[0u8, 2, 2]);
    }
    let g = if k == JK::Mouse || (ta == 2 && k != JK::Pulley) || r.chance(0.3) { (0.0, 0.0) } else { (r.f(-3.0, 3.0), -r.f(1.0, 10.0)) };
    c.set("gx", g.0 as f64);
    c.set("gy", g.1 as f64);
    let vi = if c.on("no_warm") || r.chance(0.4) { 60 } else { r.int(8, 12) as u8 };
    let pi = r.int(4, 10) as u8;
    let (mut a, ma) = body(&mut r, ta, 0.0, 0.0);
    if ta == 1 && r.chance(0.5) {
        a.vx = r.f(-1.0, 1.0);
        a.vy = r.f(-1.0, 1.0);
        a.w = r.f(-1.0, 1.0);
    }
    c.ops.push(Op::Body(a));
    let far = |r: &mut Rng| {
        let (d, t) = (r.f(0.6, 2.0), r.f(-3.1, 3.1));
        (d * t.cos(), d * t.sin())
    };
    let (bx, by) = far(&mut r);
    let (mut b, mb) = body(&mut r, 2, bx, by);
    if matches!(k, JK::Revolute | JK::Distance) && r.chance(0.05) {
        b.fixed = true;
    }
    c.ops.push(Op::Body(b));
    let m = if ta == 2 { ma * mb / (ma + mb) } else { mb };
    let joint = |r: &mut Rng, k: JK, a: u32, b: u32, bx: f32, by: f32, m: f32| {
        let t = if r.chance(0.3) { r.f(-0.2, 1.2) } else { r.f(0.6, 1.1) };
        let mut s = JointSpec { k, a, b, x: bx * t, y: by * t, ang: r.f(-3.1, 3.1), p: [0.0; 4], limit: r.chance(0.5), motor: r.chance(0.5), collide: false };
        // A spring that is neither slow nor unreasonably stiff.
        let om = r.f(4.0, 12.0);
        let ks = m * om * om;
        let cs = 2.0 * r.f(0.4, 1.2) * om * m;
        match k {
            JK::Distance => {
                s.x = r.f(-0.3, 0.3);
                s.y = r.f(-0.3, 0.3);
                s.p = [r.f(0.1, 0.8), r.f(0.1, 0.8), ks / 10.0, cs]
            }
            JK::Mouse => {
                s.x = r.f(-0.3, 0.3);
                s.y = r.f(-0.3, 0.3);
                s.p = [r.f(1.0, 10.0) * m, ks / 10.0, cs, 0.0]
            }
            JK::Friction => s.p = [r.f(0.5, 20.0) * m, r.f(0.5, 10.0) * m, 0.0, 0.0],
            JK::Motor => s.p = [r.f(0.5, 6.0) * m, r.f(0.5, 6.0) * m, r.f(-2.0, 2.0), r.f(-2.0, 2.0)],
            JK::Pulley => s.p = [r.f(0.0, 1.5), r.f(0.0, 3.0), r.f(0.0, 3.0), 0.0],
            JK::Weld => s.p = [ks / 10.0, cs, 0.0, 0.0],
            JK::Wheel => s.p = [ks.min(40.0) / 20.0, (cs / 2.0).min(2.0), r.f(-4.0, 4.0), r.f(0.0, 3.0)],
            _ => s.p = [r.f(0.0, 2.0), r.f(0.0, 2.0), r.f(-4.0, 4.0), r.f(0.0, 3.0)],
        }
        s
    };
    if k == JK::Gear {
        let mut js = vec![];
        for i in 0..2u32 {
            let kk = *r.pick(&[JK::Revolute, JK::Prismatic]);
            let (x, y) = if i == 0 { (bx, by) } else { far(&mut r) };
            if i == 1 {
                let (b, _) = body(&mut r, 2, x, y);
                c.ops.push(Op::Body(b));
            }
            let mut s = joint(&mut r, kk, 0, 1 + i, x, y, m);
            s.limit = false;
            s.motor = i == 0 && r.chance(0.3);
            js.push(s);
        }
        for s in js {
            c.ops.push(Op::Joint(s));
        }
        let q = r.f(0.4, 2.5) * if r.chance(0.5) { -1.0 } else { 1.0 };
        // The gear may be added when the joints have already moved.
        if r.chance(0.5) {
            for b in 0..3 {
                c.ops.push(Op::Vel { b, x: r.f(-2.0, 2.0), y: r.f(-2.0, 2.0), w: r.f(-2.0, 2.0) });
            }
            for _ in 0..r.int(10, 60) {
                c.ops.push(Op::Step { dt: 1.0 / 60.0, vi: 10, pi: 4 });
            }
        }
        c.ops.push(Op::Joint(JointSpec { k, a: 0, b: 1, x: 0.0, y: 0.0, ang: 0.0, p: [q, 0.0, 0.0, 0.0], limit: false, motor: false, collide: false }));
    } else {
        let s = joint(&mut r, k, 0, 1, bx, by, m);
        c.ops.push(Op::Joint(s));
        if tree {
            let mut at = vec![(0.0f32, 0.0f32), (bx, by)];
            let n = r.int(1, 4) as u32;
            for i in 0..n {
                let (dx, dy) = far(&mut r);
                let par = if r.chance(0.7) { i + 1 } else { r.below(i as usize + 2) as u32 };
                let (x, y) = (at[par as usize].0 + dx, at[par as usize].1 + dy);
                at.push((x, y));
                let (mut b, m) = body(&mut r, 2, x, y);
                // Comparable masses.
                let q = mb / m * r.f(0.5, 1.5);
                b.fix.iter_mut().for_each(|f| f.d *= q);
                let m = m * q;
                c.ops.push(Op::Body(b));
                let kk = *r.pick(&[JK::Revolute, JK::Revolute, JK::Weld, JK::Distance]);
                let mut s = joint(&mut r, kk, par, i + 2, dx, dy, m);
                s.motor = false;
                s.limit = kk == JK::Distance;
                c.ops.push(Op::Joint(s));
            }
        }
    }
    let n = c.ops.iter().filter(|o| matches!(o, Op::Body(_))).count() as u32;
    let (mut ox, mut oy) = (0.0, 0.0);
    let rounds = r.int(1, if thorough { 4 } else { 2 });
    for round in 0..rounds {
        for _ in 0..r.int(if round == 0 { 0 } else { 1 }, 4) {
            let b = r.below(n as usize) as u32;
            let o = match r.weighted(&[3.0, 3.0, 2.0, 2.0, 3.0, 2.0, 1.0, 0.5]) {
                0 if !tree => {
                    let (x, y) = (r.f(-3.0, 3.0) - ox, r.f(-3.0, 3.0) - oy);
                    Op::Transform { b, x, y, a: r.f(-3.0, 3.0) }
                }
                1 if ta == 1 && b == 0 => Op::Vel { b, x: r.f(-1.0, 1.0), y: r.f(-1.0, 1.0), w: r.f(-1.0, 1.0) },
                0 | 1 if tree => Op::Vel { b, x: r.f(-2.0, 2.0), y: r.f(-2.0, 2.0), w: r.f(-2.0, 2.0) },
                1 => Op::Vel { b, x: r.f(-8.0, 8.0), y: r.f(-8.0, 8.0), w: r.f(-6.0, 6.0) },
                2 => Op::Impulse { b, k: r.below(3) as u8, x: r.f(-4.0, 4.0), y: r.f(-4.0, 4.0), ox: r.f(-0.5, 0.5), oy: r.f(-0.5, 0.5), wake: true },
                3 => Op::Force { b, k: r.below(3) as u8, x: r.f(-40.0, 40.0), y: r.f(-40.0, 40.0), ox: r.f(-0.5, 0.5), oy: r.f(-0.5, 0.5), wake: true },
                4 => {
                    let v = r.f(-3.0, 3.0);
                    let v2 = if r.chance(0.15) { v } else { r.f(-3.0, 3.0) };
                    let w = r.below(7) as u8;
                    if r.chance(0.25) {
                        // The next call changes one of the two values only.
                        c.ops.push(Op::JointSet { j: 0, w, v, v2: r.f(-3.0, 3.0) });
                    }
                    Op::JointSet { j: 0, w, v, v2 }
                }
                5 => Op::Step { dt: *r.pick(&[0.1, 0.2, 0.5]), vi, pi },
                6 => Op::Step { dt: if r.chance(0.5) { 0.0 } else { r.f(0.001, 0.05) }, vi: 1, pi: 1 },
                _ => {
                    let (x, y) = (r.f(-20.0, 20.0), r.f(-20.0, 20.0));
                    ox += x;
                    oy += y;
                    Op::Shift { x, y }
                }
            };
            c.ops.push(o);
            if r.chance(0.5) {
                let dt = r.f(1.0 / 120.0, 1.0 / 30.0);
                c.ops.push(Op::Step { dt, vi, pi });
            }
        }
        let jitter = r.chance(0.7);
        let base = r.f(1.0 / 200.0, 1.0 / 40.0);
        let mut t = 0.0;
        while t < SETTLE as f32 + if k == JK::Motor { 1.6 } else { 0.8 } {
            let dt = if jitter { base * r.f(0.6, 1.6) } else { base };
            t += dt;
            c.ops.push(Op::Step { dt, vi, pi });
        }
    }
    c
}

type V = (f64, f64);

#[derive(Clone, Copy, Default)]
struct Bd {
    p: V,
    a: f64,
    c: V,
    v: V,
    w: f64,
}

impl Bd {
    fn of(b: &MB) -> Bd {
        let p = b.ptr.borrow();
        let (x, c, v) = (p.get_position(), p.get_world_center(), p.get_linear_velocity());
        Bd { p: (x.x as f64, x.y as f64), a: p.get_angle() as f64, c: (c.x as f64, c.y as f64), v: (v.x as f64, v.y as f64), w: p.get_angular_velocity() as f64 }
    }
    fn at(&self, l: V) -> V {
        let d = self.dir(l);
        (self.p.0 + d.0, self.p.1 + d.1)
    }
    fn dir(&self, l: V) -> V {
        let (s, c) = self.a.sin_cos();
        (c * l.0 - s * l.1, s * l.0 + c * l.1)
    }
    fn local(&self, p: V) -> V {
        let (s, c) = self.a.sin_cos();
        let d = sub(p, self.p);
        (c * d.0 + s * d.1, -s * d.0 + c * d.1)
    }
    /// Velocity of a point after the solve, with the lever arm from before it, as solved for.
    fn lever(&self, n: &Bd, p: V) -> V {
        let r = sub(p, self.c);
        (n.v.0 - n.w * r.1, n.v.1 + n.w * r.0)
    }
    fn vel(&self, p: V) -> V {
        let d = sub(p, self.c);
        (self.v.0 - self.w * d.1, self.v.1 + self.w * d.0)
    }
}

fn sub(a: V, b: V) -> V {
    (a.0 - b.0, a.1 - b.1)
}
fn dot(a: V, b: V) -> f64 {
    a.0 * b.0 + a.1 * b.1
}
fn len(a: V) -> f64 {
    a.0.hypot(a.1)
}
fn f2(v: box2d_rs::b2_math::B2vec2) -> V {
    (v.x as f64, v.y as f64)
}

/// What the joint was told, in our own words.
#[derive(Clone, Default)]
struct Set {
    la: V,
    lb: V,
    axis: V,
    refa: f64,
    limit: bool,
    lo: f64,
    hi: f64,
    motor: bool,
    speed: f64,
    maxm: f64,
    length: f64,
    k: f64,
    c: f64,
    maxf: f64,
    maxt: f64,
    off: V,
    aoff: f64,
    factor: f64,
    target: V,
    ga: V,
    gb: V,
    l0a: f64,
    l0b: f64,
    ratio: f64,
    /// Sum kept constant by a gear or pulley.
    sum: f64,
}

#[derive(Default)]
struct M {
    set: BTreeMap<u32, Set>,
    was: BTreeMap<u32, Bd>,
    quiet: f64,
    judged: u32,
    moved: bool,
    /// A teleport over a distance that need not be recovered from.
    far: bool,
    /// Joints put so far outside their limits that the way back may take long.
    out: BTreeSet<u32>,
    disturbed: bool,
    /// Steps in a row in which a joint with a force limit did not reach it.
    easy: BTreeMap<u32, u32>,
}

const SLOP: f64 = 0.005;

impl M {
    fn define(&mut self, sim: &Sim, j: &MJ) {
        let s = &j.s;
        let (Some(a), Some(b)) = (sim.body(j.a), sim.body(j.b)) else { return };
        let (a, b) = (Bd::of(a), Bd::of(b));
        let q = |i: usize| s.p[i] as f64;
        let anchor = (a.p.0 + s.x as f64, a.p.1 + s.y as f64);
        let axis = ((s.ang as f64).cos(), (s.ang as f64).sin());
        let mut t = Set { la: a.local(anchor), lb: b.local(anchor), refa: b.a - a.a, limit: s.limit, motor: s.motor, ..Default::default() };
        t.lo = -q(0).abs();
        t.hi = q(1).abs();
        t.speed = q(2);
        t.maxm = q(3).abs() * 10.0;
        match s.k {
            JK::Distance => {
                t.lb = (0.0, 0.0);
                t.length = len(sub(b.p, anchor)).max(0.05);
                t.lo = t.length * (1.0 - q(0).abs().min(0.9));
                t.hi = t.length * (1.0 + q(1).abs());
                if s.limit {
                    t.lo = t.length;
                    t.hi = t.length;
                }
                if s.motor {
                    t.k = q(2).abs() * 10.0;
                    t.c = q(3).abs();
                }
            }
            JK::Friction => {
                t.maxf = q(0).abs();
                t.maxt = q(1).abs();
            }
            JK::Mouse => {
                t.target = (b.p.0 + s.x as f64, b.p.1 + s.y as f64);
                t.lb = b.local(t.target);
                t.maxf = q(0).abs() * 20.0;
                t.k = q(1).abs() * 10.0 + 0.1;
                t.c = q(2).abs() + 0.01;
            }
            JK::Motor => {
                t.off = if s.motor { (q(2), q(3)) } else { a.local(b.p) };
                t.aoff = b.a - a.a;
                t.maxf = q(0).abs() * 10.0;
                t.maxt = q(1).abs() * 10.0;
                t.factor = if s.limit { 0.3f32 as f64 } else { 1.0 };
            }
            JK::Pulley => {
                t.la = (0.0, 0.0);
                t.lb = (0.0, 0.0);
                t.ratio = 0.5 + q(0).abs().min(2.0);
                t.l0a = 2.0 + q(1).abs();
                t.l0b = 2.0 + q(2).abs();
                t.ga = (a.p.0, a.p.1 + t.l0a);
                t.gb = (b.p.0, b.p.1 + t.l0b);
                t.sum = t.l0a + t.ratio * t.l0b;
            }
            JK::Prismatic | JK::Wheel => {
                let z = Bd { p: (0.0, 0.0), ..a };
                t.axis = z.local(axis);
                if s.k == JK::Wheel {
                    t.k = q(0).abs() * 20.0;
                    t.c = q(1).abs() * 2.0;
                }
            }
            JK::Weld => {
                if s.motor {
                    t.k = q(0).abs() * 10.0;
                    t.c = q(1).abs();
                }
            }
            JK::Gear => {
                t.ratio = q(0);
                let (Some(x), Some(y)) = (self.coord(sim, j.deps[0]), self.coord(sim, j.deps[1])) else { return };
                t.sum = x + t.ratio * y;
            }
            JK::Revolute => {}
        }
        self.set.insert(j.id, t);
    }

    /// The coordinate of a revolute or prismatic joint.
    fn coord(&self, sim: &Sim, id: u32) -> Option<f64> {
        let j = sim.joints.iter().find(|j| j.id == id)?;
        let t = self.set.get(&id)?;
        let (a, b) = (Bd::of(sim.body(j.a)?), Bd::of(sim.body(j.b)?));
        Some(match j.s.k {
            JK::Revolute => b.a - a.a - t.refa,
            _ => dot(sub(b.at(t.lb), a.at(t.la)), a.dir(t.axis)),
        })
    }

    fn told(&mut self, id: u32, k: JK, w: u8, v: f32, v2: f32) {
        let Some(t) = self.set.get_mut(&id) else { return };
        let soft = crate::exec::firm(v) as f64;
        let (v, v2) = (v as f64, v2 as f64);
        match k {
            JK::Distance => match w % 5 {
                0 => t.length = v.abs() + 0.05,
                1 => t.lo = v.abs().max(SLOP).min(t.hi),
                2 => t.hi = (v.abs() + v2.abs()).max(t.lo),
                3 => t.k = soft * 5.0,
                _ => t.c = soft,
            },
            JK::Friction => match w % 2 {
                0 => t.maxf = v.abs() * 5.0,
                _ => t.maxt = v.abs() * 5.0,
            },
            JK::Gear => t.ratio = if v.abs() < 0.1 { 0.5 } else { v.max(-3.0).min(3.0) },
            JK::Mouse => match w % 4 {
                0 => t.target = (v, v2),
                1 => t.maxf = v.abs() * 20.0,
                2 => t.k = v.abs() * 5.0 + 0.1,
                _ => t.c = v.abs() + 0.01,
            },
            JK::Motor => match w % 5 {
                0 => t.off = (v, v2),
                1 => t.aoff = v,
                2 => t.maxf = v.abs() * 10.0,
                3 => t.maxt = v.abs() * 10.0,
                _ => t.factor = v.abs().min(1.0),
            },
            JK::Pulley => {}
            JK::Revolute | JK::Prismatic | JK::Wheel => match w % if k == JK::Wheel { 7 } else { 5 } {
                0 => t.limit = v > 0.0,
                1 => {
                    t.lo = v.min(v2);
                    t.hi = v.max(v2);
                }
                2 => t.motor = v > 0.0,
                3 => t.speed = v,
                4 => t.maxm = v.abs() * 10.0,
                5 => t.k = soft * 5.0,
                _ => t.c = soft,
            },
            JK::Weld => match w % 2 {
                0 => t.k = soft * 5.0,
                _ => t.c = soft,
            },
        }
    }

    /// What the joint reports about itself agrees with what it was told and where the bodies are.
    fn reports(&self, sim: &Sim, j: &MJ, ctx: &mut Ctx) -> Res {
        let Some(t) = self.set.get(&j.id) else { return Ok(()) };
        let (Some(ba), Some(bb)) = (sim.body(j.a), sim.body(j.b)) else { return Ok(()) };
        let (a, b) = (Bd::of(ba), Bd::of(bb));
        let (pa, pb) = (a.at(t.la), b.at(t.lb));
        let (va, vb) = (a.vel(pa), b.vel(pb));
        let mut got: Vec<(&str, f64, f64)> = vec![];
        let p = j.ptr.borrow();
        let (ra, rb) = (f2(p.get_anchor_a()), f2(p.get_anchor_b()));
        let (ea, eb) = match j.s.k {
            JK::Mouse => (t.target, pb),
            JK::Motor => (a.p, b.p),
            JK::Gear => (ra, rb),
            _ => (pa, pb),
        };
        got.push(("anchor a x", ra.0, ea.0));
        got.push(("anchor a y", ra.1, ea.1));
        got.push(("anchor b x", rb.0, eb.0));
        got.push(("anchor b y", rb.1, eb.1));
        let flag = |b: bool| if b { 1.0 } else { 0.0 };
        match p.as_derived() {
            JointAsDerived::EDistanceJoint(d) => {
                got.push(("length", d.get_length() as f64, t.length));
                got.push(("least length", d.get_min_length() as f64, t.lo));
                got.push(("greatest length", d.get_max_length() as f64, t.hi));
                got.push(("current length", d.get_current_length() as f64, len(sub(pb, pa))));
                got.push(("stiffness", d.get_stiffness() as f64, t.k));
                got.push(("damping", d.get_damping() as f64, t.c));
            }
            JointAsDerived::EFrictionJoint(d) => {
                got.push(("max force", d.get_max_force() as f64, t.maxf));
                got.push(("max torque", d.get_max_torque() as f64, t.maxt));
            }
            JointAsDerived::EGearJoint(d) => got.push(("ratio", d.get_ratio() as f64, t.ratio)),
            JointAsDerived::EMouseJoint(d) => {
                let g = f2(d.get_target());
                got.push(("target x", g.0, t.target.0));
                got.push(("target y", g.1, t.target.1));
                got.push(("max force", d.get_max_force() as f64, t.maxf));
                got.push(("stiffness", d.get_stiffness() as f64, t.k));
                got.push(("damping", d.get_damping() as f64, t.c));
            }
            JointAsDerived::EMotorJoint(d) => {
                let o = f2(d.get_linear_offset());
                got.push(("offset x", o.0, t.off.0));
                got.push(("offset y", o.1, t.off.1));
                got.push(("angular offset", d.get_angular_offset() as f64, t.aoff));
                got.push(("max force", d.get_max_force() as f64, t.maxf));
                got.push(("max torque", d.get_max_torque() as f64, t.maxt));
                got.push(("correction factor", d.get_correction_factor() as f64, t.factor));
            }
            JointAsDerived::EPulleyJoint(d) => {
                let (ga, gb) = (f2(d.get_ground_anchor_a()), f2(d.get_ground_anchor_b()));
                got.push(("ground a x", ga.0, t.ga.0));
                got.push(("ground a y", ga.1, t.ga.1));
                got.push(("ground b x", gb.0, t.gb.0));
                got.push(("ground b y", gb.1, t.gb.1));
                got.push(("ratio", d.get_ratio() as f64, t.ratio));
                got.push(("length a", d.get_length_a() as f64, t.l0a));
                got.push(("length b", d.get_length_b() as f64, t.l0b));
                got.push(("current length a", d.get_current_length_a() as f64, len(sub(pa, t.ga))));
                got.push(("current length b", d.get_current_length_b() as f64, len(sub(pb, t.gb))));
            }
            JointAsDerived::ERevoluteJoint(d) => {
                got.push(("angle", d.get_joint_angle() as f64, b.a - a.a - t.refa));
                got.push(("speed", d.get_joint_speed() as f64, b.w - a.w));
                got.push(("limit flag", flag(d.is_limit_enabled()), flag(t.limit)));
                got.push(("lower limit", d.get_lower_limit() as f64, t.lo));
                got.push(("upper limit", d.get_upper_limit() as f64, t.hi));
                got.push(("motor flag", flag(d.is_motor_enabled()), flag(t.motor)));
                got.push(("motor speed", d.get_motor_speed() as f64, t.speed));
                got.push(("max torque", d.get_max_motor_torque() as f64, t.maxm));
            }
            JointAsDerived::EPrismaticJoint(d) => {
                let (tr, sp) = slide(&a, &b, pa, pb, va, vb, t.axis);
                got.push(("translation", d.get_joint_translation() as f64, tr));
                got.push(("speed", d.get_joint_speed() as f64, sp));
                got.push(("limit flag", flag(d.is_limit_enabled()), flag(t.limit)));
                got.push(("lower limit", d.get_lower_limit() as f64, t.lo));
                got.push(("upper limit", d.get_upper_limit() as f64, t.hi));
                got.push(("motor flag", flag(d.is_motor_enabled()), flag(t.motor)));
                got.push(("motor speed", d.get_motor_speed() as f64, t.speed));
                got.push(("max force", d.get_max_motor_force() as f64, t.maxm));
            }
            JointAsDerived::EWeldJoint(d) => {
                got.push(("reference angle", d.get_reference_angle() as f64, t.refa));
                got.push(("stiffness", d.get_stiffness() as f64, t.k));
                got.push(("damping", d.get_damping() as f64, t.c));
            }
            JointAsDerived::EWheelJoint(d) => {
                let (tr, sp) = slide(&a, &b, pa, pb, va, vb, t.axis);
                got.push(("translation", d.get_joint_translation() as f64, tr));
                got.push(("linear speed", d.get_joint_linear_speed() as f64, sp));
                got.push(("angle", d.get_joint_angle() as f64, b.a - a.a));
                got.push(("angular speed", d.get_joint_angular_speed() as f64, b.w - a.w));
                got.push(("limit flag", flag(d.is_limit_enabled()), flag(t.limit)));
                got.push(("lower limit", d.get_lower_limit() as f64, t.lo));
                got.push(("upper limit", d.get_upper_limit() as f64, t.hi));
                got.push(("motor flag", flag(d.is_motor_enabled()), flag(t.motor)));
                got.push(("motor speed", d.get_motor_speed() as f64, t.speed));
                got.push(("max torque", d.get_max_motor_torque() as f64, t.maxm));
                got.push(("stiffness", d.get_stiffness() as f64, t.k));
                got.push(("damping", d.get_damping() as f64, t.c));
            }
        }
        let scale = 1.0 + a.p.0.abs() + a.p.1.abs() + b.p.0.abs() + b.p.1.abs() + (a.a.abs() + b.a.abs()) * 0.3;
        for (n, g, e) in got {
            ctx.st.evals += 1;
            let speed = n.contains("speed") && !n.contains("motor");
            let tol = 4e-6 * (scale + g.abs() + e.abs()) * if speed { 3.0 + len(a.v) + len(b.v) + a.w.abs() + b.w.abs() } else { 1.0 };
            if !((g - e).abs() <= tol) {
                return viol("report", format!("{:?} joint {}: the reported {n} is {g}, expected {e}", j.s.k, j.id));
            }
        }
        Ok(())
    }

    /// Force limits and spring laws of the step just made.
    fn forces(&self, sim: &Sim, j: &MJ, h: f64, vi: u8, ctx: &mut Ctx) -> Res {
        let Some(t) = self.set.get(&j.id) else { return Ok(()) };
        let (Some(ba), Some(bb)) = (sim.body(j.a), sim.body(j.b)) else { return Ok(()) };
        let (Some(a0), Some(b0)) = (self.was.get(&j.a), self.was.get(&j.b)) else { return Ok(()) };
        let (a, b) = (Bd::of(ba), Bd::of(bb));
        let p = j.ptr.borrow();
        let inv = (1.0 / h) as f32;
        let f = f2(p.get_reaction_force(inv));
        let tq = p.get_reaction_torque(inv) as f64;
        let over = |x: f64, m: f64| !(x <= m * 1.0001 + 1e-4);
        let (pa, pb) = (a0.at(t.la), b0.at(t.lb));
        let (va, vb) = (a0.lever(&a, pa), b0.lever(&b, pb));
        // A step that ran into the speed limits changed the velocities after the solve.
        let clipped = [&a, &b].iter().any(|x| h * len(x.v) > 1.9 || h * x.w.abs() > 1.5);
        let alone = sim.joints.len() == 1 && !clipped;
        match p.as_derived() {
            JointAsDerived::EFrictionJoint(_) | JointAsDerived::EMotorJoint(_) => {
                ctx.st.evals += 1;
                if over(len(f), t.maxf) || over(tq.abs(), t.maxt) {
                    return viol("force-limit", format!("{:?} joint {}: force {} and torque {tq} exceed the limits {} and {}", j.s.k, j.id, len(f), t.maxf, t.maxt));
                }
                // Not held back, a motor joint takes its share off the error in each step.
                if j.s.k == JK::Motor && alone && bb.s.t == 2 && bb.ptr.borrow().get_mass() > 0.0 && len(f) < 0.98 * t.maxf {
                    let (o, q) = (a0.at(t.off), b0.p);
                    let e = sub(q, o);
                    let v = sub(b0.lever(&b, q), a0.lever(&a, o));
                    let w = (-t.factor * e.0 / h, -t.factor * e.1 / h);
                    let tol = 0.01 + 0.01 * len(w) + 0.001 * (len(a.v) + len(b.v));
                    ctx.max("motor_law", len(sub(v, w)) / tol);
                    if !(len(sub(v, w)) <= tol) {
                        return viol("motor-law", format!("motor joint {}: {e:?} off its target it closes in with {v:?}, its share of the error is {w:?}", j.id));
                    }
                    let (e, v) = (b0.a - a0.a - t.aoff, b.w - a.w);
                    let w = -t.factor * e / h;
                    if ba.s.t != 2 && vi >= 60 && self.quiet > 0.3 && tq.abs() < 0.5 * t.maxt && len(f) < 0.5 * t.maxf && !bb.s.fixed && !self.awkward(sim) {
                        let tol = 0.1 + 0.1 * w.abs();
                        ctx.max("motor_turn", (v - w).abs() / tol);
                        if !((v - w).abs() <= tol) {
                            return viol("motor-law", format!("motor joint {}: {e} off its angle it turns with {v}, its share of the error is {w}", j.id));
                        }
                    }
                }
            }
            JointAsDerived::EMouseJoint(_) => {
                ctx.st.evals += 1;
                if over(len(f), t.maxf) {
                    return viol("force-limit", format!("mouse joint {}: force {} exceeds the limit {}", j.id, len(f), t.maxf));
                }
                if alone && len(f) < 0.98 * t.maxf {
                    let d = sub(pb, t.target);
                    let e = (-(t.k * d.0 + (t.c + h * t.k) * vb.0), -(t.k * d.1 + (t.c + h * t.k) * vb.1));
                    let tol = spring_tol(len(e), t.k * len(d), (t.c + h * t.k) * len(vb));
                    ctx.max("mouse_law", len(sub(f, e)) / tol);
                    if !(len(sub(f, e)) <= tol) {
                        return viol("spring-law", format!("mouse joint {}: pulls with {f:?}, its spring law gives {e:?}", j.id));
                    }
                }
            }
            JointAsDerived::EDistanceJoint(_) => {
                let d = sub(pb, pa);
                let l = len(d);
                // One pass cannot undo what a limit left to start from.
                if t.lo < t.hi && l > 0.05 && alone && vi >= 4 {
                    let u = (d.0 / l, d.1 / l);
                    let cd = dot(sub(vb, va), u);
                    let margin = 0.02 + h * 2.0 * cd.abs() + h * 20.0;
                    let margin0 = h * 2.0 * dot(sub(b0.vel(pb), a0.vel(pa)), u).abs();
                    if l > t.lo + margin + margin0 && l < t.hi - margin - margin0 {
                        let e = if t.k > 0.0 { -(t.k * (l - t.length) + (t.c + h * t.k) * cd) } else { 0.0 };
                        let got = dot(f, u);
                        let tol = spring_tol(e.abs(), t.k * (l - t.length).abs(), (t.c + h * t.k) * cd.abs());
                        ctx.st.evals += 1;
                        ctx.max("distance_law", (got - e).abs() / tol);
                        if t.k == 0.0 {
                            ctx.probe("slack_distance");
                        }
                        if !((got - e).abs() <= tol) {
                            return viol("spring-law", format!("distance joint {}: pulls with {got} at length {l} (rest {}, stiffness {}, damping {}), its law gives {e}", j.id, t.length, t.k, t.c));
                        }
                    }
                }
            }
            JointAsDerived::EWeldJoint(_) => {
                if t.k > 0.0 && alone && h < 0.06 && self.quiet > 1.0 && !self.awkward(sim) {
                    let c = b0.a - a0.a - t.refa;
                    let cd = b.w - a.w;
                    let e = -(t.k * c + (t.c + h * t.k) * cd);
                    let tol = spring_tol(e.abs(), t.k * c.abs(), (t.c + h * t.k) * cd.abs()) + 0.02 * len(f);
                    ctx.st.evals += 1;
                    if vi >= 60 {
                        ctx.max("weld_law", (tq - e).abs() / tol);
                    }
                    if vi >= 60 && !((tq - e).abs() <= tol) {
                        return viol("spring-law", format!("weld joint {}: turns with {tq} at angle {c}, its law gives {e}", j.id));
                    }
                }
            }
            JointAsDerived::ERevoluteJoint(d) => {
                let m = d.get_motor_torque(inv) as f64;
                ctx.st.evals += 1;
                if over(m.abs(), if t.motor { t.maxm } else { 0.0 }) {
                    return viol("force-limit", format!("revolute joint {}: motor torque {m} exceeds {}", j.id, t.maxm));
                }
            }
            JointAsDerived::EPrismaticJoint(d) => {
                let m = d.get_motor_force(inv) as f64;
                ctx.st.evals += 1;
                if over(m.abs(), if t.motor { t.maxm } else { 0.0 }) {
                    return viol("force-limit", format!("prismatic joint {}: motor force {m} exceeds {}", j.id, t.maxm));
                }
            }
            JointAsDerived::EWheelJoint(d) => {
                let m = d.get_motor_torque(inv) as f64;
                ctx.st.evals += 1;
                if over(m.abs(), if t.motor { t.maxm } else { 0.0 }) {
                    return viol("force-limit", format!("wheel joint {}: motor torque {m} exceeds {}", j.id, t.maxm));
                }
                let ax = a0.dir(t.axis);
                let dd = sub(pb, pa);
                let c = dot(dd, ax);
                // The axis turns with the first body.
                let cd = dot(sub(vb, va), ax) + a.w * (-ax.1 * dd.0 + ax.0 * dd.1);
                let margin = 0.02 + h * 2.0 * cd.abs() + h * 20.0;
                let free = !t.limit || (c > t.lo + margin && c < t.hi - margin);
                if alone && free && vi >= 60 && h < 0.06 && self.quiet > 1.0 && !self.awkward(sim) {
                    let e = if t.k > 0.0 { -(t.k * c + (t.c + h * t.k) * cd) } else { 0.0 };
                    let got = dot(f, ax);
                    let tol = spring_tol(e.abs(), t.k * c.abs(), (t.c + h * t.k) * cd.abs()) + 0.02 * len(f);
                    ctx.max("wheel_law", (got - e).abs() / tol);
                    if !((got - e).abs() <= tol) {
                        return viol("spring-law", format!("wheel joint {}: pushes with {got} along its axis at {c}, its law gives {e}", j.id));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }

    /// The last thing solved in a step is exact when nothing else acts on the two bodies.
    fn solved(&self, sim: &Sim, j: &MJ, h: f64, vi: u8, ctx: &mut Ctx) -> Res {
        if sim.joints.len() != 1 || sim.bodies.len() != 2 || j.s.collide || vi < 1 {
            return Ok(());
        }
        let Some(t) = self.set.get(&j.id) else { return Ok(()) };
        let (Some(ba), Some(bb)) = (sim.body(j.a), sim.body(j.b)) else { return Ok(()) };
        let (Some(a0), Some(b0)) = (self.was.get(&j.a), self.was.get(&j.b)) else { return Ok(()) };
        let ok = |x: &MB| {
            let p = x.ptr.borrow();
            x.s.t == 2 && x.s.enabled && !x.s.fixed && p.is_awake() && p.get_mass() > 0.0 && p.get_inertia() > 0.0
        };
        if !ok(bb) || !(ok(ba) || ba.s.t != 2 && ba.s.enabled) {
            return Ok(());
        }
        let (a, b) = (Bd::of(ba), Bd::of(bb));
        if [&a, &b].iter().any(|x| h * len(x.v) > 1.9 || h * x.w.abs() > 1.5) {
            return Ok(());
        }
        let p = j.ptr.borrow();
        let f = f2(p.get_reaction_force((1.0 / h) as f32));
        let (pa, pb) = (a0.at(t.la), b0.at(t.lb));
        let (va, vb) = (a0.lever(&a, pa), b0.lever(&b, pb));
        let dv = sub(vb, va);
        let size = len(va) + len(vb) + len(a0.vel(pa)) + len(b0.vel(pb));
        let mut bad: Vec<(&str, f64)> = vec![];
        match j.s.k {
            JK::Revolute => bad.push(("anchor", len(dv))),
            JK::Weld => {
                bad.push(("anchor", len(dv)));
                if t.k == 0.0 {
                    bad.push(("turn", b.w - a.w));
                }
            }
            JK::Friction if len(f) < 0.98 * t.maxf => bad.push(("anchor", len(dv))),
            JK::Prismatic | JK::Wheel => {
                let ax = a0.dir(t.axis);
                let y = (-ax.1, ax.0);
                // The first body carries its axis along to where the second is held.
                let dv = sub(vb, a0.lever(&a, pb));
                bad.push(("across", dot(dv, y)));
                if j.s.k == JK::Prismatic {
                    bad.push(("turn", b.w - a.w));
                }
            }
            JK::Pulley => {
                let (x, y) = (sub(pa, t.ga), sub(pb, t.gb));
                let (lx, ly) = (len(x), len(y));
                if lx > 0.3 && ly > 0.3 {
                    bad.push(("rope", (dot(x, va) / lx + t.ratio * dot(y, vb) / ly) / (1.0 + t.ratio)));
                }
            }
            JK::Distance => {
                let d = sub(pb, pa);
                let l = len(d);
                if l > 0.05 {
                    let u = (d.0 / l, d.1 / l);
                    let (rate, pull) = (dot(dv, u), dot(f, u));
                    let (up, down) = ((t.hi - l).max(0.0) / h, -(l - t.lo).max(0.0) / h);
                    if t.lo >= t.hi {
                        bad.push(("rod", rate));
                    } else if self.quiet > 0.3 && (t.hi - t.lo) * vi as f64 / h > 20.0 * (1.0 + size) && t.k == 0.0 {
                        // Each pass undoes only so much of what the two limits started from.
                        if pull > 1e-3 {
                            bad.push(("at lower", rate - down));
                        } else if pull < -1e-3 {
                            bad.push(("at upper", rate - up));
                        }
                    } else {
                        bad.push(("past upper", (rate - up).max(0.0)));
                    }
                }
            }
            _ => {}
        }
        for (what, e) in bad {
            // Three coupled unknowns and a long way along the axis cost digits.
            let loss = if matches!(j.s.k, JK::Prismatic | JK::Weld) { 4.0 * (1.0 + len(sub(pb, a0.c))) } else { 1.0 };
            let tol = (0.004 + 5e-4 * size) * loss;
            ctx.st.evals += 1;
            ctx.max(&format!("solved {:?} {what}", j.s.k), e.abs() / tol);
            if !(e.abs() <= tol) {
                return viol("velocity", format!("{:?} joint {}, {what}: alone with its two bodies it left a speed of {e} in a step of {h}", j.s.k, j.id));
            }
        }
        Ok(())
    }

    /// Long arms to bodies that turn easily converge too slowly to be judged.
    fn awkward(&self, sim: &Sim) -> bool {
        let tree = sim.joints.len() > 1;
        let gear = geared(sim);
        let arm = |m: &MB, p: V| {
            let b = Bd::of(m);
            let q = m.ptr.borrow();
            let lc = f2(q.get_local_center());
            let (mass, i) = (q.get_mass() as f64, q.get_inertia() as f64);
            let ic = i - mass * dot(lc, lc);
            let r = sub(p, b.c);
            m.s.t == 2 && !m.s.fixed && mass * dot(r, r) > ic * if !sim.flags[1] { 2.0 } else if tree && !gear { 4.0 } else { 6.0 }
        };
        for j in &sim.joints {
            let (Some(t), Some(ba), Some(bb)) = (self.set.get(&j.id), sim.body(j.a), sim.body(j.b)) else { return true };
            let (pa, pb) = (Bd::of(ba).at(t.la), Bd::of(bb).at(t.lb));
            if arm(ba, pa) || arm(bb, pb) || matches!(j.s.k, JK::Prismatic | JK::Wheel) && arm(ba, pb) {
                return true;
            }
        }
        false
    }

    /// The constraint itself, after a quiet time.
    fn holds(&mut self, sim: &Sim, j: &MJ, h: f64, ctx: &mut Ctx) -> Res {
        let Some(t) = self.set.get(&j.id) else { return Ok(()) };
        let (Some(ba), Some(bb)) = (sim.body(j.a), sim.body(j.b)) else { return Ok(()) };
        let (a, b) = (Bd::of(ba), Bd::of(bb));
        let (pa, pb) = (a.at(t.la), b.at(t.lb));
        let (va, vb) = (a.vel(pa), b.vel(pb));
        let p = j.ptr.borrow();
        let inv = (1.0 / h) as f32;
        let f = len(f2(p.get_reaction_force(inv)));
        let tq = p.get_reaction_torque(inv) as f64;
        let tree = sim.joints.len() > 1;
        let gear = geared(sim);
        let gap = len(sub(pb, pa));
        // A body that cannot turn may not be able to follow.
        let stuck = |m: &MB| m.s.t == 2 && (m.s.fixed || m.ptr.borrow().get_inertia() <= 0.0);
        if bb.ptr.borrow().get_mass() <= 0.0 || ba.s.t == 2 && ba.ptr.borrow().get_mass() <= 0.0 || self.far || !self.out.is_empty() {
            return Ok(());
        }
        if (stuck(ba) || stuck(bb)) && (tree || !matches!(j.s.k, JK::Revolute | JK::Distance)) {
            return Ok(());
        }
        // So may one that is dragged along by a fast mover.
        if ba.s.t == 1 && (len(a.v) > 1.5 || a.w.abs() > 1.01) || bb.s.t != 2 {
            return Ok(());
        }
        // Or one flung far out along a turning axis.
        if len(b.v) > 12.0 || gap > 8.0 && j.s.k != JK::Distance {
            return Ok(());
        }
        if self.awkward(sim) {
            return Ok(());
        }
        if tree && !gear {
            let ms: Vec<f64> = sim.bodies.iter().filter(|b| b.s.t == 2).map(|b| b.ptr.borrow().get_mass() as f64).collect();
            let (lo, hi) = ms.iter().fold((f64::MAX, 0.0f64), |a, m| (a.0.min(*m), a.1.max(*m)));
            if hi > 4.0 * lo {
                return Ok(());
            }
        }
        if tree && !gear && self.moved || self.set.values().any(|t| t.limit) && sim.joints.iter().any(|j| j.s.k == JK::Gear) {
            return Ok(());
        }
        let easy = {
            let e = self.easy.entry(j.id).or_insert(0);
            *e = if f < 0.98 * t.maxf && tq.abs() < 0.98 * t.maxt { *e + 1 } else { 0 };
            *e
        };
        // (name, deviation, allowed)
        let mut bad: Vec<(&str, f64, f64)> = vec![];
        let lin = if tree && !gear { 0.3 } else { 0.02 };
        let ang = if tree && !gear { 0.3 } else { 0.1 };
        let outside = |x: f64| if t.limit { (t.lo - x).max(x - t.hi).max(0.0) } else { 0.0 };
        match p.as_derived() {
            JointAsDerived::ERevoluteJoint(d) => {
                let x = b.a - a.a - t.refa;
                let w = b.w - a.w;
                bad.push(("anchors apart", gap, lin));
                let m = d.get_motor_torque(inv) as f64;
                if !stuck(bb) {
                    if !tree {
                        bad.push(("angle beyond its limits", outside(x), ang));
                    }
                    let room = 0.2 + 3.0 * h * w.abs().max(t.speed.abs());
                    if t.motor && !tree && (!t.limit || (x > t.lo + room && x < t.hi - room)) {
                        motor(&mut bad, m, t.maxm, t.speed - w, 0.1 + 0.05 * t.speed.abs());
                    }
                }
            }
            JointAsDerived::EPrismaticJoint(d) => {
                let (x, _) = slide(&a, &b, pa, pb, va, vb, t.axis);
                // The speed as it was solved for: along the axis from before the step.
                let (a0, b0) = (self.was[&j.a], self.was[&j.b]);
                let (qa, qb) = (a0.at(t.la), b0.at(t.lb));
                let w = slide(&Bd { w: a.w, ..a0 }, &b0, qa, qb, a0.lever(&a, qa), b0.lever(&b, qb), t.axis).1;
                let ax = a.dir(t.axis);
                bad.push(("off the axis", (ax.0 * (pb.1 - pa.1) - ax.1 * (pb.0 - pa.0)).abs(), lin));
                bad.push(("turned", (b.a - a.a - t.refa).abs(), ang));
                bad.push(("beyond its limits", outside(x), lin));
                let room = 0.2 + 3.0 * h * w.abs().max(t.speed.abs());
                if t.motor && !tree && (!t.limit || (x > t.lo + room && x < t.hi - room)) {
                    motor(&mut bad, d.get_motor_force(inv) as f64, t.maxm, t.speed - w, 0.1 + 0.05 * t.speed.abs());
                }
            }
            JointAsDerived::EWheelJoint(d) => {
                let (x, _) = slide(&a, &b, pa, pb, va, vb, t.axis);
                let ax = a.dir(t.axis);
                bad.push(("off the axis", (ax.0 * (pb.1 - pa.1) - ax.1 * (pb.0 - pa.0)).abs(), lin));
                bad.push(("beyond its limits", outside(x), lin));
                if t.motor && !tree && (!t.limit || (x > t.lo + 0.2 && x < t.hi - 0.2)) {
                    motor(&mut bad, d.get_motor_torque(inv) as f64, t.maxm, t.speed - (b.w - a.w), 0.1 + 0.05 * t.speed.abs());
                }
            }
            JointAsDerived::EWeldJoint(_) => {
                bad.push(("anchors apart", gap, lin));
                if t.k == 0.0 {
                    bad.push(("turned", (b.a - a.a - t.refa).abs(), ang));
                }
            }
            JointAsDerived::EDistanceJoint(_) => {
                bad.push(("too short", (t.lo - gap).max(0.0), lin));
                bad.push(("too long", (gap - t.hi).max(0.0), lin));
            }
            JointAsDerived::EPulleyJoint(_) => {
                let (x, y) = (len(sub(pa, t.ga)), len(sub(pb, t.gb)));
                if x > 0.5 && y > 0.5 && (ba.s.t == 2 || x + t.ratio * 0.5 < t.sum) {
                    bad.push(("rope length changed", (x + t.ratio * y - t.sum).abs(), lin));
                }
            }
            JointAsDerived::EGearJoint(_) => {
                if let (Some(x), Some(y)) = (self.coord(sim, j.deps[0]), self.coord(sim, j.deps[1])) {
                    bad.push(("coordinates out of ratio", (x + t.ratio * y - t.sum).abs(), ang));
                }
            }
            JointAsDerived::EFrictionJoint(_) => {
                if easy >= 5 {
                    let (a0, b0) = (self.was[&j.a], self.was[&j.b]);
                    let s = sub(b0.lever(&b, b0.at(t.lb)), a0.lever(&a, a0.at(t.la)));
                    bad.push(("anchors slide", len(s), 0.05));
                    bad.push(("turning", (b.w - a.w).abs(), 0.05));
                }
            }
            JointAsDerived::EMotorJoint(_) => {
                if easy >= 60 && t.factor > 0.2 {
                    let e = sub(b.p, a.at(t.off));
                    bad.push(("off its target", len(e), 0.05));
                    bad.push(("off its angle", (b.a - a.a - t.aoff).abs(), ang));
                }
            }
            JointAsDerived::EMouseJoint(_) => {}
        }
        for (n, x, lim) in bad {
            ctx.st.evals += 1;
            ctx.max(&format!("{}{:?} {n}", if tree { "tree " } else { "" }, j.s.k), x);
            if !(x <= lim) {
                return viol("constraint", format!("{:?} joint {}: {n} by {x} after {:.2} s of quiet", j.s.k, j.id, self.quiet));
            }
            self.judged += 1;
        }
        Ok(())
    }
}

/// A motor reaches its speed or pulls with all it has in the right direction.
/// A gear between joints to bodies that do not give way, which is as stiff as one joint.
fn geared(sim: &Sim) -> bool {
    sim.joints.iter().any(|j| j.s.k == JK::Gear)
        && sim.joints.iter().all(|j| j.s.k == JK::Gear || sim.body(j.a).map_or(false, |b| b.s.t != 2))
}

fn motor(bad: &mut Vec<(&str, f64, f64)>, m: f64, max: f64, err: f64, tol: f64) {
    if m.abs() < 0.98 * max {
        bad.push(("motor off its speed", err.abs(), tol));
    } else if max > 0.0 {
        bad.push(("motor pushes the wrong way", if m * err < 0.0 { err.abs() } else { 0.0 }, tol));
    }
}

fn spring_tol(e: f64, x: f64, y: f64) -> f64 {
    0.01 + 0.02 * e + 1e-3 * (x + y)
}

fn slide(a: &Bd, _b: &Bd, pa: V, pb: V, va: V, vb: V, axis: V) -> (f64, f64) {
    let ax = a.dir(axis);
    let d = sub(pb, pa);
    (dot(d, ax), dot(sub(vb, va), ax) + a.w * (-ax.1 * d.0 + ax.0 * d.1))
}

impl Monitor for M {
    fn before(&mut self, sim: &mut Sim, op: &Op, _ctx: &mut Ctx) {
        if matches!(op, Op::Step { .. }) {
            self.was = sim.bodies.iter().map(|b| (b.id, Bd::of(b))).collect();
        }
        if let Op::Transform { b, x, y, .. } = op {
            if let Some(i) = sim.bi(*b) {
                let p = Bd::of(&sim.bodies[i]).p;
                self.far |= len(sub((*x as f64, *y as f64), p)) > 8.0;
            }
        }
        if let Op::JointSet { j, w, v, v2 } = op {
            if !sim.joints.is_empty() {
                let j = sim.joints[*j as usize % sim.joints.len()].clone();
                self.told(j.id, j.s.k, *w, *v, *v2);
            }
        }
    }

    fn after(&mut self, sim: &mut Sim, op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        if let Some(id) = info.new_joint {
            let j = sim.joints.iter().find(|j| j.id == id).unwrap().clone();
            self.define(sim, &j);
        }
        self.moved |= matches!(op, Op::Transform { .. });
        if let Op::Shift { x, y } = op {
            for t in self.set.values_mut() {
                for p in [&mut t.ga, &mut t.gb, &mut t.target] {
                    p.0 -= *x as f64;
                    p.1 -= *y as f64;
                }
            }
        }
        match op {
            Op::Step { dt, vi, pi } if *dt > 0.0 && *dt < 0.06 && *vi >= 6 && *pi >= 3 => self.quiet += *dt as f64,
            Op::Step { dt, .. } if *dt == 0.0 => {}
            _ => {
                self.easy.clear();
                self.disturbed |= !sim.joints.is_empty() && !matches!(op, Op::Joint(_) | Op::Body(_));
                self.quiet = 0.0;
            }
        }
        for j in &sim.joints {
            let (true, Some(t)) = (matches!(j.s.k, JK::Revolute | JK::Prismatic | JK::Wheel), self.set.get(&j.id)) else { continue };
            let Some(x) = self.coord(sim, j.id) else { continue };
            let by = if t.limit { (t.lo - x).max(x - t.hi) } else { 0.0 };
            if by > if j.s.k == JK::Revolute { 3.0 } else { 1.0 } {
                self.out.insert(j.id);
            } else if by < 0.02 {
                self.out.remove(&j.id);
            }
        }
        let there: BTreeSet<u32> = sim.joints.iter().map(|j| j.id).collect();
        self.out.retain(|i| there.contains(i));
        for j in sim.joints.clone() {
            if let (JK::Pulley, Some(t), Some(a), Some(b)) = (j.s.k, self.set.get(&j.id), sim.body(j.a), sim.body(j.b)) {
                let (x, y) = (len(sub(Bd::of(a).p, t.ga)), len(sub(Bd::of(b).p, t.gb)));
                if x.min(y) < 0.5 || x + t.ratio > t.sum || 1.0 + t.ratio * y > t.sum {
                    self.quiet = 0.0;
                }
            }
            self.reports(sim, &j, ctx)?;
            if let Some(dt) = info.dt {
                if dt > 0.0 {
                    self.forces(sim, &j, dt as f64, if let Op::Step { vi, .. } = op { *vi } else { 0 }, ctx)?;
                    self.solved(sim, &j, dt as f64, if let Op::Step { vi, .. } = op { *vi } else { 0 }, ctx)?;
                    if self.quiet > SETTLE && (sim.flags[1] || matches!(op, Op::Step { vi, .. } if *vi >= 60)) {
                        self.holds(sim, &j, dt as f64, ctx)?;
                    }
                }
            }
        }
        if self.judged >= 30 && self.disturbed {
            ctx.reached = true;
        }
        Ok(())
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    drive(case, ctx, &mut M::default())
}
