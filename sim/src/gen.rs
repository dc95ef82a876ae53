//! Seeded scenario generation.  Every run draws its own subset of features ("swarm"), so no two
//! runs stress the same mix.

use crate::case::*;
use crate::rng::Rng;

#[derive(Clone)]
pub struct Profile {
    pub bodies: (i64, i64),
    pub ops: (i64, i64),
    pub arena: f32,
    /// static, kinematic, dynamic
    pub types: [f64; 3],
    /// circle box poly edge edge1 chain loop
    pub shapes: [f64; 7],
    pub sensors: f64,
    pub filters: f64,
    pub joints: (i64, i64),
    pub jkinds: Vec<JK>,
    pub ground: f64,
    pub dts: Vec<f32>,
    pub steps: f64,
    /// Weights of the other operations.
    pub w: Vec<(&'static str, f64)>,
    pub arms: Vec<&'static str>,
    pub speed: f32,
    pub density: (f32, f32),
    pub max_fix: i64,
    pub swarm: bool,
    pub gravity: bool,
    pub settle: (i64, i64),
    pub offcenter: f32,
    pub sleepers: f64,
    pub disabled: f64,
    pub bullets: f64,
    pub damping: bool,
    pub vi: (i64, i64),
    pub pi: (i64, i64),
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            bodies: (3, 10),
            ops: (20, 90),
            arena: 6.0,
            types: [0.2, 0.15, 0.65],
            shapes: [1.0, 1.0, 0.7, 0.25, 0.15, 0.15, 0.1],
            sensors: 0.1,
            filters: 0.2,
            joints: (0, 3),
            jkinds: ALL_JK.to_vec(),
            ground: 0.7,
            dts: vec![1.0 / 60.0, 1.0 / 60.0, 1.0 / 30.0, 1.0 / 120.0, 1.0 / 15.0],
            steps: 0.5,
            w: vec![
                ("body", 3.0),
                ("fixture", 3.0),
                ("del_fixture", 3.0),
                ("del_body", 3.0),
                ("joint", 2.0),
                ("del_joint", 2.0),
                ("joint_set", 2.0),
                ("transform", 4.0),
                ("vel", 3.0),
                ("force", 2.0),
                ("impulse", 2.0),
                ("type", 3.0),
                ("enable", 4.0),
                ("awake", 3.0),
                ("fixed_rot", 1.0),
                ("bullet", 1.0),
                ("sleep_ok", 1.0),
                ("damp", 0.5),
                ("gscale", 0.5),
                ("filter", 3.0),
                ("sensor", 2.0),
                ("surface", 1.0),
                ("density", 1.0),
                ("flag", 1.0),
                ("gravity", 0.5),
                ("clock", 0.5),
                ("arm", 1.5),
                ("disarm", 0.5),
                ("filter_rule", 1.5),
                ("zero_step", 1.0),
            ],
            arms: vec!["disable", "friction", "restitution", "tangent", "kick", "force", "impulse", "read", "clock"],
            speed: 8.0,
            density: (0.2, 3.0),
            max_fix: 3,
            swarm: true,
            gravity: true,
            settle: (0, 0),
            offcenter: 0.6,
            sleepers: 0.15,
            disabled: 0.1,
            bullets: 0.15,
            damping: true,
            vi: (1, 10),
            pi: (1, 6),
        }
    }
}

pub fn regular(r: &mut Rng, n: usize, rx: f32, ry: f32, cx: f32, cy: f32) -> Vec<P> {
    let ph = r.f(0.0, 6.28);
    (0..n)
        .map(|i| {
            let jit = r.f(-0.2, 0.2);
            let a = ph + (i as f32 + jit) * std::f32::consts::TAU / n as f32;
            (cx + rx * a.cos(), cy + ry * a.sin())
        })
        .collect()
}

pub fn shape(r: &mut Rng, w: &[f64; 7], off: f32) -> Shape {
    let (ox, oy) = if r.chance(0.4) { (r.f(-off, off), r.f(-off, off)) } else { (0.0, 0.0) };
    match r.weighted(w) {
        0 => Shape::Circle { r: r.logf(0.15, 1.2), x: ox, y: oy },
        1 => Shape::Box {
            hx: r.logf(0.15, 1.5),
            hy: r.logf(0.15, 1.0),
            x: ox,
            y: oy,
            a: if r.chance(0.5) { 0.0 } else { r.f(-3.0, 3.0) },
        },
        2 => {
            let n = r.int(3, 8) as usize;
            let rad = if n > 6 { r.f(0.4, 1.0) } else { r.f(0.25, 1.0) };
            let rx = rad;
            let ry = rad * r.f(0.7, 1.2);
            Shape::Poly { pts: regular(r, n, rx, ry, ox, oy) }
        }
        3 => {
            let a = (r.f(-2.0, -0.3), r.f(-0.5, 0.5));
            let b = (r.f(0.3, 2.0), r.f(-0.5, 0.5));
            Shape::Edge { a, b }
        }
        4 => {
            let a = (r.f(-2.0, -0.4), r.f(-0.4, 0.4));
            let b = (r.f(0.4, 2.0), r.f(-0.4, 0.4));
            let (a, b) = if r.chance(0.5) { (a, b) } else { (b, a) };
            let d = (b.0 - a.0, b.1 - a.1);
            let j = r.f(-0.3, 0.3);
            Shape::Edge1 { v: [(a.0 - d.0, a.1 - d.1 + j), a, b, (b.0 + d.0, b.1 + d.1 - j)] }
        }
        5 => {
            let n = r.int(2, 6) as usize;
            let mut x = -(n as f32) / 2.0;
            let mut pts = vec![];
            for _ in 0..n {
                pts.push((x, r.f(-0.5, 0.5)));
                x += r.f(0.6, 1.4);
            }
            if r.chance(0.7) {
                pts.reverse();
            }
            let (p, q) = (pts[0], pts[n - 1]);
            let s = if pts[1].0 > pts[0].0 { 1.0 } else { -1.0 };
            Shape::Chain { prev: (p.0 - s, p.1), next: (q.0 + s, q.1), pts }
        }
        _ => {
            let n = r.int(3, 6) as usize;
            let rad = r.f(0.8, 2.0);
            let mut pts = regular(r, n, rad, rad, 0.0, 0.0);
            if r.chance(0.5) {
                pts.reverse();
            }
            Shape::Loop { pts }
        }
    }
}

pub struct Gen {
    pub r: Rng,
    pub p: Profile,
    pub shapes: [f64; 7],
    pub dt: f32,
    pub vi: i64,
    pub pi: i64,
    pub filters: f64,
    pub sensors: f64,
}

impl Gen {
    pub fn new(r: Rng, p: Profile) -> Gen {
        let mut r = r;
        let mut shapes = p.shapes;
        if p.swarm {
            for s in shapes.iter_mut() {
                if r.chance(0.3) {
                    *s = 0.0;
                }
            }
            if shapes.iter().sum::<f64>() == 0.0 {
                shapes = p.shapes;
            }
        }
        let dt = *r.pick(&p.dts.clone());
        let vi = r.int(p.vi.0, p.vi.1);
        let pi = r.int(p.pi.0, p.pi.1);
        let filters = if r.chance(0.5) { p.filters } else { 0.0 };
        let sensors = if r.chance(0.5) { p.sensors } else { 0.0 };
        Gen { r, shapes, dt, vi, pi, filters, sensors, p }
    }

    pub fn fix(&mut self) -> Fix {
        let off = self.p.offcenter;
        let s = shape(&mut self.r, &self.shapes, off);
        let r = &mut self.r;
        let mut f = Fix::of(s);
        let (lo, hi) = self.p.density;
        f.d = if r.chance(0.1) { 0.0 } else { r.logf(lo, hi) };
        f.mu = if r.chance(0.2) { 0.0 } else { r.f(0.0, 1.0) };
        f.e = if r.chance(0.6) { 0.0 } else { r.f(0.0, 0.9) };
        f.th = if r.chance(0.7) { 1.0 } else { r.f(0.0, 2.0) };
        f.sensor = r.chance(self.sensors);
        if r.chance(self.filters) {
            let (c, m, g) = filter_vals(r);
            f.cat = c;
            f.mask = m;
            f.group = g;
        }
        f
    }

    pub fn body(&mut self) -> BodySpec {
        let a = self.p.arena;
        let t = {
            let w = self.p.types;
            self.r.weighted(&w) as u8
        };
        let sp = self.p.speed;
        let mut b = BodySpec { t, ..Default::default() };
        {
            let r = &mut self.r;
            b.x = r.f(-a, a);
            b.y = r.f(-a * 0.2, a);
            b.a = if r.chance(0.4) { 0.0 } else { r.f(-4.0, 4.0) };
            if t > 0 && r.chance(0.6) {
                b.vx = r.f(-sp, sp);
                b.vy = r.f(-sp, sp);
                b.w = r.f(-4.0, 4.0);
            }
            if self.p.damping && r.chance(0.2) {
                b.ld = r.f(0.0, 2.0);
                b.ad = r.f(0.0, 2.0);
            }
            if r.chance(0.15) {
                b.gs = r.f(-0.5, 2.0);
            }
            b.bullet = r.chance(self.p.bullets);
            b.fixed = r.chance(0.1);
            b.sleep = !r.chance(0.15);
            if t > 0 && r.chance(self.p.sleepers) {
                b.awake = false;
                b.vx = 0.0;
                b.vy = 0.0;
                b.w = 0.0;
            }
            b.enabled = !r.chance(self.p.disabled);
        }
        let n = if self.r.chance(0.7) { 1 } else { self.r.int(0, self.p.max_fix) };
        for _ in 0..n {
            let f = self.fix();
            b.fix.push(f);
        }
        b
    }

    pub fn ground(&mut self) -> BodySpec {
        let a = self.p.arena;
        let r = &mut self.r;
        let mut b = BodySpec { t: 0, ..Default::default() };
        let y = -a * 0.4;
        let sh = match r.below(4) {
            0 => Shape::Box { hx: a * 2.0, hy: 0.5, x: 0.0, y: y - 0.5, a: 0.0 },
            1 => Shape::Edge { a: (-a * 2.0, y), b: (a * 2.0, y) },
            2 => {
                let n = r.int(3, 10) as usize;
                let pts: Vec<P> = (0..n).map(|i| (a * 2.0 - 4.0 * a * i as f32 / (n - 1) as f32, y + r.f(-0.3, 0.3))).collect();
                let (p, q) = (pts[0], pts[n - 1]);
                Shape::Chain { prev: (p.0 + 1.0, p.1), next: (q.0 - 1.0, q.1), pts }
            }
            _ => Shape::Box { hx: a, hy: 1.0, x: 0.0, y: y - 1.0, a: r.f(-0.2, 0.2) },
        };
        let mut f = Fix::of(sh);
        f.mu = r.f(0.0, 1.0);
        f.e = if r.chance(0.7) { 0.0 } else { r.f(0.0, 0.8) };
        b.fix.push(f);
        b
    }

    pub fn joint(&mut self) -> JointSpec {
        let k = {
            let v = self.p.jkinds.clone();
            *self.r.pick(&v)
        };
        let r = &mut self.r;
        JointSpec {
            k,
            a: r.u32() % 64,
            b: r.u32() % 64,
            x: r.f(-1.0, 1.0),
            y: r.f(-1.0, 1.0),
            ang: r.f(-3.14, 3.14),
            p: [
                if k == JK::Gear { let s = if r.chance(0.5) { 1.0 } else { -1.0 }; s * r.f(0.3, 3.0) } else { r.f(0.0, 2.0) },
                r.f(0.0, 2.0),
                r.f(-2.0, 2.0),
                r.f(-2.0, 2.0),
            ],
            limit: r.chance(0.5),
            motor: r.chance(0.5),
            collide: r.chance(0.4),
        }
    }

    pub fn step(&mut self) -> Op {
        Op::Step { dt: self.dt, vi: self.vi as u8, pi: self.pi as u8 }
    }

    pub fn arm(&mut self) -> Op {
        let kinds = self.p.arms.clone();
        let k = *self.r.pick(&kinds);
        let r = &mut self.r;
        let every = *r.pick(&[1u32, 1, 2, 3, 5, 8]);
        let off = r.u32() % 8;
        let any = [Ev::Begin, Ev::End, Ev::Pre, Ev::Post];
        let (ev, act) = match k {
            "disable" => (Ev::Pre, Act::Disable),
            "friction" => (*r.pick(&[Ev::Begin, Ev::Pre]), Act::Friction(r.f(0.0, 1.5))),
            "restitution" => (*r.pick(&[Ev::Begin, Ev::Pre]), Act::Restitution(r.f(0.0, 0.9))),
            "tangent" => (*r.pick(&[Ev::Begin, Ev::Pre]), Act::Tangent(r.f(-2.0, 2.0))),
            "threshold" => (*r.pick(&[Ev::Begin, Ev::Pre]), Act::Threshold(r.f(0.0, 8.0))),
            "reset" => (*r.pick(&[Ev::Begin, Ev::Pre]), Act::ResetMix),
            "kick" => (*r.pick(&any), Act::Kick(r.f(-3.0, 3.0), r.f(-3.0, 3.0), r.f(-2.0, 2.0))),
            "force" => (*r.pick(&any), Act::Force(r.f(-5.0, 5.0), r.f(-5.0, 5.0))),
            "impulse" => (*r.pick(&any), Act::Impulse(r.f(-1.0, 1.0), r.f(-1.0, 1.0))),
            "read" => (*r.pick(&any), Act::ReadAll),
            "refused" => (*r.pick(&any), Act::Refused(r.u32() as u8 % 9)),
            "keep" => (*r.pick(&any), Act::KeepHandles),
            _ => (*r.pick(&any), Act::Clock(r.int(-5_000_000_000, 5_000_000_000))),
        };
        Op::Arm { ev, every, off, act }
    }

    pub fn op(&mut self, k: &str) -> Op {
        let a = self.p.arena;
        let sp = self.p.speed;
        match k {
            "body" => Op::Body(self.body()),
            "fixture" => {
                let b = self.r.u32() % 64;
                Op::Fixture { b, f: self.fix() }
            }
            "joint" => Op::Joint(self.joint()),
            "arm" => self.arm(),
            _ => {
                let r = &mut self.r;
                let b = r.u32() % 64;
                let f = r.u32() % 8;
                let j = r.u32() % 64;
                match k {
                    "del_fixture" => Op::DelFixture { b, f },
                    "del_body" => Op::DelBody { b },
                    "del_joint" => Op::DelJoint { j },
                    "joint_set" => Op::JointSet { j, w: r.u32() as u8 % 35, v: r.f(-2.0, 2.0), v2: r.f(-2.0, 2.0) },
                    "transform" => Op::Transform { b, x: r.f(-a, a), y: r.f(-a * 0.3, a), a: r.f(-4.0, 4.0) },
                    "vel" => Op::Vel { b, x: r.f(-sp, sp), y: r.f(-sp, sp), w: r.f(-6.0, 6.0) },
                    "force" => Op::Force {
                        b,
                        k: r.u32() as u8 % 3,
                        x: r.f(-40.0, 40.0),
                        y: r.f(-40.0, 40.0),
                        ox: r.f(-1.0, 1.0),
                        oy: r.f(-1.0, 1.0),
                        wake: r.chance(0.6),
                    },
                    "impulse" => Op::Impulse {
                        b,
                        k: r.u32() as u8 % 3,
                        x: r.f(-3.0, 3.0),
                        y: r.f(-3.0, 3.0),
                        ox: r.f(-1.0, 1.0),
                        oy: r.f(-1.0, 1.0),
                        wake: r.chance(0.6),
                    },
                    "type" => Op::Type { b, t: r.u32() as u8 % 3 },
                    "enable" => Op::Enable { b, on: r.chance(0.5) },
                    "awake" => Op::Awake { b, on: r.chance(0.5) },
                    "fixed_rot" => Op::FixedRot { b, on: r.chance(0.5) },
                    "bullet" => Op::Bullet { b, on: r.chance(0.5) },
                    "sleep_ok" => Op::SleepOk { b, on: r.chance(0.5) },
                    "damp" => Op::Damp { b, l: r.f(0.0, 3.0), a: r.f(0.0, 3.0) },
                    "gscale" => Op::GScale { b, v: r.f(-1.0, 2.0) },
                    "filter" => {
                        let (cat, mask, group) = filter_vals(r);
                        Op::Filter { b, f, cat, mask, group }
                    }
                    "sensor" => Op::Sensor { b, f, on: r.chance(0.5) },
                    "surface" => Op::Surface { b, f, mu: r.f(0.0, 1.0), e: r.f(0.0, 0.8) },
                    "density" => Op::Density { b, f, d: if r.chance(0.2) { 0.0 } else { r.f(0.1, 4.0) } },
                    "mass_data" => {
                        let (m, x, y) = (r.f(0.1, 5.0), r.f(-0.5, 0.5), r.f(-0.5, 0.5));
                        Op::MassData { b, m, x, y, i: m * (x * x + y * y) + r.f(0.1, 3.0) }
                    }
                    "reset_mass" => Op::ResetMass { b },
                    "flag" => Op::Flag { w: r.u32() as u8 % 5, on: r.chance(0.5) },
                    "gravity" => Op::Gravity { x: r.f(-10.0, 10.0), y: r.f(-10.0, 10.0) },
                    "clear_forces" => Op::ClearForces,
                    "query" => Op::Query {
                        x: r.f(-a, a),
                        y: r.f(-a, a),
                        hx: r.logf(0.01, a * 1.5),
                        hy: r.logf(0.01, a * 1.5),
                        stop: if r.chance(0.6) { 0 } else { 1 + r.u32() % 4 },
                    },
                    "ray" => {
                        let (x1, y1) = (r.f(-1.5 * a, 1.5 * a), r.f(-1.5 * a, 1.5 * a));
                        let (x2, y2) = match r.below(4) {
                            0 => (x1, r.f(-1.5 * a, 1.5 * a) + 0.01),
                            1 => (r.f(-1.5 * a, 1.5 * a) + 0.01, y1),
                            _ => (r.f(-1.5 * a, 1.5 * a), r.f(-1.5 * a, 1.5 * a)),
                        };
                        Op::Ray { x1, y1, x2, y2, proto: r.u64() >> 12 }
                    }
                    "point" => Op::Point { b, x: r.f(-1.2, 1.2), y: r.f(-1.2, 1.2) },
                    "shift" => Op::Shift { x: r.f(-50.0, 50.0), y: r.f(-50.0, 50.0) },
                    "stats" => Op::Stats { k: r.u32() as u8 % 6 },
                    "disarm" => Op::Disarm,
                    "filter_rule" => Op::FilterRule { salt: r.u32() % 1000 },
                    "clock" => Op::ClockJump { ns: r.int(-3_000_000_000, 3_000_000_000) },
                    "zero_step" => Op::Step { dt: 0.0, vi: self.vi as u8, pi: self.pi as u8 },
                    "odd_step" => {
                        let dt = *r.pick(&[0.001f32, 0.004, 1.0 / 240.0, 1.0 / 10.0, 0.2, 0.5]);
                        Op::Step { dt, vi: self.vi as u8, pi: self.pi as u8 }
                    }
                    "hold" => Op::Hold { on: r.chance(0.5) },
                    "drop_world" => Op::DropWorld { keep: r.chance(0.5) },
                    "draw" => Op::Draw { flags: r.u32() as u8 & 31 },
                    "save" => Op::Save { fmt: r.u32() as u8 % 3, file: 0, fault: 0, at: 0 },
                    "crash" => Op::Crash { fmt: r.u32() as u8 % 3 },
                    _ => Op::Nop,
                }
            }
        }
    }

    /// A full schedule: populate, then interleave steps with operations.
    pub fn schedule(&mut self, case: &mut Case) {
        let p = self.p.clone();
        if p.gravity {
            match self.r.below(5) {
                0 => {
                    case.set("gx", 0.0);
                    case.set("gy", 0.0);
                }
                1 => {
                    let (x, y) = (self.r.f(-10.0, 10.0), self.r.f(-10.0, 10.0));
                    case.set("gx", x as f64);
                    case.set("gy", y as f64);
                }
                _ => case.set("gy", -10.0),
            }
        }
        if self.r.chance(p.ground) {
            let g = self.ground();
            case.ops.push(Op::Body(g));
        }
        for _ in 0..self.r.int(p.bodies.0, p.bodies.1) {
            let b = self.body();
            case.ops.push(Op::Body(b));
        }
        for _ in 0..self.r.int(p.joints.0, p.joints.1) {
            let j = self.joint();
            case.ops.push(Op::Joint(j));
        }
        let mut w = p.w.clone();
        if p.swarm {
            for e in w.iter_mut() {
                match self.r.below(4) {
                    0 => e.1 = 0.0,
                    1 => e.1 *= 4.0,
                    _ => {}
                }
            }
        }
        let tot: f64 = w.iter().map(|e| e.1).sum();
        let steps = if p.swarm { *self.r.pick(&[0.3, 0.5, 0.8]) } else { p.steps };
        for _ in 0..self.r.int(p.ops.0, p.ops.1) {
            if tot == 0.0 || self.r.chance(steps) {
                let n = if self.r.chance(0.2) { self.r.int(2, 8) } else { 1 };
                for _ in 0..n {
                    let s = self.step();
                    case.ops.push(s);
                }
            } else {
                let ws: Vec<f64> = w.iter().map(|e| e.1).collect();
                let k = w[self.r.weighted(&ws)].0;
                let o = self.op(k);
                case.ops.push(o);
            }
        }
        for _ in 0..self.r.int(p.settle.0, p.settle.1) {
            let s = self.step();
            case.ops.push(s);
        }
    }
}

pub fn filter_vals(r: &mut Rng) -> (u16, u16, i16) {
    let cat = *r.pick(&[1u16, 2, 4, 3]);
    let mask = *r.pick(&[0xffffu16, 0, 1, 2, 3, 5, 6, 7]);
    let group = *r.pick(&[0i16, 0, 0, 1, -1, 2, -2]);
    (cat, mask, group)
}
