//! Ropes stay pinned, finite and at bounded stretch.

use super::*;
use crate::rng::Rng;
use box2d_rs::b2_draw::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_rope::*;

pub const PROP: Prop = Prop {
    id: "C22",
    gen,
    run,
    quick: 60000,
    thorough: 2_000_000,
    rule: "a run counts when a rope was judged in at least twenty steps while its target moved or its tuning changed",
    assumptions: &[
        "stiffness between zero and one; the explicit bending spring is kept slow against the time step",
        "the centre of mass is modelled for ropes without pinned points",
        "length is judged with full stiffness, at least ten iterations, slow target movements and one second after the target stopped",
        "bending by angle is judged for ropes laid out straight, moved slowly, until they fold over; its isometric and fixed-mass variants are left out",
    ],
    real: &["the rope of the box2d-rs crate, observed through its debug drawing"],
    stub: &["drawing sink (records what is drawn)"],
    known: None,
};

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C22", seed);
    let gentle = r.chance(0.5);
    c.set("gentle", gentle as u8 as f64);
    c.ops.push(Op::RCreate { seed: r.u64() >> 12 });
    let rounds = r.int(1, if thorough { 8 } else { 4 });
    let (mut x, mut y) = (0.0f32, 0.0f32);
    let it = if gentle { r.int(10, 24) } else { r.int(0, 20) } as u8;
    for _ in 0..rounds {
        match r.weighted(&[3.0, 2.0, 2.0, 2.0, 0.7]) {
            0 => {
                // The target moves.
                let v = if gentle { r.logf(0.002, 0.05) } else { r.logf(0.01, 2.0) };
                for _ in 0..r.int(2, 30) {
                    x += r.f(-v, v);
                    y += r.f(-v, v);
                    c.ops.push(Op::RStep { dt: r.f(1.0 / 240.0, 1.0 / 30.0), it, x, y });
                }
            }
            1 => c.ops.push(Op::RTune { seed: r.u64() >> 12 }),
            2 => {
                x = r.f(-5.0, 5.0);
                y = r.f(-5.0, 5.0);
                c.ops.push(Op::RReset { x, y });
            }
            3 => {
                for _ in 0..r.int(1, 3) {
                    let dt = if gentle { *r.pick(&[0.0, 0.0, 0.01, 0.05]) } else { *r.pick(&[0.0, 0.0, 0.001, 0.1, 0.5]) };
                    c.ops.push(Op::RStep { dt, it, x, y });
                }
            }
            _ => {
                c.ops.push(Op::RCreate { seed: r.u64() >> 12 });
                if gentle {
                    (x, y) = (0.0, 0.0);
                }
            }
        }
        let jitter = r.chance(0.6);
        let base = r.f(1.0 / 150.0, 1.0 / 40.0);
        let n = if r.chance(0.5) { r.int(20, 140) } else { r.int(1, 10) };
        for _ in 0..n {
            let dt = if jitter { base * r.f(0.6, 1.5) } else { base };
            c.ops.push(Op::RStep { dt, it, x, y });
        }
    }
    c
}

fn tuning(seed: u64, straight: bool, gentle: bool) -> B2ropeTuning {
    let mut r = Rng::new(seed ^ 0x7ea5);
    let mut t = B2ropeTuning::default();
    if r.chance(0.1) {
        // The defaults, with another model picked.
        if r.chance(0.5) {
            t.stretching_model = B2stretchingModel::B2XpbdStretchingModel;
        }
        t.bending_model = bend(&mut r);
        return sane(t, straight, gentle);
    }
    t.stretching_model = if r.chance(0.6) { B2stretchingModel::B2PbdStretchingModel } else { B2stretchingModel::B2XpbdStretchingModel };
    t.bending_model = bend(&mut r);
    t.damping = if r.chance(0.5) { r.f(0.0, 3.0) } else { 0.0 };
    t.stretch_stiffness = if r.chance(0.6) { 1.0 } else { r.f(0.0, 1.0) };
    t.stretch_hertz = if r.chance(0.1) { 0.0 } else { r.f(1.0, 60.0) };
    t.stretch_damping = if r.chance(0.5) { r.f(0.0, 4.0) } else { 0.0 };
    t.bend_stiffness = if r.chance(0.2) { 0.0 } else { r.f(0.0, 1.0) };
    t.bend_hertz = if r.chance(0.1) { 0.0 } else { r.f(0.1, 20.0) };
    if matches!(t.bending_model, B2bendingModel::B2SpringAngleBendingModel) {
        t.bend_hertz = t.bend_hertz.min(1.0);
    }
    t.bend_damping = if r.chance(0.5) { r.f(0.0, 1.0) } else { 0.0 };
    t.isometric = r.chance(0.3);
    t.fixed_effective_mass = r.chance(0.3);
    t.warm_start = r.chance(0.5);
    sane(t, straight, gentle)
}

/// The angle models push points along tangents, which lengthens the rope;
/// something has to take the length back.
fn sane(mut t: B2ropeTuning, straight: bool, gentle: bool) -> B2ropeTuning {
    if matches!(t.bending_model, B2bendingModel::B2SpringAngleBendingModel | B2bendingModel::B2PbdAngleBendingModel | B2bendingModel::B2XpbdAngleBendingModel) {
        if !gentle || !straight {
            t.bending_model = B2bendingModel::B2PbdHeightBendingModel;
            return t;
        }
        t.stretching_model = B2stretchingModel::B2PbdStretchingModel;
        t.stretch_stiffness = 1.0;
        t.bend_stiffness = t.bend_stiffness.min(0.5);
        // Both cheaper variants are only right near the initial layout.
        t.fixed_effective_mass = false;
        t.isometric = false;
    }
    t
}

fn bend(r: &mut Rng) -> B2bendingModel {
    match r.below(6) {
        0 => B2bendingModel::B2SpringAngleBendingModel,
        1 => B2bendingModel::B2PbdAngleBendingModel,
        2 => B2bendingModel::B2XpbdAngleBendingModel,
        3 => B2bendingModel::B2PbdDistanceBendingModel,
        4 => B2bendingModel::B2PbdHeightBendingModel,
        _ => B2bendingModel::B2PbdTriangleBendingModel,
    }
}

fn model(t: &B2ropeTuning) -> String {
    let b = match t.bending_model {
        B2bendingModel::B2SpringAngleBendingModel => "spring angle",
        B2bendingModel::B2PbdAngleBendingModel => "angle",
        B2bendingModel::B2XpbdAngleBendingModel => "compliant angle",
        B2bendingModel::B2PbdDistanceBendingModel => "distance",
        B2bendingModel::B2PbdHeightBendingModel => "height",
        B2bendingModel::B2PbdTriangleBendingModel => "triangle",
    };
    let s = match t.stretching_model {
        B2stretchingModel::B2PbdStretchingModel => "position based",
        B2stretchingModel::B2XpbdStretchingModel => "compliant",
    };
    format!(
        "{s} stretching, stiffness {}, {} Hz, damping {}; {b} bending, stiffness {}, {} Hz, damping {}, isometric {}, fixed mass {}; damping {}",
        t.stretch_stiffness, t.stretch_hertz, t.stretch_damping, t.bend_stiffness, t.bend_hertz, t.bend_damping, t.isometric, t.fixed_effective_mass, t.damping
    )
}

struct Def {
    v: Vec<(f32, f32, f32)>,
    g: (f32, f32),
    at: (f32, f32),
    t: B2ropeTuning,
    straight: bool,
    /// All segments equally long.
    even: bool,
}

fn def(seed: u64, gentle: bool) -> Def {
    let mut r = Rng::new(seed);
    let n = r.int(3, 16) as usize;
    let (a, step) = (r.f(-3.1, 3.1), r.f(0.1, 0.6));
    let zig = if r.chance(0.4) { r.f(0.0, 1.2) } else { 0.0 };
    let (mut x, mut y) = (0.0f32, 0.0f32);
    let m = r.f(0.2, 2.0);
    let uneven = r.chance(0.4);
    let mut v = vec![];
    for i in 0..n {
        v.push((x, y, m * r.f(0.5, 2.0)));
        let b = a + if i % 2 == 0 { zig } else { -zig };
        let step = if uneven { step * r.logf(0.5, 2.0) } else { step };
        x += step * b.cos();
        y += step * b.sin();
    }
    match r.weighted(&[4.0, 2.0, 2.0, 1.0, 1.0]) {
        0 => v[0].2 = 0.0,
        1 => {}
        2 => {
            v[0].2 = 0.0;
            v[n - 1].2 = 0.0;
        }
        3 => {
            for p in v.iter_mut().take(3) {
                p.2 = 0.0;
            }
        }
        _ => {
            let k = r.below(n);
            v[k].2 = 0.0;
        }
    }
    let g = if r.chance(0.3) { (0.0, 0.0) } else { (r.f(-2.0, 2.0), -r.f(0.5, 12.0)) };
    let at = (r.f(-5.0, 5.0), r.f(-5.0, 5.0));
    Def { v, g, at: if !gentle { at } else { (0.0, 0.0) }, t: tuning(r.u64(), zig == 0.0, gentle), straight: zig == 0.0, even: !uneven }
}

#[derive(Default)]
struct Sink {
    base: B2draw,
    pts: Vec<(B2vec2, (f32, f32, f32))>,
    segs: Vec<(B2vec2, B2vec2)>,
    other: u32,
}

impl B2drawTrait for Sink {
    fn get_base(&self) -> &B2draw {
        &self.base
    }
    fn get_base_mut(&mut self) -> &mut B2draw {
        &mut self.base
    }
    fn draw_polygon(&mut self, _: &[B2vec2], _: B2color) {
        self.other += 1;
    }
    fn draw_solid_polygon(&mut self, _: &[B2vec2], _: B2color) {
        self.other += 1;
    }
    fn draw_circle(&mut self, _: B2vec2, _: f32, _: B2color) {
        self.other += 1;
    }
    fn draw_solid_circle(&mut self, _: B2vec2, _: f32, _: B2vec2, _: B2color) {
        self.other += 1;
    }
    fn draw_segment(&mut self, p: B2vec2, q: B2vec2, _: B2color) {
        self.segs.push((p, q));
    }
    fn draw_transform(&mut self, _: B2Transform) {
        self.other += 1;
    }
    fn draw_point(&mut self, p: B2vec2, _: f32, c: B2color) {
        self.pts.push((p, (c.r, c.g, c.b)));
    }
}

type V = (f64, f64);

struct M {
    rope: B2rope,
    d: Def,
    /// Velocity of the centre of mass in the model.
    vel: V,
    calm: f64,
    target: Option<(f32, f32)>,
    steps: u32,
    varied: bool,
    gentle: bool,
    /// Where the rope was last told to be.
    place: (f32, f32),
    off: bool,
    /// Retuned since it was last laid out; it may carry any amount of motion.
    retuned: bool,
    /// Steps since it was last laid out.
    since: u32,
    /// What rounding may have done to a free rope since then: speed, way.
    drift: (f64, f64),
}

fn points(rope: &B2rope, d: &Def) -> Result<Vec<(f32, f32)>, Violation> {
    let mut s = Sink::default();
    rope.draw(&mut s);
    let n = d.v.len();
    if s.pts.len() != n || s.segs.len() != n - 1 || s.other != 0 {
        return viol("drawing", format!("a rope of {n} points drew {} points and {} segments", s.pts.len(), s.segs.len())).map(|_: ()| vec![]);
    }
    for i in 0..n - 1 {
        let b = |v: B2vec2| (v.x.to_bits(), v.y.to_bits());
        if b(s.segs[i].0) != b(s.pts[i].0) || b(s.segs[i].1) != b(s.pts[i + 1].0) {
            return viol("drawing", format!("segment {i} does not join its points")).map(|_: ()| vec![]);
        }
    }
    for i in 1..n {
        if (d.v[i].2 > 0.0) == (d.v[0].2 > 0.0) && s.pts[i].1 != s.pts[0].1 || (d.v[i].2 > 0.0) != (d.v[0].2 > 0.0) && s.pts[i].1 == s.pts[0].1 {
            return viol("drawing", format!("point {i} is drawn in the wrong colour")).map(|_: ()| vec![]);
        }
    }
    Ok(s.pts.iter().map(|p| (p.0.x, p.0.y)).collect())
}

fn com(p: &[(f32, f32)], d: &Def) -> V {
    let mut s = (0.0, 0.0, 0.0);
    for (q, v) in p.iter().zip(&d.v) {
        s.0 += q.0 as f64 * v.2 as f64;
        s.1 += q.1 as f64 * v.2 as f64;
        s.2 += v.2 as f64;
    }
    (s.0 / s.2, s.1 / s.2)
}

impl M {
    fn create(&mut self, seed: u64) {
        self.d = def(seed, self.gentle);
        let mut b = B2ropeDef::default();
        b.position = B2vec2::new(self.d.at.0, self.d.at.1);
        b.gravity = B2vec2::new(self.d.g.0, self.d.g.1);
        b.tuning = self.d.t;
        b.vertices = self.d.v.iter().map(|v| B2ropeDefVertices { position: B2vec2::new(v.0, v.1), mass: v.2 }).collect();
        self.rope.create(&b);
        self.place = self.d.at;
        self.retuned = false;
        self.since = 0;
        self.drift = (0.0, 0.0);
        self.vel = (0.0, 0.0);
        self.calm = 0.0;
        self.target = None;
    }

    /// Every point at its place of the initial layout.
    fn laid_out(&self, p: &[(f32, f32)], x: f32, y: f32) -> Res {
        for (i, (q, v)) in p.iter().zip(&self.d.v).enumerate() {
            let e = (v.0 + x, v.1 + y);
            if !((q.0 - e.0).abs() <= 1e-5 && (q.1 - e.1).abs() <= 1e-5) {
                return viol("layout", format!("point {i} is at {q:?} after the rope was laid out at ({x}, {y}), expected {e:?}"));
            }
        }
        Ok(())
    }

    /// The angle between neighbouring segments jumps where a rope folds over,
    /// and the models based on it then throw the points about.
    fn folded(&self, p: &[(f32, f32)]) -> bool {
        if !matches!(self.d.t.bending_model, B2bendingModel::B2SpringAngleBendingModel | B2bendingModel::B2PbdAngleBendingModel | B2bendingModel::B2XpbdAngleBendingModel) {
            return false;
        }
        p.windows(3).any(|w| {
            let (a, b) = ((w[1].0 - w[0].0, w[1].1 - w[0].1), (w[2].0 - w[1].0, w[2].1 - w[1].1));
            (a.0 * b.1 - a.1 * b.0).atan2(a.0 * b.0 + a.1 * b.1).abs() > 1.5
        })
    }

    fn apply(&mut self, op: &Op, ctx: &mut Ctx) -> Res {
        match op {
            Op::RCreate { seed } => {
                self.create(*seed);
                let p = points(&self.rope, &self.d)?;
                let (x, y) = self.d.at;
                ctx.st.evals += 1;
                self.laid_out(&p, x, y)?;
            }
            Op::RTune { seed } => {
                let was = points(&self.rope, &self.d)?;
                self.d.t = tuning(*seed, self.d.straight, self.gentle);
                self.rope.set_tuning(&self.d.t);
                self.varied = true;
                self.retuned = true;
                self.calm = 0.0;
                ctx.fault("retuned");
                if was != points(&self.rope, &self.d)? {
                    return viol("tuning-moved", "changing the tuning moved the rope".to_string());
                }
            }
            Op::RReset { x, y } => {
                self.rope.reset(B2vec2::new(*x, *y));
                let p = points(&self.rope, &self.d)?;
                ctx.st.evals += 1;
                self.laid_out(&p, *x, *y)?;
                self.vel = (0.0, 0.0);
                self.calm = 0.0;
                self.target = None;
                self.place = (*x, *y);
                self.retuned = false;
                self.since = 0;
        self.drift = (0.0, 0.0);
                ctx.fault("reset");
            }
            Op::RStep { dt, it, x, y } => {
                let was = points(&self.rope, &self.d)?;
                if self.gentle && (x - self.place.0).hypot(y - self.place.1) > 0.1 {
                    self.off = true;
                    return Ok(());
                }
                self.place = (*x, *y);
                self.rope.step(*dt, *it as i32, B2vec2::new(*x, *y));
                let p = points(&self.rope, &self.d)?;
                ctx.st.steps += 1;
                ctx.st.evals += 1;
                if *dt == 0.0 {
                    ctx.fault("zero_step");
                    let b = |v: &Vec<(f32, f32)>| v.iter().map(|q| (q.0.to_bits(), q.1.to_bits())).collect::<Vec<_>>();
                    if b(&was) != b(&p) {
                        return viol("zero-step", "a step of length zero moved the rope".to_string());
                    }
                    return Ok(());
                }
                ctx.st.sim_s += *dt as f64;
                let h = *dt as f64;
                if h > 0.06 {
                    ctx.fault("stall");
                }
                if self.target.is_some() && self.target != Some((*x, *y)) {
                    self.varied = true;
                    self.calm = 0.0;
                    ctx.fault("target_moved");
                }
                if h > 0.06 || *it < 10 {
                    self.calm = 0.0;
                }
                self.calm += h;
                self.target = Some((*x, *y));
                self.steps += 1;
                self.since += 1;
                for (i, q) in p.iter().enumerate() {
                    if !q.0.is_finite() || !q.1.is_finite() {
                        return viol("not-finite", format!("point {i} is at {q:?} after a step of {dt} ({})", model(&self.d.t)));
                    }
                    ctx.digest.f(q.0);
                    ctx.digest.f(q.1);
                }
                if self.folded(&p) {
                    ctx.probe("folded_over");
                    self.off = true;
                    return Ok(());
                }
                let big = p.iter().chain(&was).map(|q| (q.0.abs() as f64).max(q.1.abs() as f64)).fold(1.0, f64::max);
                for (i, (q, v)) in p.iter().zip(&self.d.v).enumerate() {
                    let e = (v.0 as f64 + *x as f64, v.1 as f64 + *y as f64);
                    if v.2 == 0.0 && !((q.0 as f64 - e.0).abs().max((q.1 as f64 - e.1).abs()) <= 4e-6 * (2.0 + big)) {
                        return viol("pin", format!("pinned point {i} is at {q:?}, its target at {e:?}"));
                    }
                }
                if self.d.v.iter().all(|v| v.2 > 0.0) {
                    let (c0, c1) = (com(&was, &self.d), com(&p, &self.d));
                    let f = (-h * self.d.t.damping as f64).exp();
                    let v = (self.vel.0 * f + h * self.d.g.0 as f64, self.vel.1 * f + h * self.d.g.1 as f64);
                    let e = (c0.0 + h * v.0, c0.1 + h * v.1);
                    let err = (c1.0 - e.0).hypot(c1.1 - e.1);
                    let tol = 1e-5 * big + 2e-6 * h * (v.0.abs() + v.1.abs());
                    ctx.max("centre_of_mass", err / tol);
                    if !(err <= tol) {
                        return viol("centre-of-mass", format!("the centre of a free rope is at {c1:?} after a step of {dt} from {c0:?}, expected {e:?}"));
                    }
                    self.vel = ((c1.0 - c0.0) / h, (c1.1 - c0.1) / h);
                    ctx.probe("free_rope");
                    // Laid out straight and let go, nothing bends or stretches it. A short step turns
                    // rounding of positions into speed.
                    self.drift.0 += 1.5e-6 * big / h;
                    self.drift.1 += self.drift.0 * h;
                    let even = self.d.even || !matches!(self.d.t.bending_model, B2bendingModel::B2PbdTriangleBendingModel);
                    if self.d.straight && even && !self.retuned && self.since <= 60 && big < 25.0 && self.drift.1 < 0.05 {
                        let d: Vec<_> = self.d.v.iter().map(|v| (v.0, v.1)).collect();
                        let o = com(&d, &self.d);
                        let off = p.iter().zip(&d).map(|(q, w)| (q.0 as f64 - c1.0 - w.0 as f64 + o.0).hypot(q.1 as f64 - c1.1 - w.1 as f64 + o.1)).fold(0.0, f64::max);
                        ctx.st.evals += 1;
                        ctx.probe("coasting_rope");
                        let tol = 0.01 + self.drift.1;
                        ctx.max("shape of a straight rope let go", off / tol);
                        if !(off <= tol) {
                            return viol("shape", format!("a straight rope without pins is {off} out of shape {} steps after it was laid out ({})", self.since, model(&self.d.t)));
                        }
                    }
                }
                let t = &self.d.t;
                if matches!(t.stretching_model, B2stretchingModel::B2XpbdStretchingModel) && self.gentle && self.d.straight && self.d.even && !self.retuned && t.stretch_hertz >= 3.0 && *it >= 10 && self.calm > 1.0 {
                    // Springs between the points carry at most the weight of the rope.
                    let g = (self.d.g.0 as f64).hypot(self.d.g.1 as f64);
                    let w: f64 = g * self.d.v.iter().map(|v| v.2 as f64).sum::<f64>();
                    let om = 2.0 * std::f64::consts::PI * t.stretch_hertz as f64;
                    let (mut now, mut rest, mut give) = (0.0, 0.0, 0.0);
                    for i in 0..p.len() - 1 {
                        let l = |a: (f32, f32), b: (f32, f32)| (b.0 as f64 - a.0 as f64).hypot(b.1 as f64 - a.1 as f64);
                        rest += l((self.d.v[i].0, self.d.v[i].1), (self.d.v[i + 1].0, self.d.v[i + 1].1));
                        now += l(p[i], p[i + 1]);
                        let inv = |m: f32| if m > 0.0 { 1.0 / m as f64 } else { 0.0 };
                        let sum = inv(self.d.v[i].2) + inv(self.d.v[i + 1].2);
                        if sum > 0.0 {
                            give += w * sum / (om * om);
                        }
                    }
                    let over = (now - rest) / (0.5 * rest + 3.0 * give);
                    ctx.max("compliant_stretch", over);
                    ctx.probe("compliant_judged");
                    if !(over <= 1.0) {
                        return viol("length", format!("the rope is {now} long, at rest {rest}, {:.2} s after its target stopped; its weight should stretch it by at most {give} ({})", self.calm, model(t)));
                    }
                }
                let pbd = matches!(t.stretching_model, B2stretchingModel::B2PbdStretchingModel) && t.stretch_stiffness == 1.0;
                if pbd && *it >= 10 && self.calm > 1.0 {
                    let mut worst = 0.0f64;
                    let mut total = (0.0, 0.0);
                    for i in 0..p.len() - 1 {
                        let l = |a: (f32, f32), b: (f32, f32)| (b.0 as f64 - a.0 as f64).hypot(b.1 as f64 - a.1 as f64);
                        let rest = l((self.d.v[i].0, self.d.v[i].1), (self.d.v[i + 1].0, self.d.v[i + 1].1));
                        let now = l(p[i], p[i + 1]);
                        total.0 += now;
                        total.1 += rest;
                        worst = worst.max((now / rest - 1.0).abs());
                    }
                    let off = (total.0 / total.1 - 1.0).abs();
                    if self.gentle && self.d.straight && !self.retuned {
                        ctx.max("worst_segment", worst);
                        ctx.max("total_stretch", off);
                        ctx.probe("length_judged");
                        if !(off <= 0.5) {
                            return viol("length", format!("the rope is {} long, at rest {}, {:.2} s after its target stopped ({})", total.0, total.1, self.calm, model(t)));
                        }
                    }
                    if self.gentle && self.d.even && !self.retuned && self.d.v.iter().all(|v| v.2 > 0.0) && self.d.g == (0.0, 0.0) && t.damping >= 1.0 && t.bend_stiffness >= 0.3 && self.calm > 2.0 {
                        let (a, b) = (p[0], p[p.len() - 1]);
                        let end = (b.0 as f64 - a.0 as f64).hypot(b.1 as f64 - a.1 as f64);
                        let bent = 1.0 - end / total.0;
                        let tol = 0.3;
                        ctx.max("bent", bent / tol);
                        ctx.probe("straightness_judged");
                        if !(bent <= tol) {
                            return viol("bent", format!("a damped free rope is still bent by {bent} after {:.2} s ({})", self.calm, model(t)));
                        }
                }
                }
            }
            _ => {}
        }
        Ok(())
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = M { rope: B2rope::default(), d: def(case.seed, case.on("gentle")), vel: (0.0, 0.0), calm: 0.0, target: None, steps: 0, varied: false, gentle: case.on("gentle"), place: (0.0, 0.0), off: false, retuned: false, since: 0, drift: (0.0, 0.0) };
    if !matches!(case.ops.first(), Some(Op::RCreate { .. })) {
        m.create(case.seed);
    }
    for (i, op) in case.ops.iter().enumerate() {
        m.apply(op, ctx).map_err(|mut v| {
            v.at = i;
            v
        })?;
        if m.off {
            return Ok(());
        }
        ctx.st.ops += 1;
        *ctx.st.op_kinds.entry(op.kind().to_string()).or_insert(0) += 1;
        ctx.sig.s(op.kind());
    }
    for q in points(&m.rope, &m.d)? {
        ctx.sig.u((q.0 * 50.0) as i64 as u64);
        ctx.sig.u((q.1 * 50.0) as i64 as u64);
    }
    if m.steps >= 20 && m.varied {
        ctx.reached = true;
    }
    Ok(())
}
