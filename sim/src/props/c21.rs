//! Overlaps are resolved and piles come to rest once disturbances stop.

use super::*;
use crate::gen::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C21",
    gen,
    run,
    quick: 12000,
    thorough: 200_000,
    rule: "a run counts when a world that was disturbed (stalls, kicks, teleports into each other) was judged after the quiet time",
    assumptions: &[
        "overlaps are judged in free space: at rest, without gravity, at most one fixed body, nothing to be squeezed between",
        "piles of box and polygon bodies (or a single ball) lie between two far walls on a flat floor, with friction of at least 0.4, bounce of at most 0.3, comparable weights and angular damping, warm starting and continuous collision on",
        "in a pile no step is more than 3.5 times as long as the one before: carried impulses are scaled by that ratio",
        "quiet time uses steps of 1/120 s to 1/30 s with at least 8 velocity and 3 position iterations",
    ],
    real: REAL,
    stub: STUB,
    known: None,
};

fn lump(r: &mut Rng) -> Shape {
    match r.below(3) {
        0 => Shape::Circle { r: r.f(0.2, 0.5), x: 0.0, y: 0.0 },
        1 => Shape::Box { hx: r.f(0.2, 0.6), hy: r.f(0.2, 0.6), x: 0.0, y: 0.0, a: 0.0 },
        _ => {
            let n = r.int(3, 7) as usize;
            let rad = r.f(0.3, 0.6);
            Shape::Poly { pts: regular(r, n, rad, rad, 0.0, 0.0) }
        }
    }
}

fn odd(r: &mut Rng) -> f32 {
    *r.pick(&[1.0 / 60.0, 1.0 / 60.0, 0.0, 1.0 / 20.0, 0.1, 0.25, 1.0 / 500.0])
}

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C21", seed);
    for (k, p) in [("no_warm", 0.15), ("no_sleep", 0.3), ("no_toi", 0.3)] {
        if r.chance(p) {
            c.set(k, 1.0);
        }
    }
    if r.chance(0.5) {
        crowd(&mut r, &mut c);
    } else {
        pile(&mut r, &mut c, thorough);
    }
    c
}

fn quiet(r: &mut Rng, c: &mut Case, secs: f32) {
    let dt = *r.pick(&[1.0 / 60.0, 1.0 / 60.0, 1.0 / 30.0, 1.0 / 120.0]);
    let jitter = r.chance(0.4);
    let (vi, pi) = (r.int(8, 12) as u8, r.int(3, 6) as u8);
    let mut t = 0.0;
    while t < secs {
        let d = if jitter { (dt * r.f(0.7, 1.3)).clamp(1.0 / 120.0, 1.0 / 30.0) } else { dt };
        t += d;
        c.ops.push(Op::Step { dt: d, vi, pi });
    }
}

fn crowd(r: &mut Rng, c: &mut Case) {
    c.set("crowd", 1.0);
    c.set("gy", 0.0);
    let n = r.int(2, 7) as usize;
    let area = r.f(0.15, 1.0);
    let fixed = n == 2 && r.chance(0.4);
    for i in 0..n {
        let mut b = BodySpec { x: r.f(-area, area), y: r.f(-area, area), a: r.f(-3.0, 3.0), ..Default::default() };
        if i == 0 && fixed {
            b.t = r.below(2) as u8;
        }
        b.fixed = r.chance(0.15);
        b.bullet = r.chance(0.1);
        b.sleep = r.chance(0.8);
        let mut f = Fix::of(lump(r));
        f.d = r.f(0.5, 2.0);
        f.mu = r.f(0.0, 1.0);
        f.e = if r.chance(0.5) { 0.0 } else { r.f(0.0, 1.0) };
        b.fix.push(f);
        c.ops.push(Op::Body(b));
    }
    if r.chance(0.15) {
        row(r, c, n);
    }
    for _ in 0..r.int(0, 20) {
        if r.chance(0.3) {
            let b = r.below(n) as u32;
            c.ops.push(match r.below(4) {
                0 => Op::Transform { b, x: r.f(-area, area), y: r.f(-area, area), a: r.f(-3.0, 3.0) },
                1 => Op::Awake { b, on: r.chance(0.5) },
                2 => Op::Enable { b, on: true },
                _ => Op::Flag { w: r.below(3) as u8, on: r.chance(0.5) },
            });
        } else {
            let (vi, pi) = (r.int(1, 10) as u8, r.int(0, 6) as u8);
            c.ops.push(Op::Step { dt: odd(r), vi, pi });
        }
    }
    for b in 0..n as u32 {
        c.ops.push(Op::Awake { b, on: true });
    }
    if r.chance(0.4) {
        // Few iterations and long steps: time to fall asleep passes before everything is pushed apart.
        let (dt, vi, pi) = (*r.pick(&[0.05f32, 0.1, 0.2]), r.int(1, 10) as u8, r.int(1, 2) as u8);
        let mut t = 0.0;
        while t < 1.5 {
            t += dt;
            c.ops.push(Op::Step { dt, vi, pi });
        }
    }
    quiet(r, c, 6.0);
}

/// Places the bodies in a row, each just touching the next.
fn row(r: &mut Rng, c: &mut Case, n: usize) {
    c.set("no_toi", 1.0);
    let a = r.f(-3.0, 3.0);
    let (mut at, mut last) = (0.0, None);
    for op in c.ops.iter_mut().take(n) {
        let Op::Body(b) = op else { continue };
        let f = &mut b.fix[0];
        if matches!(f.shape, Shape::Poly { .. }) {
            f.shape = Shape::Box { hx: r.f(0.2, 0.6), hy: r.f(0.2, 0.6), x: 0.0, y: 0.0, a: 0.0 };
        }
        let (half, skin) = match f.shape {
            Shape::Circle { r, .. } => (r, 0.0),
            Shape::Box { hx, .. } => (hx, 0.01),
            _ => return,
        };
        if let Some((h, s)) = last {
            at += h + half + s + skin + r.f(-0.007, 0.002);
        }
        last = Some((half, skin));
        (b.x, b.y, b.a) = (at * a.cos(), at * a.sin(), a);
    }
}

fn pile(r: &mut Rng, c: &mut Case, thorough: bool) {
    c.set("pile", 1.0);
    c.cfg.remove("no_warm");
    c.cfg.remove("no_toi");
    let g = r.f(5.0, 15.0);
    c.set("gy", -g as f64);
    let half = r.f(3.0, 6.0);
    let mut fl = BodySpec { t: 0, ..Default::default() };
    let mut parts = if r.chance(0.5) {
        vec![Shape::Box { hx: half + 2.0, hy: 3.0, x: 0.0, y: -3.0, a: 0.0 }]
    } else {
        vec![Shape::Edge { a: (-half - 2.0, 0.0), b: (half + 2.0, 0.0) }]
    };
    parts.push(Shape::Box { hx: 0.5, hy: 10.0, x: -half - 0.5, y: 9.0, a: 0.0 });
    parts.push(Shape::Box { hx: 0.5, hy: 10.0, x: half + 0.5, y: 9.0, a: 0.0 });
    for s in parts {
        let mut f = Fix::of(s);
        f.mu = r.f(0.4, 1.0);
        f.e = r.f(0.0, 0.3);
        fl.fix.push(f);
    }
    c.ops.push(Op::Body(fl));
    let n = r.int(1, if thorough { 12 } else { 7 }) as usize;
    let stack = n <= 4 && r.chance(0.6);
    let hx = r.f(0.3, 0.6);
    let hy = r.f(0.3, 0.6);
    for i in 0..n {
        let mut b = BodySpec { ..Default::default() };
        let mut f;
        if stack {
            b.x = r.f(-0.05, 0.05);
            b.y = hy + 0.01 + i as f32 * (2.0 * hy + 0.02);
            f = Fix::of(Shape::Box { hx, hy, x: 0.0, y: 0.0, a: 0.0 });
        } else {
            b.x = r.f(-half + 1.0, half - 1.0);
            b.y = 1.0 + 1.3 * i as f32;
            b.a = r.f(-3.0, 3.0);
            f = Fix::of(lump(r));
            // A ball on top of a pile may take any time to roll off.
            while n > 1 && matches!(f.shape, Shape::Circle { .. }) {
                f = Fix::of(lump(r));
            }
        }
        b.ad = if matches!(f.shape, Shape::Circle { .. }) { 5.0 } else { r.f(1.0, 2.0) };
        b.sleep = r.chance(0.8);
        b.bullet = r.chance(0.1);
        f.d = r.f(0.8, 1.6);
        f.mu = r.f(0.4, 1.0);
        f.e = r.f(0.0, 0.3);
        b.fix.push(f);
        c.ops.push(Op::Body(b));
    }
    for _ in 0..r.int(0, 40) {
        if r.chance(0.15) {
            let b = 1 + r.below(n) as u32;
            c.ops.push(match r.below(4) {
                0 => Op::Vel { b, x: r.f(-4.0, 4.0), y: r.f(-1.0, 4.0), w: r.f(-4.0, 4.0) },
                1 => Op::Awake { b, on: r.chance(0.5) },
                2 => Op::Impulse { b, k: 1, x: r.f(-1.0, 1.0), y: r.f(-1.0, 1.0), ox: 0.0, oy: 0.0, wake: true },
                _ => Op::Flag { w: 0, on: r.chance(0.5) },
            });
        } else {
            let (vi, pi) = (r.int(6, 10) as u8, r.int(3, 6) as u8);
            // Impulses carried over are scaled by the ratio of the steps, so that stays moderate.
            let dt = *r.pick(&[1.0 / 60.0, 1.0 / 60.0, 0.0, 1.0 / 40.0, 1.0 / 90.0, 1.0 / 30.0]);
            c.ops.push(Op::Step { dt, vi, pi });
        }
    }
    for b in 1..=n as u32 {
        c.ops.push(Op::Awake { b, on: true });
    }
    quiet(r, c, 12.1);
}

#[derive(Default)]
struct M {
    crowd: bool,
    /// Simulated time since the last disturbance.
    calm: f64,
    rest: BTreeMap<u32, ((f64, f64), f64)>,
    odd: bool,
    peak: [(f64, f64, f64); 3],
    done: bool,
    last: f32,
    burst: bool,
    awake: Vec<u32>,
    place: BTreeMap<u32, (f32, f32, f32)>,
    /// Bodies that fell asleep by themselves and have slept since.
    slept: BTreeSet<u32>,
}

fn deepest(sim: &Sim) -> (f64, u32, u32) {
    deepest_of(sim, |_| true)
}

/// Deepest overlap of the chosen solid bodies, with the pair.
fn deepest_of(sim: &Sim, which: impl Fn(u32) -> bool) -> (f64, u32, u32) {
    let mut worst = (0.0, 0, 0);
    for (i, a) in sim.bodies.iter().enumerate() {
        for b in &sim.bodies[i + 1..] {
            if !which(a.id) || !which(b.id) {
                continue;
            }
            for fa in &a.fix {
                for fb in &b.fix {
                    if fa.f.sensor || fb.f.sensor || !eligible(sim, a, fa, b, fb) {
                        continue;
                    }
                    for pa in prims(a, fa) {
                        for pb in prims(b, fb) {
                            let g = -geom::gap(&pa, &pb);
                            if g > worst.0 {
                                worst = (g, a.id, b.id);
                            }
                        }
                    }
                }
            }
        }
    }
    worst
}

fn place(b: &MB) -> (f32, f32, f32) {
    let p = b.ptr.borrow();
    let c = p.get_world_center();
    (c.x, c.y, p.get_angle())
}

impl Monitor for M {
    fn before(&mut self, sim: &mut Sim, _op: &Op, _ctx: &mut Ctx) {
        self.awake = sim.bodies.iter().filter(|b| b.ptr.borrow().is_awake()).map(|b| b.id).collect();
        self.place = sim.bodies.iter().map(|b| (b.id, place(b))).collect();
    }

    fn after(&mut self, sim: &mut Sim, op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        let ok = match op {
            Op::Step { dt, vi, pi } => {
                if *dt == 0.0 || *dt > 0.09 || *dt < 0.004 {
                    self.odd = true;
                }
                *dt > 0.0082 && *dt < 0.0334 && *vi >= 8 && *pi >= 3
            }
            _ => {
                self.odd |= !matches!(op, Op::Body(_));
                false
            }
        };
        if !ok {
            self.calm = 0.0;
            self.rest.clear();
            self.peak = Default::default();
            self.done = false;
        } else {
            self.calm += info.dt.unwrap_or(0.0) as f64;
        }
        if info.dt.is_none() {
            self.slept.clear();
            return Ok(());
        }
        if sim.flags[3] || !sim.joints.is_empty() {
            return Ok(());
        }
        let speed = |b: &MB| {
            let p = b.ptr.borrow();
            let v = p.get_linear_velocity();
            (v.x as f64).hypot(v.y as f64) + 0.3 * (p.get_angular_velocity() as f64).abs()
        };
        if self.crowd {
            if sim.gravity != (0.0, 0.0) || sim.bodies.iter().filter(|b| b.s.t != 2).count() > 1 {
                return Ok(());
            }
            // Nothing here ever had a velocity: pushing bodies apart gives none.
            let v = sim.bodies.iter().map(speed).fold(0.0, f64::max);
            ctx.max("speed gained by pushing overlapping bodies apart, m/s", v);
            ctx.st.evals += 1;
            if v > 1e-2 {
                return viol("speed", format!("bodies at rest that overlap gained a speed of {v:.5}"));
            }
            // Bodies that touch without overlapping are left alone.
            if !sim.flags[2] {
                let mut met: BTreeMap<u32, (i32, f32)> = BTreeMap::new();
                for e in &sim.rec.borrow().ev[info.ev0..] {
                    match e {
                        E::Pre { ba, bb, d, .. } => {
                            let s = d.seps[..d.count].iter().copied().fold(f32::MAX, f32::min);
                            for b in [ba, bb] {
                                let m = met.entry(*b).or_insert((0, f32::MAX));
                                *m = (m.0 + 1, m.1.min(s));
                            }
                        }
                        E::Post { ba, bb, .. } => {
                            for b in [ba, bb] {
                                met.entry(*b).or_insert((0, f32::MAX)).0 -= 1;
                            }
                        }
                        _ => {}
                    }
                }
                // One that is pushed out moves its neighbours.
                let flat = met.values().all(|m| m.0 == 0 && m.1 >= -0.0045);
                for b in sim.bodies.iter().filter(|b| flat && speed(b) == 0.0) {
                    let (Some(m), Some(was)) = (met.get(&b.id), self.place.get(&b.id)) else { continue };
                    let now = place(b);
                    ctx.st.evals += 1;
                    ctx.probe("touching_without_overlap");
                    if (now.0 - was.0).abs().max((now.1 - was.1).abs()).max((now.2 - was.2).abs()) > 1e-5 {
                        return viol("pulled", format!("body {} at rest just touches others (deepest {}) and was moved from {was:?} to {now:?}", b.id, m.1));
                    }
                }
            }
            // Nothing falls asleep before it is pushed out.
            let mut new = false;
            for b in &sim.bodies {
                let asleep = !b.ptr.borrow().is_awake();
                if !asleep || b.s.t != 2 {
                    self.slept.remove(&b.id);
                } else if self.awake.contains(&b.id) {
                    new |= self.slept.insert(b.id);
                }
            }
            if new {
                let d = deepest_of(sim, |id| self.slept.contains(&id));
                ctx.st.evals += 1;
                ctx.probe("fell_asleep_after_being_pushed_out");
                ctx.max("overlap of bodies that fell asleep, m", d.0);
                if d.0 > 0.04 {
                    return viol("asleep-overlapping", format!("bodies {} and {} fell asleep while they overlap by {:.4}", d.1, d.2, d.0));
                }
            }
            if self.calm > 4.0 {
                let d = deepest(sim);
                ctx.st.evals += 1;
                ctx.reached |= self.odd;
                // Many bodies piled on one spot can wedge each other for a while.
                let few = sim.bodies.len() <= 4;
                ctx.max(if few { "overlap of up to four bodies after 4 s of quiet time, m" } else { "overlap of more bodies after 4 s of quiet time, m" }, d.0);
                if d.0 > if few { 0.08 } else { 0.35 } {
                    return viol("still-overlapping", format!("bodies {} and {} still overlap by {:.4} after {:.2} s", d.1, d.2, d.0, self.calm));
                }
            }
            return Ok(());
        }
        // Pile.
        if let (Some(dt), true) = (info.dt, info.dt > Some(0.0)) {
            if self.last > 0.0 && dt > 3.5 * self.last {
                self.burst = true;
            }
            self.last = dt;
        }
        if self.burst {
            return Ok(());
        }
        let Some(fl) = sim.bodies.iter().find(|b| b.s.t == 0) else { return Ok(()) };
        if fl.fix.len() != 3 || !sim.flags[1] || !sim.flags[2] || sim.gravity.0 != 0.0 || sim.gravity.1 > -5.0 || sim.bodies.iter().any(|b| b.fix.is_empty() || b.s.t == 2 && b.s.ad < if matches!(b.fix[0].f.shape, Shape::Circle { .. }) { 5.0 } else { 1.0 }) {
            return Ok(());
        }
        for b in &sim.bodies {
            if b.s.t != 2 || b.fix.is_empty() {
                continue;
            }
            let low = b.fix.iter().flat_map(|f| prims(b, f)).map(|p| geom::Aabb::of(&p).lo.1).fold(f64::MAX, f64::min);
            let c = b.ptr.borrow().get_world_center();
            ctx.st.evals += 1;
            if c.y < 0.0 {
                return viol("below-the-floor", format!("the centre of body {} is at height {}", b.id, c.y));
            }
            if self.calm > 2.0 {
                ctx.max("depth in the floor after 2 s of quiet time, m", -low);
                if -low > 0.02 {
                    return viol("sunk", format!("body {} is {:.4} deep in the floor after {:.2} s", b.id, -low, self.calm));
                }
            }
        }
        // A pile may still collapse late, but not all the time.
        if self.calm > 7.5 && self.calm <= 12.0 {
            let v = sim.bodies.iter().map(speed).fold(0.0, f64::max);
            let w = &mut self.peak[((self.calm - 7.5) / 1.5).min(2.9) as usize];
            w.0 = w.0.max(v);
            let d = deepest(sim);
            w.1 = w.1.max(d.0);
            for b in &sim.bodies {
                let p = b.ptr.borrow();
                let (c, a) = (p.get_world_center(), p.get_angle() as f64);
                let c = (c.x as f64, c.y as f64);
                let r = self.rest.entry(b.id).or_insert((c, a));
                w.2 = w.2.max(geom::len(geom::sub(c, r.0)) + 0.3 * (a - r.1).abs());
            }
            ctx.st.evals += 1;
        } else if self.calm > 12.0 && !self.done {
            self.done = true;
            ctx.reached |= self.odd;
            let min = |f: fn(&(f64, f64, f64)) -> f64| self.peak.iter().map(f).fold(f64::MAX, f64::min);
            let (v, d, m) = (min(|w| w.0), min(|w| w.1), self.peak[2].2 - self.peak[1].2);
            ctx.max("speed in a pile in each of three late windows, m/s", v);
            ctx.max("overlap in a pile in each of three late windows, m", d);
            ctx.max("movement in a pile between the last two windows, m", m);
            ctx.st.evals += 1;
            if v > 2.5 {
                return viol("not-at-rest", format!("the pile does not come to rest: it moves at {v:.4} or more in each of the last three windows of 1.5 s"));
            }
            if m > 0.5 && v > 0.2 {
                return viol("does-not-stay", format!("the pile keeps moving: {m:.4} more in the last window of 1.5 s, at {v:.4} or more"));
            }
            if d > 0.25 {
                return viol("still-overlapping", format!("bodies of the pile overlap by {d:.4} or more in each of the last three windows of 1.5 s"));
            }
        }
        Ok(())
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = M { crowd: case.on("crowd"), ..Default::default() };
    if !m.crowd && !case.on("pile") {
        return Ok(());
    }
    drive(case, ctx, &mut m)
}
