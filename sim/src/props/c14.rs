//! Bodies that nothing touches follow the integration rule.

use super::*;
use crate::gen::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C14",
    gen,
    run,
    quick: 60000,
    thorough: 2_000_000,
    rule: "a run counts when free dynamic bodies were judged in at least five steps, one of them under an applied force",
    assumptions: &[
        "judged are bodies without joints that have no touching contact and take part in no callback during the step",
        "steps that only continue an unfinished sub-stepped step are not judged",
        "callbacks do not apply forces",
    ],
    real: REAL,
    stub: STUB,
    known: None,
};

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C14", seed);
    swarm_flags(&mut r, &mut c);
    let mut p = Profile::default();
    p.arena = *r.pick(&[4.0, 8.0, 20.0]);
    p.bodies = (2, 8);
    p.joints = *r.pick(&[(0, 0), (0, 3)]);
    p.filters = *r.pick(&[0.2, 0.8]);
    p.sensors = 0.3;
    p.speed = *r.pick(&[4.0, 30.0, 300.0]);
    p.arms = vec!["disable", "friction", "restitution", "tangent", "kick", "impulse", "read", "clock"];
    for e in p.w.iter_mut() {
        match e.0 {
            "force" => e.1 = 12.0,
            "vel" | "impulse" | "damp" | "gscale" => e.1 = 4.0,
            "flag" | "gravity" | "zero_step" => e.1 = 3.0,
            _ => {}
        }
    }
    p.w.push(("odd_step", 4.0));
    p.w.push(("clear_forces", 2.0));
    p.w.push(("mass_data", 1.0));
    p.w.push(("reset_mass", 0.5));
    p.w.push(("shift", 0.5));
    if thorough {
        p.ops = (30, 160);
    }
    let mut g = Gen::new(r, p);
    g.schedule(&mut c);
    // Something else happens to the body between the force and the step.
    let mut r = Rng::new(seed ^ 0x14f0);
    if r.chance(0.4) {
        let mut k = 0;
        while k < c.ops.len() {
            if let Op::Force { b, .. } = c.ops[k] {
                if r.chance(0.25) {
                    let more = match r.below(6) {
                        0 => vec![Op::Type { b, t: 2 }],
                        1 => vec![Op::Type { b, t: r.below(2) as u8 }, Op::Type { b, t: 2 }],
                        2 => vec![Op::Enable { b, on: false }, Op::Enable { b, on: true }],
                        3 => vec![Op::Awake { b, on: false }, Op::Awake { b, on: true }],
                        4 => vec![Op::FixedRot { b, on: true }, Op::FixedRot { b, on: false }],
                        _ => vec![Op::ResetMass { b }],
                    };
                    for (j, o) in more.into_iter().enumerate() {
                        c.ops.insert(k + 1 + j, o);
                    }
                }
            }
            k += 1;
        }
    }
    c
}

#[derive(Clone)]
struct Was {
    c: (f64, f64),
    a: f64,
    v: (f64, f64),
    w: f64,
    awake: bool,
    m: f64,
    i: f64,
    ic: f64,
    force: (f64, f64),
    torque: f64,
    touched: bool,
}

#[derive(Default)]
struct M {
    was: BTreeMap<u32, Was>,
    full: u32,
    sub: bool,
    judged: u32,
    forced: bool,
    /// The last call stopped at an impact: the step is not over yet.
    paused: bool,
}

fn touched(sim: &Sim) -> BTreeSet<u32> {
    let mut s = BTreeSet::new();
    for c in contacts(sim) {
        if c.touching {
            s.insert(c.ba);
            s.insert(c.bb);
        }
    }
    s
}

impl Monitor for M {
    fn before(&mut self, sim: &mut Sim, op: &Op, _ctx: &mut Ctx) {
        if !matches!(op, Op::Step { .. }) {
            return;
        }
        self.was.clear();
        let t = touched(sim);
        for b in &sim.bodies {
            let p = b.ptr.borrow();
            let (c, v, lc) = (p.get_world_center(), p.get_linear_velocity(), p.get_local_center());
            let (m, i) = (p.get_mass() as f64, p.get_inertia() as f64);
            let lc2 = (lc.x as f64).powi(2) + (lc.y as f64).powi(2);
            self.was.insert(
                b.id,
                Was {
                    c: (c.x as f64, c.y as f64),
                    a: p.get_angle() as f64,
                    v: (v.x as f64, v.y as f64),
                    w: p.get_angular_velocity() as f64,
                    awake: p.is_awake(),
                    m,
                    i,
                    ic: if b.s.fixed { 0.0 } else { i - m * lc2 },
                    force: b.force,
                    torque: b.torque,
                    touched: t.contains(&b.id),
                },
            );
        }
    }

    fn after(&mut self, sim: &mut Sim, _op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        // Switching continuous collision off finishes the step.
        self.paused &= sim.flags[2];
        let Some(dt) = info.dt else { return Ok(()) };
        if sim.flags[3] {
            self.sub = true;
            self.full = 0;
        } else if dt > 0.0 {
            self.full += 1;
        }
        let was_paused = self.paused;
        let (mut post, mut again, mut stopped) = (false, false, false);
        for e in &sim.rec.borrow().ev[info.ev0..] {
            match e {
                // All pre-solve calls come before the solver, except those of an impact.
                E::Pre { .. } if post => again = true,
                E::Post { .. } => {
                    stopped |= again;
                    post = true;
                }
                _ => {}
            }
        }
        self.paused = stopped && sim.flags[3];
        let mut busy = touched(sim);
        for e in &sim.rec.borrow().ev[info.ev0..] {
            match e {
                E::Begin { ba, bb, .. } | E::End { ba, bb, .. } | E::Pre { ba, bb, .. } | E::Post { ba, bb, .. } => {
                    busy.insert(*ba);
                    busy.insert(*bb);
                }
                _ => {}
            }
        }
        for j in &sim.joints {
            busy.insert(j.a);
            busy.insert(j.b);
            busy.extend(j.extra.iter());
        }
        let judge = !self.sub || self.full >= 2;
        if was_paused {
            for b in &sim.bodies {
                let Some(w) = self.was.get(&b.id) else { continue };
                if w.touched || busy.contains(&b.id) {
                    continue;
                }
                let p = b.ptr.borrow();
                let (c, v) = (p.get_world_center(), p.get_linear_velocity());
                ctx.st.evals += 1;
                ctx.probe("paused_step_judged");
                if (c.x as f64, c.y as f64, p.get_angle() as f64) != (w.c.0, w.c.1, w.a) || (v.x as f64, v.y as f64, p.get_angular_velocity() as f64) != (w.v.0, w.v.1, w.w) {
                    return viol("moved-twice", format!("free body {} moved in a call that only finishes the step begun before", b.id));
                }
            }
        }
        let (gx, gy) = (sim.gravity.0 as f64, sim.gravity.1 as f64);
        let h = dt as f64;
        let mut forced = false;
        for b in sim.bodies.iter_mut() {
            let Some(w) = self.was.get(&b.id) else { continue };
            let p = b.ptr.borrow();
            // Falling asleep drops what was accumulated.
            if w.awake && !p.is_awake() {
                b.force = (0.0, 0.0);
                b.torque = 0.0;
            }
            if !judge || w.touched || busy.contains(&b.id) {
                continue;
            }
            let (cc, vv) = (p.get_world_center(), p.get_linear_velocity());
            let (c, v) = ((cc.x as f64, cc.y as f64), (vv.x as f64, vv.y as f64));
            let (a, om) = (p.get_angle() as f64, p.get_angular_velocity() as f64);
            let (mut ev, mut ew) = (w.v, w.w);
            let moves = dt > 0.0 && b.s.enabled && w.awake && b.s.t > 0;
            let mut acc = (0.0, 0.0);
            let mut tw = 0.0;
            if moves {
                if b.s.t == 2 {
                    if w.m > 0.0 {
                        acc = (b.s.gs as f64 * gx + w.force.0 / w.m, b.s.gs as f64 * gy + w.force.1 / w.m);
                    }
                    let wacc = if w.ic > 1e-3 * w.i && w.i > 0.0 { w.torque / w.ic } else { 0.0 };
                    if w.i > 0.0 && !b.s.fixed && w.ic <= 1e-3 * w.i && w.torque != 0.0 {
                        continue;
                    }
                    tw = wacc.abs() * h * if w.ic > 0.0 { w.i / w.ic } else { 1.0 };
                    let ld = 1.0 / (1.0 + h * b.s.ld as f64);
                    let ad = 1.0 / (1.0 + h * b.s.ad as f64);
                    ev = ((ev.0 + h * acc.0) * ld, (ev.1 + h * acc.1) * ld);
                    ew = (ew + h * wacc) * ad;
                }
                let d = h * ev.0.hypot(ev.1);
                if d > 2.0 {
                    ev = (ev.0 * 2.0 / d, ev.1 * 2.0 / d);
                    ctx.probe("translation_clamped");
                }
                let r = h * ew.abs();
                let lim = std::f64::consts::FRAC_PI_2;
                if r > lim {
                    ew *= lim / r;
                    ctx.probe("rotation_clamped");
                }
            }
            let (ec, ea) = if moves { ((w.c.0 + h * ev.0, w.c.1 + h * ev.1), w.a + h * ew) } else { (w.c, w.a) };
            let vt = 2e-5 * (1.0 + w.v.0.abs() + w.v.1.abs() + h * (acc.0.abs() + acc.1.abs()));
            let wt = 2e-5 * (1.0 + w.w.abs()) + 5e-4 * tw;
            let pt = 1e-6 * (1.0 + w.c.0.abs() + w.c.1.abs()) * 2.0 + h * vt;
            let at = 1e-6 * (1.0 + w.a.abs()) + h * wt;
            ctx.st.evals += 1;
            let fell = w.awake && !p.is_awake() && moves;
            if fell {
                if v != (0.0, 0.0) || om != 0.0 {
                    return viol("asleep-with-velocity", format!("body {} fell asleep with velocity {v:?} {om}", b.id));
                }
            } else if !((v.0 - ev.0).abs() <= vt && (v.1 - ev.1).abs() <= vt) {
                return viol("velocity", format!("free body {} (type {}): velocity {v:?} after a step of {dt} from {:?} with force {:?}; expected {ev:?}", b.id, b.s.t, w.v, w.force));
            } else if !((om - ew).abs() <= wt) {
                return viol("spin", format!("free body {} (type {}): spin {om} after a step of {dt} from {} with torque {}; expected {ew}", b.id, b.s.t, w.w, w.torque));
            }
            if !((c.0 - ec.0).abs() <= pt && (c.1 - ec.1).abs() <= pt) {
                return viol("position", format!("free body {} (type {}): centre {c:?} after a step of {dt} from {:?}; expected {ec:?}", b.id, b.s.t, w.c));
            }
            if !((a - ea).abs() <= at) {
                return viol("angle", format!("free body {}: angle {a} after a step of {dt} from {}; expected {ea}", b.id, w.a));
            }
            let t = p.get_transform();
            let (s, co) = ((t.q.s as f64 - a.sin()).abs(), (t.q.c as f64 - a.cos()).abs());
            if !(s <= 1e-5 + 1e-6 * a.abs() && co <= 1e-5 + 1e-6 * a.abs()) {
                return viol("rotation", format!("body {}: the rotation does not match the angle {a}", b.id));
            }
            if moves && b.s.t == 2 {
                self.judged += 1;
                if w.force != (0.0, 0.0) || w.torque != 0.0 {
                    forced = true;
                }
            }
            if !w.awake {
                ctx.probe("asleep_body_judged");
            }
        }
        self.forced |= forced;
        if self.judged >= 5 && self.forced {
            ctx.reached = true;
        }
        Ok(())
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    drive(case, ctx, &mut M::default())
}
