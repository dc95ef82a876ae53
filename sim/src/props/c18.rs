//! Mass, centre and inertia always follow the fixtures.

use super::*;
use crate::gen::*;
use crate::rng::Rng;
use box2d_rs::b2_math::*;
use box2d_rs::b2_shape::*;
use geom::mass_of;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C18",
    gen,
    run,
    quick: 60000,
    thorough: 2_000_000,
    rule: "a run counts when a rotating body with off-centre mass changed its mass distribution and at least one body had several fixtures",
    assumptions: &[
        "fixtures lie within two units of their body's origin (single-precision inertia cancels for distant ones)",
        "a density change takes effect with the reset of the mass data that the interface asks for",
        "callbacks do not change velocities (an end callback runs inside the change of a fixture)",
        "the velocity of material points is judged for bodies that are dynamic before and after, or become dynamic",
    ],
    real: REAL,
    stub: STUB,
    known: None,
};

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C18", seed);
    swarm_flags(&mut r, &mut c);
    let mut p = Profile::default();
    p.bodies = (1, 5);
    p.max_fix = 4;
    p.offcenter = *r.pick(&[0.3, 0.8, 1.5]);
    p.joints = (0, 1);
    p.jkinds = vec![JK::Revolute, JK::Weld, JK::Distance, JK::Friction];
    p.ground = 0.3;
    p.steps = 0.3;
    p.shapes = [1.0, 1.0, 1.0, 0.2, 0.1, 0.1, 0.1];
    p.types = [0.1, 0.15, 0.75];
    for e in p.w.iter_mut() {
        match e.0 {
            "fixture" | "del_fixture" => e.1 = 8.0,
            "type" | "fixed_rot" | "density" => e.1 = 5.0,
            "impulse" | "vel" => e.1 = 5.0,
            "enable" | "filter" | "sensor" | "filter_rule" => e.1 = 1.0,
            _ => {}
        }
    }
    p.arms = vec!["disable", "friction", "restitution", "tangent", "force", "read", "clock"];
    p.w.push(("mass_data", 3.0));
    p.w.push(("reset_mass", 2.0));
    if thorough {
        p.ops = (30, 140);
    }
    let mut g = Gen::new(r, p);
    g.schedule(&mut c);
    c
}

#[derive(Clone, Copy)]
struct Was {
    t: u8,
    c: (f64, f64),
    v: (f64, f64),
    w: f64,
    awake: bool,
}

#[derive(Default)]
struct M {
    was: BTreeMap<u32, Was>,
    rotating: bool,
    several: bool,
}

fn d2(v: B2vec2) -> (f64, f64) {
    (v.x as f64, v.y as f64)
}

/// Expected mass, centre and inertia about the body origin.
pub fn expected(b: &MB) -> (f64, (f64, f64), f64) {
    if b.s.t != 2 {
        return (0.0, (0.0, 0.0), 0.0);
    }
    let (m, c, i) = if let Some((m, c, i)) = b.mass_override {
        let m = if m > 0.0 { m as f64 } else { 1.0 };
        (m, (c.0 as f64, c.1 as f64), i as f64)
    } else {
        let (mut m, mut c, mut i) = (0.0, (0.0, 0.0), 0.0);
        for f in &b.fix {
            let d = f.f.d as f64;
            let (a, ctr, inr) = mass_of(&f.f.shape);
            m += d * a;
            c = (c.0 + d * a * ctr.0, c.1 + d * a * ctr.1);
            i += d * inr;
        }
        if m > 0.0 {
            c = (c.0 / m, c.1 / m);
        }
        (m, c, i)
    };
    let cc = c.0 * c.0 + c.1 * c.1;
    if b.s.fixed || i <= 0.0 {
        (m, c, m * cc)
    } else {
        (m, c, i)
    }
}

impl Monitor for M {
    fn before(&mut self, sim: &mut Sim, _op: &Op, _ctx: &mut Ctx) {
        self.was.clear();
        for b in &sim.bodies {
            let p = b.ptr.borrow();
            self.was.insert(
                b.id,
                Was { t: b.s.t, c: d2(p.get_world_center()), v: d2(p.get_linear_velocity()), w: p.get_angular_velocity() as f64, awake: p.is_awake() },
            );
        }
    }

    fn after(&mut self, sim: &mut Sim, op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        for b in &sim.bodies {
            let p = b.ptr.borrow();
            let (m, c, i) = expected(b);
            let near = 1e-4 * (1.0 + c.0.abs() + c.1.abs());
            ctx.st.evals += 1;
            let gm = p.get_mass() as f64;
            if !((gm - m).abs() <= 1e-5 + 1e-4 * m) {
                return viol("mass", format!("body {} (type {}) has mass {gm}, its fixtures give {m}", b.id, b.s.t));
            }
            let lc = d2(p.get_local_center());
            if !((lc.0 - c.0).abs() <= near && (lc.1 - c.1).abs() <= near) {
                return viol("centre", format!("body {} has its centre at {lc:?}, its fixtures give {c:?}", b.id));
            }
            let gi = p.get_inertia() as f64;
            if !((gi - i).abs() <= 1e-5 + 2e-4 * i.max(m * (c.0 * c.0 + c.1 * c.1))) {
                return viol("inertia", format!("body {} has inertia {gi}, its fixtures give {i}", b.id));
            }
            let mut md = B2massData::default();
            p.get_mass_data(&mut md);
            if md.mass != p.get_mass() || md.i != p.get_inertia() || (md.center.x, md.center.y) != (p.get_local_center().x, p.get_local_center().y) {
                return viol("mass-data", format!("body {}: the mass data differs from the single values", b.id));
            }
            let xf = xf_of(b);
            let wc = d2(p.get_world_center());
            let ex = (xf.p.0 + xf.c * c.0 - xf.s * c.1, xf.p.1 + xf.s * c.0 + xf.c * c.1);
            let far = 1e-5 * (xf.p.0.abs() + xf.p.1.abs());
            if !((wc.0 - ex.0).abs() <= 2.0 * near + far && (wc.1 - ex.1).abs() <= 2.0 * near + far) {
                return viol("world-centre", format!("body {} has its world centre at {wc:?}, expected {ex:?}", b.id));
            }
            if b.fix.len() > 1 && b.s.t == 2 {
                self.several = true;
            }
        }
        let Some(b) = info.body.and_then(|id| sim.body(id)) else { return Ok(()) };
        let Some(was) = self.was.get(&b.id).copied() else { return Ok(()) };
        let p = b.ptr.borrow();
        let (m, c, i) = expected(b);
        let (v, w, wc) = (d2(p.get_linear_velocity()), p.get_angular_velocity() as f64, d2(p.get_world_center()));
        let changes = matches!(
            op,
            Op::Fixture { .. } | Op::DelFixture { .. } | Op::Density { .. } | Op::MassData { .. } | Op::ResetMass { .. } | Op::Type { .. } | Op::FixedRot { .. }
        );
        if changes && b.s.t == 2 {
            let keep_w = !matches!(op, Op::FixedRot { .. }) || w == was.w;
            if !matches!(op, Op::FixedRot { .. }) && w != was.w {
                return viol("spin-changed", format!("body {}: a mass change altered the angular velocity from {} to {w}", b.id, was.w));
            }
            if keep_w && was.t != 0 {
                let d = (wc.0 - was.c.0, wc.1 - was.c.1);
                let ex = (was.v.0 - was.w * d.1, was.v.1 + was.w * d.0);
                let tol = 1e-4 * (1.0 + was.v.0.abs() + was.v.1.abs() + was.w.abs() * (1.0 + d.0.abs() + d.1.abs())) + 1e-5 * was.w.abs() * (wc.0.abs() + wc.1.abs());
                ctx.st.evals += 1;
                if !((v.0 - ex.0).abs() <= tol && (v.1 - ex.1).abs() <= tol) {
                    return viol("material-point", format!("body {}: the centre moved by {d:?} at spin {}, its velocity is {v:?} instead of {ex:?}", b.id, was.w));
                }
                if d.0.hypot(d.1) > 0.02 && was.w.abs() > 0.1 {
                    self.rotating = true;
                    ctx.probe("mass_change_while_rotating");
                }
            }
        }
        // The same mass and inertia decide the response to an impulse.
        if let Op::Impulse { k, x, y, ox, oy, wake, .. } = op {
            if b.s.t == 2 && (was.awake || *wake) && m > 0.0 {
                let ic = i - m * (c.0 * c.0 + c.1 * c.1);
                let (j, t) = match k % 3 {
                    0 => {
                        let (px, py) = ((was.c.0 as f32 + ox) as f64 - was.c.0, (was.c.1 as f32 + oy) as f64 - was.c.1);
                        ((*x as f64, *y as f64), px * *y as f64 - py * *x as f64)
                    }
                    1 => ((*x as f64, *y as f64), 0.0),
                    _ => ((0.0, 0.0), *x as f64),
                };
                let ev = (was.v.0 + j.0 / m, was.v.1 + j.1 / m);
                let tol = 1e-4 * (1.0 + ev.0.abs() + ev.1.abs());
                ctx.st.evals += 1;
                if !((v.0 - ev.0).abs() <= tol && (v.1 - ev.1).abs() <= tol) {
                    return viol("impulse-response", format!("body {} of mass {m}: impulse {j:?} changed the velocity from {:?} to {v:?}", b.id, was.v));
                }
                if b.s.fixed || i <= 0.0 {
                    if w != was.w {
                        return viol("fixed-spin", format!("body {} cannot rotate but an impulse changed its spin", b.id));
                    }
                } else if ic > 1e-3 * i {
                    let dw = t / ic;
                    let tol = 1e-4 * (1.0 + was.w.abs()) + 4e-4 * dw.abs() * i / ic;
                    if !((w - was.w - dw).abs() <= tol) {
                        return viol("angular-impulse-response", format!("body {} of inertia {ic}: angular impulse {t} changed the spin by {} instead of {dw}", b.id, w - was.w));
                    }
                }
            }
        }
        if self.rotating && self.several {
            ctx.reached = true;
        }
        Ok(())
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    drive(case, ctx, &mut M::default())
}
