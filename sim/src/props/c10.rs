//! A saved world restores to an equivalent world.

use super::*;
use crate::gen::*;
use crate::rng::{Hash, Rng};
use crate::snap::*;

pub const PROP: Prop = Prop {
    id: "C10",
    gen,
    run,
    quick: 20000,
    thorough: 600_000,
    rule: "a run counts when a world with at least two fixtures and one joint was saved, restored and compared after at least one step",
    assumptions: &[
        "mouse joints are not saved (documented in the code); gears come after other joints",
        "step settings, accumulated forces, sleep timers and contact caches are not part of a save",
        "mass data set by hand is a known finding and excluded from the search",
        "mass, centres and world anchors are recomputed on restore and compared within rounding",
    ],
    real: &["the whole box2d-rs crate including its serde code", "serde_json, serde_yaml and bincode"],
    stub: &["storage (in-memory files)", "profiling clock (simulated)", "listeners (scripted)"],
    known: Some(known),
};

pub fn profile(r: &mut Rng, thorough: bool) -> Profile {
    let mut p = Profile::default();
    p.bodies = (2, 8);
    p.joints = (0, 6);
    p.sensors = 0.3;
    p.filters = 0.5;
    p.ops = if thorough { (15, 90) } else { (10, 50) };
    p.arms = vec!["disable", "friction", "read", "clock"];
    for e in p.w.iter_mut() {
        match e.0 {
            "joint" => e.1 = 5.0,
            "joint_set" => e.1 = 6.0,
            _ => {}
        }
    }
    p.w.push(("save", 8.0));
    p.w.push(("crash", 3.0));
    p.w.push(("odd_step", 1.0));
    p.w.push(("shift", 0.5));
    if r.chance(0.3) {
        p.jkinds = vec![JK::Revolute, JK::Prismatic, JK::Gear, JK::Gear, JK::Pulley];
        p.types = [0.15, 0.0, 0.85];
        p.joints = (3, 8);
    }
    p.steps = *r.pick(&[0.3, 0.5]);
    p
}

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C10", seed);
    swarm_flags(&mut r, &mut c);
    c.cfg.remove("custom_filter");
    let p = profile(&mut r, thorough);
    let mut g = Gen::new(r.fork(), p);
    g.schedule(&mut c);
    for o in &mut c.ops {
        if let Op::Body(b) = o {
            // A body created asleep keeps the velocity it was given.
            if !b.awake && r.chance(0.3) {
                (b.vx, b.vy, b.w) = (r.f(-3.0, 3.0), r.f(-3.0, 3.0), r.f(-3.0, 3.0));
            }
        }
    }
    let f = r.u32() as u8;
    c.ops.push(Op::Save { fmt: f, file: 0, fault: 0, at: 0 });
    c.ops.push(Op::Crash { fmt: f / 3 });
    for _ in 0..r.int(0, 5) {
        let s = g.step();
        c.ops.push(s);
    }
    c.ops.push(Op::Save { fmt: f / 9, file: 0, fault: 0, at: 0 });
    c
}

#[derive(Default)]
struct M {
    steps: u32,
    restored: bool,
}

fn digest(sim: &Sim) -> u64 {
    let mut h = Hash::default();
    sim.digest(&mut h);
    h.0
}

impl M {
    fn round(&mut self, sim: &mut Sim, fmt: u8, adopt: bool, ctx: &mut Ctx) -> Res {
        let name = FORMATS[fmt as usize % 3];
        let a = dump(&sim.world);
        let (h, ca) = (digest(sim), contacts_dump(sim));
        let doc = match save(&sim.world, fmt) {
            Ok(d) => d,
            Err(e) => return viol("save-failed", format!("saving as {name} failed: {e}")),
        };
        if let Some(d) = diff(&a, &dump(&sim.world), true) {
            return viol("save-changed-world", format!("saving as {name} changed the world: {d}"));
        }
        if h != digest(sim) || ca != contacts_dump(sim) {
            return viol("save-changed-world", format!("saving as {name} changed the state of the world"));
        }
        let w = match load(fmt, &doc) {
            Ok(w) => w,
            Err(e) => return viol("restore-failed", format!("restoring a {name} save of {} bytes failed: {e}", doc.len())),
        };
        ctx.st.evals += a.len() as u64;
        ctx.max("largest saved document, bytes", doc.len() as f64);
        if let Some(d) = diff(&a, &dump(&w), false) {
            return viol("restored-differs", format!("after a {name} save and restore: {d}"));
        }
        let doc2 = match save(&w, fmt) {
            Ok(d) => d,
            Err(e) => return viol("save-failed", format!("saving the restored world as {name} failed: {e}")),
        };
        ctx.st.evals += 1;
        // The axis of a sliding joint is normalised again on restore, so its last bit may change.
        let axis = sim.joints.iter().any(|j| matches!(j.s.k, JK::Prismatic | JK::Wheel));
        let same = match fmt % 3 {
            _ if !axis => doc == doc2,
            0 => same_json(&serde_json::from_slice(&doc).unwrap(), &serde_json::from_slice(&doc2).unwrap()),
            1 => same_json(&serde_yaml::from_slice(&doc).unwrap(), &serde_yaml::from_slice(&doc2).unwrap()),
            _ => doc.len() == doc2.len(),
        };
        if !same {
            let at = doc.iter().zip(&doc2).position(|(a, b)| a != b).unwrap_or(doc.len().min(doc2.len()));
            let cut = |d: &[u8]| String::from_utf8_lossy(&d[at.saturating_sub(40)..(at + 40).min(d.len())]).to_string();
            return viol(
                "save-not-stable",
                format!("saving the restored world as {name} gives another document, first at byte {at}: {:?} vs {:?}", cut(&doc), cut(&doc2)),
            );
        }
        let fx: usize = sim.bodies.iter().map(|b| b.fix.len()).sum();
        if self.steps > 0 && fx >= 2 && sim.joints.iter().any(|j| j.s.k != JK::Mouse) {
            ctx.reached = true;
        }
        ctx.probe(&format!("saved as {name}"));
        for j in &sim.joints {
            ctx.probe(&format!("saved a {:?} joint", j.s.k));
        }
        if adopt {
            sim.adopt(w);
        }
        Ok(())
    }
}

impl Monitor for M {
    fn after(&mut self, sim: &mut Sim, op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        if info.dt.is_some() {
            self.steps += 1;
        }
        match op {
            Op::Save { fmt, .. } => {
                ctx.fault("save");
                self.round(sim, *fmt, false, ctx)
            }
            Op::Crash { fmt } => {
                ctx.fault("crash_and_restart_from_save");
                self.round(sim, *fmt, true, ctx)?;
                self.restored = true;
                c02::check_structure(sim, ctx)
            }
            _ if self.restored => c02::check_structure(sim, ctx),
            _ => Ok(()),
        }
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    drive(case, ctx, &mut M::default())
}

/// Mass data set by hand is not saved: the restored body has the mass of its fixtures.
fn known() -> Vec<(String, String)> {
    let mut c = Case::new("C10", 0);
    let mut b = BodySpec::default();
    b.fix.push(Fix::of(Shape::Box { hx: 0.5, hy: 0.5, x: 0.0, y: 0.0, a: 0.0 }));
    c.ops.push(Op::Body(b));
    c.ops.push(Op::MassData { b: 0, m: 5.0, x: 0.25, y: 0.0, i: 2.0 });
    c.ops.push(Op::Save { fmt: 0, file: 0, fault: 0, at: 0 });
    let mut ctx = Ctx::new();
    match run(&c, &mut ctx) {
        Err(v) if v.kind == "restored-differs" => {
            vec![("explicit-mass-data".into(), "mass data set with set_mass_data is not saved; the restored body has the mass of its fixtures".into())]
        }
        _ => vec![],
    }
}
