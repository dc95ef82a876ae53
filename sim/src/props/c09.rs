//! Callbacks can use what they are given; refused calls change nothing.

use super::*;
use crate::gen::*;
use crate::rng::{Hash, Rng};

pub const PROP: Prop = Prop {
    id: "C09",
    gen,
    run,
    quick: 24000,
    thorough: 800_000,
    rule: "a run counts when at least one structural call was attempted from inside a callback of a running step",
    assumptions: BASE_ASSUMPTIONS,
    real: REAL,
    stub: STUB,
    known: None,
};

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C09", seed);
    swarm_flags(&mut r, &mut c);
    let mut p = Profile::default();
    p.arena = *r.pick(&[2.0, 3.0, 5.0]);
    p.sensors = 0.25;
    p.arms = vec!["refused", "refused", "read", "read", "kick", "force", "impulse", "disable", "friction", "restitution", "tangent", "reset", "keep"];
    for e in p.w.iter_mut() {
        match e.0 {
            "arm" => e.1 = 8.0,
            _ => {}
        }
    }
    if thorough {
        p.ops = (30, 150);
    }
    let mut g = Gen::new(r, p);
    for _ in 0..g.r.int(1, 4) {
        let a = g.arm();
        c.ops.push(a);
    }
    g.schedule(&mut c);
    c
}

struct M {
    out: Vec<u64>,
}

impl Monitor for M {
    fn after(&mut self, sim: &mut Sim, _op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        ctx.st.evals += 1;
        match sim.world.try_borrow() {
            Ok(w) => {
                if w.is_locked() {
                    return viol("locked-between-steps", "the world is locked between operations".into());
                }
            }
            Err(_) => return viol("borrowed-between-steps", "the world is still borrowed between operations".into()),
        }
        for b in &sim.bodies {
            if b.ptr.try_borrow_mut().is_err() || b.fix.iter().any(|f| f.ptr.try_borrow_mut().is_err()) {
                return viol("borrowed-between-steps", format!("body {} or one of its fixtures is still borrowed", b.id));
            }
        }
        let mut h = Hash::default();
        sim.digest(&mut h);
        sim.digest_events(info.ev0, &mut h);
        self.out.push(h.0);
        if sim.rec.borrow().faults.contains_key("structural_call_in_callback") {
            ctx.reached = true;
        }
        Ok(())
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    let mut a = M { out: vec![] };
    drive(case, ctx, &mut a)?;
    // The same history with the forbidden calls and the reads left out.
    let mut sim = Sim::new(case);
    sim.rec.borrow_mut().do_refused = false;
    sim.rec.borrow_mut().do_reads = false;
    let mut b = M { out: vec![] };
    let mut scratch = Ctx::new();
    drive_on(&mut sim, case, &mut scratch, &mut b)?;
    for i in 0..a.out.len().max(b.out.len()) {
        ctx.st.evals += 1;
        if a.out.get(i) != b.out.get(i) {
            let k = case.ops.get(i).map(|o| o.kind()).unwrap_or("end");
            return Err(Violation {
                kind: "refused-call-had-effect".into(),
                detail: format!("with the refused calls and reads left out the run differs from operation {i} ({k}) on"),
                at: i,
            });
        }
    }
    Ok(())
}
