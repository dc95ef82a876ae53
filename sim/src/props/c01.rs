//! Same history, same bits.

use super::*;
use crate::gen::*;
use crate::rng::{Hash, Rng};

pub const PROP: Prop = Prop {
    id: "C01",
    gen,
    run,
    quick: 30000,
    thorough: 1_000_000,
    rule: "a run counts when the world had at least one touching contact or joint during a step, so solver state took part in the comparison",
    assumptions: BASE_ASSUMPTIONS,
    real: REAL,
    stub: STUB,
    known: None,
};

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C01", seed);
    swarm_flags(&mut r, &mut c);
    if r.chance(0.1) {
        c.set("no_block", 1.0);
    }
    c.set("env", (r.u64() >> 20) as f64);
    c.set("thread", r.chance(0.15) as u8 as f64);
    let mut p = Profile::default();
    p.arena = *r.pick(&[2.5, 4.0, 8.0]);
    p.joints = (0, 6);
    p.w.push(("stats", 2.0));
    p.w.push(("query", 1.0));
    p.w.push(("ray", 1.0));
    p.w.push(("odd_step", 1.0));
    p.w.push(("shift", 0.3));
    p.w.push(("clock", 2.0));
    p.w.push(("mass_data", 0.5));
    if thorough || r.chance(0.1) {
        p.ops = (40, 250);
        p.bodies = (6, 24);
    }
    let mut g = Gen::new(r, p);
    g.schedule(&mut c);
    c
}

/// One execution in a given "environment": clock, heap layout, unrelated reads, held handles.
fn once(case: &Case, env: u64, ctx: &mut Ctx) -> Vec<u64> {
    crate::clock::install();
    crate::clock::reset(1 + env % 100_000);
    let mut r = Rng::new(env);
    let mut ballast: Vec<Vec<u8>> = vec![];
    let mut sim = Sim::new(case);
    let mut out = vec![];
    for op in &case.ops {
        if env != 0 {
            // Unrelated work in the same process.
            for _ in 0..r.below(4) {
                let n = 1 + r.below(600);
                ballast.push(vec![0u8; n]);
            }
            while ballast.len() > 40 {
                let i = r.below(ballast.len());
                ballast.swap_remove(i);
            }
            if r.chance(0.3) {
                crate::clock::jump(r.int(-2_000_000_000, 4_000_000_000));
                ctx.fault("clock_jump");
            }
            if r.chance(0.3) {
                let k = r.u32() as u8 % 6;
                sim.apply(&Op::Stats { k });
                ctx.fault("extra_statistics_read");
            }
            if r.chance(0.1) {
                sim.hold = !sim.hold;
                ctx.fault("handle_holding_toggled");
            }
        }
        let info = sim.apply(op);
        let mut h = Hash::default();
        sim.digest(&mut h);
        sim.digest_events(info.ev0, &mut h);
        sim.rec.borrow_mut().ev.clear();
        if info.dt.is_some() && out_of_range(&sim) {
            break;
        }
        out.push(h.0);
    }
    out
}

struct M {
    out: Vec<u64>,
}

impl Monitor for M {
    fn after(&mut self, sim: &mut Sim, _op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        let mut h = Hash::default();
        sim.digest(&mut h);
        sim.digest_events(info.ev0, &mut h);
        self.out.push(h.0);
        ctx.digest.u(h.0);
        if info.dt.is_some() && (!sim.joints.is_empty() || contacts(sim).iter().any(|c| c.touching)) {
            ctx.reached = true;
        }
        Ok(())
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = M { out: vec![] };
    drive(case, ctx, &mut m)?;
    let a = m.out;
    let env = (case.u("env") as u64) | 1;
    let b = if case.on("thread") {
        let c2 = case.clone();
        ctx.fault("run_on_another_thread");
        match std::thread::spawn(move || {
            let mut x = Ctx::new();
            once(&c2, env, &mut x)
        })
        .join()
        {
            Ok(b) => b,
            Err(_) => return viol("diverged", "the second execution panicked, the first did not".into()),
        }
    } else {
        once(case, env, ctx)
    };
    ctx.st.evals += a.len() as u64;
    for i in 0..a.len().max(b.len()) {
        if a.get(i) != b.get(i) {
            let k = case.ops.get(i).map(|o| o.kind()).unwrap_or("end");
            return Err(Violation { kind: "diverged".into(), detail: format!("two executions of one history differ from operation {i} ({k}) on"), at: i });
        }
    }
    Ok(())
}
