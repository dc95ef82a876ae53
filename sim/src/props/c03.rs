//! Begin and end touching are reported exactly once and in pairs.

use super::*;
use crate::gen::*;
use crate::rng::Rng;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C03",
    gen,
    run,
    quick: 24000,
    thorough: 1_200_000,
    rule: "a run counts when at least one begin and one end were reported",
    assumptions: BASE_ASSUMPTIONS,
    real: REAL,
    stub: STUB,
    known: None,
};

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C03", seed);
    swarm_flags(&mut r, &mut c);
    let mut p = Profile::default();
    p.arena = *r.pick(&[2.5, 4.0, 6.0]);
    p.sensors = 0.35;
    p.w.push(("odd_step", 1.5));
    p.w.push(("shift", 0.3));
    if thorough {
        p.ops = (30, 200);
        p.bodies = (3, 16);
    }
    let mut g = Gen::new(r, p);
    g.schedule(&mut c);
    c
}

#[derive(Default)]
pub struct Pairing {
    pub open: BTreeSet<Key>,
    dead_fix: BTreeSet<u32>,
    begins: u64,
    ends: u64,
}

impl Pairing {
    pub fn feed(&mut self, sim: &Sim, info: &Info, is_step: bool, ctx: &mut Ctx) -> Res {
        let rec = sim.rec.borrow();
        for e in &rec.ev[info.ev0..] {
            ctx.st.evals += 1;
            if let Some(k) = e.key() {
                for f in [k.fa, k.fb] {
                    if self.dead_fix.contains(&f) {
                        return viol("callback-after-goodbye", format!("fixture {f} is mentioned in {e:?} after it was reported destroyed"));
                    }
                }
            }
            match e {
                E::Begin { k, touching, .. } => {
                    self.begins += 1;
                    if !is_step {
                        return viol("begin-outside-step", format!("begin for {k:?} outside a step"));
                    }
                    if !touching {
                        return viol("begin-not-touching", format!("begin for {k:?} whose contact does not report touching"));
                    }
                    if !self.open.insert(k.norm()) {
                        return viol("begin-twice", format!("second begin for {k:?} without an end"));
                    }
                }
                E::End { k, .. } => {
                    self.ends += 1;
                    if !self.open.remove(&k.norm()) {
                        return viol("end-without-begin", format!("end for {k:?} that had not begun"));
                    }
                    if !is_step {
                        ctx.probe("end_by_structural_change");
                    }
                }
                E::Pre { k, d, .. } => {
                    if !self.open.contains(&k.norm()) {
                        return viol("pre-without-begin", format!("pre-solve for {k:?} that has not begun"));
                    }
                    if !d.touching {
                        return viol("pre-not-touching", format!("pre-solve for {k:?} not touching"));
                    }
                }
                E::Post { k, .. } => {
                    if !self.open.contains(&k.norm()) {
                        return viol("post-without-begin", format!("post-solve for {k:?} that has not begun"));
                    }
                }
                E::ByeFixture { id, .. } => {
                    self.dead_fix.insert(*id);
                }
                _ => {}
            }
        }
        for f in &info.dead_fix {
            self.dead_fix.insert(*f);
        }
        Ok(())
    }

    pub fn compare(&self, sim: &Sim, ctx: &mut Ctx) -> Res {
        let now: BTreeSet<Key> = contacts(sim).iter().filter(|c| c.touching).map(|c| c.k.norm()).collect();
        ctx.st.evals += 1;
        if let Some(k) = now.difference(&self.open).next() {
            return viol("touching-without-begin", format!("{k:?} is touching but no begin is outstanding"));
        }
        if let Some(k) = self.open.difference(&now).next() {
            return viol("missing-end", format!("{k:?} began, has not ended, but is not touching any more"));
        }
        Ok(())
    }
}

struct M(Pairing);

impl Monitor for M {
    fn after(&mut self, sim: &mut Sim, _op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        self.0.feed(sim, info, info.dt.is_some(), ctx)?;
        self.0.compare(sim, ctx)?;
        if self.0.begins > 0 && self.0.ends > 0 {
            ctx.reached = true;
        }
        Ok(())
    }
    fn end(&mut self, _sim: &mut Sim, ctx: &mut Ctx) -> Res {
        ctx.probe_n("begins", self.0.begins);
        ctx.probe_n("ends", self.0.ends);
        Ok(())
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    drive(case, ctx, &mut M(Pairing::default()))
}
