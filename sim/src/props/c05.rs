//! Only pairs allowed to collide ever have a contact.

use super::c04::{add_probes, Judge};
use super::*;
use crate::gen::*;
use crate::rng::Rng;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C05",
    gen,
    run,
    quick: 40000,
    thorough: 1_500_000,
    rule: "a run counts when the eligibility of a pair that had a contact changed, or a pair became eligible while overlapping",
    assumptions: &[
        "re-collision after a joint is destroyed is promised only once a body moves, so such pairs are not judged as missing",
        "a custom filter answers as a function of the pair; when its rule changes all fixtures are re-filtered",
        "filter data are changed between steps",
    ],
    real: REAL,
    stub: STUB,
    known: None,
};

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C05", seed);
    swarm_flags(&mut r, &mut c);
    if r.chance(0.4) {
        c.set("custom_filter", 1.0);
        let s = r.u32() % 1000;
        c.set("filter_salt", s as f64);
    }
    let mut p = Profile::default();
    p.arena = *r.pick(&[1.5, 2.5, 4.0]);
    p.filters = 0.5;
    p.joints = (0, 4);
    p.sensors = 0.2;
    p.sleepers = 0.2;
    for e in p.w.iter_mut() {
        match e.0 {
            "filter" => e.1 = 10.0,
            "type" | "enable" | "joint" | "del_joint" | "filter_rule" => e.1 = 5.0,
            _ => {}
        }
    }
    if thorough {
        p.ops = (30, 150);
    }
    let mut g = Gen::new(r.fork(), p);
    g.filters = 0.5;
    g.schedule(&mut c);
    add_probes(&mut c, &mut r);
    c
}

struct M {
    j: Judge,
    el: BTreeMap<(u32, u32), bool>,
}

impl Monitor for M {
    fn before(&mut self, sim: &mut Sim, _op: &Op, _ctx: &mut Ctx) {
        self.j.before(sim);
    }
    fn after(&mut self, sim: &mut Sim, op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        let cs = contacts(sim);
        for c in &cs {
            let ((ba, fa), (bb, fb)) = match (sim.body_of_fix(c.k.fa), sim.body_of_fix(c.k.fb)) {
                (Some(a), Some(b)) => (a, b),
                _ => return viol("contact-dead", format!("{:?} involves a destroyed fixture", c.k)),
            };
            let e = eligible(sim, ba, fa, bb, fb);
            ctx.st.evals += 1;
            if info.dt.is_some() {
                if !e {
                    let why = format!(
                        "types {}/{} enabled {}/{} filters {:?}/{:?} same body {}",
                        ba.s.t,
                        bb.s.t,
                        ba.s.enabled,
                        bb.s.enabled,
                        (fa.f.cat, fa.f.mask, fa.f.group),
                        (fb.f.cat, fb.f.mask, fb.f.group),
                        ba.id == bb.id
                    );
                    return viol("ineligible-contact", format!("contact {:?} exists after the step though not allowed: {why}", c.k));
                }
            } else if !e && self.el.get(&(c.k.fa, c.k.fb)) == Some(&true) {
                ctx.reached = true;
                ctx.probe("contact_became_ineligible");
            }
            self.el.insert((c.k.fa, c.k.fb), e);
        }
        if matches!(op, Op::Filter { .. } | Op::Enable { on: true, .. } | Op::Type { .. } | Op::FilterRule { .. }) && !info.skipped {
            ctx.probe("eligibility_changed");
        }
        let o = self.j.over;
        self.j.after(sim, op, ctx)?;
        if self.j.over > o {
            ctx.reached = true;
        }
        Ok(())
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = M { j: Judge { only_missing: true, ..Default::default() }, el: BTreeMap::new() };
    drive(case, ctx, &mut m)
}
