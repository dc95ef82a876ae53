//! Destroyed objects are released and announced once; nothing leaks.

use super::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::user::live;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C19",
    gen,
    run,
    quick: 30000,
    thorough: 1_000_000,
    rule: "a run counts when a body with fixtures and a joint was destroyed, and handles were held past a destruction or a populated world was dropped",
    assumptions: &[
        "release is judged once the caller holds no handle to a destroyed object (a held handle may keep its former list neighbours)",
        "gear joints are destroyed before the joints they connect, as documented",
    ],
    real: REAL,
    stub: STUB,
    known: None,
};

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C19", seed);
    swarm_flags(&mut r, &mut c);
    let mut p = Profile::default();
    p.arena = *r.pick(&[3.0, 6.0]);
    p.joints = (0, 5);
    for e in p.w.iter_mut() {
        match e.0 {
            "del_body" => e.1 = 6.0,
            "del_fixture" | "body" | "fixture" | "joint" => e.1 = 5.0,
            "del_joint" => e.1 = 3.0,
            _ => {}
        }
    }
    p.arms.push("keep");
    p.w.push(("hold", 2.0));
    p.w.push(("drop_world", 0.7));
    if thorough {
        p.ops = (30, 160);
    }
    let mut g = Gen::new(r, p);
    g.schedule(&mut c);
    c
}

#[derive(Default)]
struct M {
    dead: BTreeSet<u32>,
    jointed: bool,
    held: bool,
    dropped: bool,
}

fn sorted(v: &[u32]) -> Vec<u32> {
    let mut v = v.to_vec();
    v.sort();
    v
}

impl Monitor for M {
    fn after(&mut self, sim: &mut Sim, op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        let (mut bf, mut bj) = (vec![], vec![]);
        for e in &sim.rec.borrow().ev[info.ev0..] {
            match e {
                E::ByeFixture { id, body } => {
                    if !info.dead_bodies.contains(body) {
                        return viol("goodbye-body", format!("fixture {id} was announced with body {body}, which is not being destroyed"));
                    }
                    bf.push(*id)
                }
                E::ByeJoint { id } => bj.push(*id),
                _ => {}
            }
        }
        ctx.st.evals += 2;
        if sorted(&bf) != sorted(&info.bye_fix) {
            return viol("goodbye-fixtures", format!("announced fixtures {:?}, destroyed implicitly {:?}", sorted(&bf), sorted(&info.bye_fix)));
        }
        if sorted(&bj) != sorted(&info.bye_joints) {
            return viol("goodbye-joints", format!("announced joints {:?}, destroyed implicitly {:?}", sorted(&bj), sorted(&info.bye_joints)));
        }
        for d in [&info.dead_bodies, &info.dead_fix, &info.dead_joints] {
            self.dead.extend(d.iter());
        }
        if matches!(op, Op::DelBody { .. }) && !info.bye_joints.is_empty() && !info.bye_fix.is_empty() {
            self.jointed = true;
        }
        let holding = {
            let r = sim.rec.borrow();
            !sim.held.is_empty() || !r.kept_bodies.is_empty() || !r.kept_fixtures.is_empty()
        };
        if holding && !self.dead.is_empty() {
            self.held = true;
        }
        if matches!(op, Op::DropWorld { .. }) && info.dead_bodies.len() > 2 {
            self.dropped = true;
        }
        if !holding {
            for id in &self.dead {
                ctx.st.evals += 1;
                if live(*id) != 0 {
                    return viol("not-released", format!("object {id} was destroyed and no handle is held, but {} copies of its user data live on", live(*id)));
                }
            }
            self.dead.clear();
        }
        for b in &sim.bodies {
            ctx.st.evals += 1;
            for id in std::iter::once(b.id).chain(b.fix.iter().map(|f| f.id)) {
                if live(id) < 1 {
                    return viol("released-early", format!("the user data of the existing object {id} is gone"));
                }
            }
        }
        for j in &sim.joints {
            if live(j.id) < 1 {
                return viol("released-early", format!("the user data of the existing joint {} is gone", j.id));
            }
        }
        if self.jointed && (self.held || self.dropped) {
            ctx.reached = true;
        }
        Ok(())
    }
}

/// The bare execution, everything dropped at the end; in half of the runs handles outlive the world.
fn bare(case: &Case) {
    let mut sim = Sim::new(case);
    for op in &case.ops {
        sim.apply(op);
        sim.rec.borrow_mut().ev.clear();
        if out_of_range(&sim) {
            break;
        }
    }
    if case.seed % 2 == 0 {
        let keep: Vec<_> = sim.bodies.iter().map(|b| b.ptr.clone()).collect();
        let rec = sim.rec.clone();
        drop(sim);
        drop(rec);
        drop(keep);
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    let mut sim = Sim::new(case);
    drive_on(&mut sim, case, ctx, &mut M::default())?;
    let last = sim.next_id;
    finish(sim, ctx)?;
    for id in 1..last {
        ctx.st.evals += 1;
        if live(id) != 0 {
            return viol("leaked-user-data", format!("everything was dropped, but {} copies of the user data of object {id} live on", live(id))).map_err(|mut v: Violation| {
                v.at = case.ops.len();
                v
            });
        }
    }
    // Once more, watching the heap: all tables of the harness are warm by now.
    crate::clock::reset(137);
    let before = crate::alloc::live();
    bare(case);
    let after = crate::alloc::live();
    ctx.st.evals += 1;
    if before != after {
        return viol(
            "leaked-memory",
            format!("everything was dropped, but {} heap blocks with {} bytes were not given back", after.0 - before.0, after.1 - before.1),
        );
    }
    Ok(())
}
