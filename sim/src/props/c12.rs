//! Worlds are isolated from one another.

use super::*;
use crate::gen::*;
use crate::rng::{Hash, Rng};

pub const PROP: Prop = Prop {
    id: "C12",
    gen,
    run,
    quick: 16000,
    thorough: 600_000,
    rule: "a run counts when at least two worlds stepped alternately with contacts or joints in each",
    assumptions: BASE_ASSUMPTIONS,
    real: REAL,
    stub: STUB,
    known: None,
};

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C12", seed);
    swarm_flags(&mut r, &mut c);
    if r.chance(0.1) {
        c.set("no_block", 1.0);
    }
    let n = r.int(2, 4) as usize;
    c.set("worlds", n as f64);
    let mut lists: Vec<Vec<Op>> = vec![];
    for _ in 0..n {
        let mut p = Profile::default();
        p.arena = *r.pick(&[2.0, 3.0, 5.0]);
        p.ops = if thorough { (20, 120) } else { (10, 50) };
        p.joints = (0, 4);
        p.w.push(("odd_step", 1.0));
        p.w.push(("save", 1.0));
        p.w.push(("shift", 0.3));
        let mut tmp = Case::new("C12", seed);
        let mut g = Gen::new(r.fork(), p);
        g.schedule(&mut tmp);
        let mut ops = tmp.ops;
        if let (Some(x), Some(y)) = (tmp.cfg.get("gx"), tmp.cfg.get("gy")) {
            ops.insert(0, Op::Gravity { x: *x as f32, y: *y as f32 });
        } else {
            ops.insert(0, Op::Gravity { x: 0.0, y: -10.0 });
        }
        if r.chance(0.4) {
            let at = r.below(ops.len());
            ops.insert(at, Op::DropWorld { keep: false });
        }
        lists.push(ops);
    }
    // Interleave.
    let mut pos = vec![0usize; n];
    let mut cur = usize::MAX;
    loop {
        let open: Vec<usize> = (0..n).filter(|i| pos[*i] < lists[*i].len()).collect();
        if open.is_empty() {
            break;
        }
        let w = *r.pick(&open);
        if w != cur {
            c.ops.push(Op::Switch { w: w as u32 });
            cur = w;
        }
        let burst = r.int(1, 6);
        for _ in 0..burst {
            if pos[w] < lists[w].len() {
                c.ops.push(lists[w][pos[w]].clone());
                pos[w] += 1;
            }
        }
    }
    c
}

struct World {
    sim: Sim,
    out: Vec<u64>,
    live: bool,
}

fn one(w: &mut World, case: &Case, op: &Op, ctx: &mut Ctx) -> Res {
    if !w.live {
        return Ok(());
    }
    let mut h = Hash::default();
    match op {
        Op::DropWorld { .. } => {
            w.sim = Sim::new(case);
            w.out.push(0);
            return Ok(());
        }
        Op::Save { .. } => {
            let s = serde_json::to_string(&*w.sim.world.borrow()).unwrap_or_default();
            h.s(&s);
        }
        _ => {
            let info = w.sim.apply(op);
            w.sim.digest_events(info.ev0, &mut h);
            if info.dt.is_some() && out_of_range(&w.sim) {
                w.live = false;
            }
        }
    }
    problems(&w.sim)?;
    w.sim.digest(&mut h);
    w.sim.rec.borrow_mut().ev.clear();
    w.out.push(h.0);
    ctx.st.evals += 1;
    Ok(())
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    let n = case.u("worlds").max(1);
    // Interleaved.
    let mut ws: Vec<World> = (0..n).map(|_| World { sim: Sim::new(case), out: vec![], live: true }).collect();
    let mut cur = 0;
    let mut stepped = vec![false; n];
    for (i, op) in case.ops.iter().enumerate() {
        if let Op::Switch { w } = op {
            cur = *w as usize % n;
            ctx.sig.u(cur as u64);
            ctx.fault("switch_of_world");
            continue;
        }
        ctx.st.ops += 1;
        ctx.sig.s(op.kind());
        *ctx.st.op_kinds.entry(op.kind().to_string()).or_insert(0) += 1;
        if let Some(f) = op_fault(op, &ws[cur].sim) {
            ctx.fault(f);
        }
        if let Op::DropWorld { .. } = op {
            ctx.fault("world_dropped");
        }
        if let Op::Step { dt, .. } = op {
            ctx.st.steps += 1;
            ctx.st.sim_s += *dt as f64;
            if ws[cur].sim.world.borrow().get_contact_count() > 0 || !ws[cur].sim.joints.is_empty() {
                stepped[cur] = true;
            }
        }
        one(&mut ws[cur], case, op, ctx).map_err(|mut v| {
            v.at = i;
            v
        })?;
        ctx.digest.u(*ws[cur].out.last().unwrap_or(&0));
    }
    if stepped.iter().filter(|s| **s).count() >= 2 {
        ctx.reached = true;
    }
    let inter: Vec<Vec<u64>> = ws.iter().map(|w| w.out.clone()).collect();
    drop(ws);
    // Alone.
    for k in 0..n {
        let mut w = World { sim: Sim::new(case), out: vec![], live: true };
        let mut cur = 0;
        let mut at = vec![];
        for (i, op) in case.ops.iter().enumerate() {
            if let Op::Switch { w } = op {
                cur = *w as usize % n;
                continue;
            }
            if cur == k {
                let before = w.out.len();
                one(&mut w, case, op, ctx).map_err(|mut v| {
                    v.at = i;
                    v
                })?;
                if w.out.len() > before {
                    at.push(i);
                }
            }
        }
        for j in 0..w.out.len().max(inter[k].len()) {
            if w.out.get(j) != inter[k].get(j) {
                let i = at.get(j).copied().unwrap_or(0);
                return Err(Violation {
                    kind: "worlds-interfere".into(),
                    detail: format!("world {k} behaves differently alone from its operation {j} (schedule position {i}) on"),
                    at: i,
                });
            }
        }
    }
    Ok(())
}
