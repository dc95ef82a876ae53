//! Touching contacts match the geometry.

use super::*;
use crate::gen::*;
use crate::rng::Rng;
use geom::*;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C04",
    gen,
    run,
    quick: 120000,
    thorough: 1_500_000,
    rule: "a run counts when at least one clearly overlapping and one clearly separate pair with nearby boxes were judged",
    assumptions: &[
        "pairs within 0.02 of touching (two flat-sided shapes: overlapping by less than 0.04) are not judged",
        "pairs without an awake moving body, and pairs ever linked by a joint that forbids collision, are not judged as missing",
        "one-sided edges and chains are judged as missing only against sensors and circles in front of a segment's interior",
        "sub-stepping off (a step may then end before its collision phase is complete)",
    ],
    real: REAL,
    stub: STUB,
    known: None,
};

/// After about half of the steps, and after some calls that move or add something, a zero-length
/// step follows: its collision phase sees the positions as they are, which is when geometry and
/// contacts can be compared.
pub fn add_probes(c: &mut Case, r: &mut Rng) {
    let mut out = vec![];
    for o in c.ops.drain(..) {
        let p = match &o {
            Op::Step { dt, .. } if *dt > 0.0 => 0.5,
            Op::Step { .. } => 0.0,
            Op::Body(_) => 0.1,
            Op::Fixture { .. } | Op::Transform { .. } | Op::Enable { .. } => 0.4,
            _ => 0.02,
        };
        out.push(o);
        if r.chance(p) {
            out.push(Op::Step { dt: 0.0, vi: 8, pi: 3 });
        }
    }
    c.ops = out;
}

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C04", seed);
    swarm_flags(&mut r, &mut c);
    c.cfg.remove("substep");
    let mut p = Profile::default();
    p.arena = *r.pick(&[2.0, 3.0, 5.0]);
    p.sensors = 0.4;
    p.types = [0.2, 0.25, 0.55];
    p.joints = (0, 2);
    p.sleepers = 0.1;
    p.speed = *r.pick(&[2.0, 8.0, 30.0]);
    for e in p.w.iter_mut() {
        match e.0 {
            "transform" => e.1 = 10.0,
            "vel" => e.1 = 5.0,
            "flag" => e.1 = 0.0,
            _ => {}
        }
    }
    p.w.push(("odd_step", 1.0));
    p.w.push(("shift", 0.5));
    if thorough {
        p.ops = (30, 150);
        p.bodies = (3, 14);
    }
    let mut g = Gen::new(r.fork(), p);
    g.schedule(&mut c);
    add_probes(&mut c, &mut r);
    c
}

#[derive(Default)]
pub struct Judge {
    /// Calls since the last step that make pairs eligible only at the end of the next one.
    pub pending: bool,
    pub awake: BTreeMap<u32, bool>,
    pub over: u64,
    pub apart: u64,
    /// Judge only missing contacts / only pairs in this set.
    pub only_missing: bool,
    /// Complete steps since sub-stepping was last on.
    pub full: u32,
    pub sub_seen: bool,
}

fn solid_must_touch(pa: &Prim, pb: &Prim) -> bool {
    // pa is the one-sided one, if any.
    let (e, o) = if pa.one_sided { (pa, pb) } else if pb.one_sided { (pb, pa) } else { return true };
    if o.pts.len() != 1 {
        return false;
    }
    // Circle clearly in front of the interior of the segment.
    let c = o.pts[0];
    let d = sub(e.pts[1], e.pts[0]);
    let l = len(d);
    let t = dot(sub(c, e.pts[0]), d) / (l * l);
    let right = (d.1 / l, -d.0 / l);
    let h = dot(right, sub(c, e.pts[0]));
    t > 0.02 && t < 0.98 && h > 0.02
}

impl Judge {
    pub fn before(&mut self, sim: &Sim) {
        self.awake.clear();
        for b in &sim.bodies {
            self.awake.insert(b.id, b.ptr.borrow().is_awake());
        }
    }

    pub fn after(&mut self, sim: &Sim, op: &Op, ctx: &mut Ctx) -> Res {
        let (probe, step) = match op {
            Op::Step { dt, .. } => (*dt == 0.0 && !self.pending, *dt > 0.0),
            _ => (false, false),
        };
        if step {
            self.pending = false;
        }
        self.pending |= matches!(op, Op::Type { .. } | Op::Filter { .. } | Op::FilterRule { .. } | Op::Joint(_) | Op::DelJoint { .. });
        if sim.flags[3] {
            self.sub_seen = true;
            self.full = 0;
        } else if step {
            self.full += 1;
        }
        // The first step after sub-stepping may only finish the one before.
        if probe && (!self.sub_seen || self.full >= 2) {
            self.judge(sim, ctx)?;
        }
        Ok(())
    }

    fn judge(&mut self, sim: &Sim, ctx: &mut Ctx) -> Res {
        let touching: BTreeMap<Key, bool> = contacts(sim).iter().map(|c| (c.k.norm(), c.touching)).collect();
        let mut ps: Vec<(usize, usize, usize, Prim, Aabb)> = vec![];
        for (i, b) in sim.bodies.iter().enumerate() {
            if !b.s.enabled {
                continue;
            }
            let xf = xf_of(b);
            if xf.p.0.abs() > 300.0 || xf.p.1.abs() > 300.0 {
                continue;
            }
            for (j, f) in b.fix.iter().enumerate() {
                for c in 0..f.f.shape.children() {
                    let p = world_prim(&f.f.shape, c, &xf);
                    let a = Aabb::of(&p);
                    ps.push((i, j, c, p, a));
                }
            }
        }
        for x in 0..ps.len() {
            for y in x + 1..ps.len() {
                let (i, j, ci, pa, aa) = &ps[x];
                let (k, l, ck, pb, ab) = &ps[y];
                if i == k {
                    continue;
                }
                let (ba, bb) = (&sim.bodies[*i], &sim.bodies[*k]);
                let (fa, fb) = (&ba.fix[*j], &bb.fix[*l]);
                let key = Key { fa: fa.id, ca: *ci as i32, fb: fb.id, cb: *ck as i32 }.norm();
                let t = touching.get(&key).copied().unwrap_or(false);
                let near = aa.grow(0.3).overlaps(ab);
                if !near && !t {
                    continue;
                }
                let active = |b: &MB| b.s.t != 0 && self.awake.get(&b.id) == Some(&true) && b.ptr.borrow().is_awake();
                if !active(ba) && !active(bb) {
                    continue;
                }
                let edges = pa.pts.len() == 2 && pb.pts.len() == 2;
                let g = gap(pa, pb);
                ctx.st.evals += 1;
                if t {
                    if edges {
                        return viol("edge-pair-touching", format!("two edges touch: {key:?}"));
                    }
                    if g > 0.02 && !self.only_missing {
                        return viol("touching-but-apart", format!("{key:?} reported touching with a gap of {g:.4} ({:?} {:?})", fa.f.shape, fb.f.shape));
                    }
                    if g > 0.0 {
                        ctx.max("largest gap reported touching", g);
                    }
                    continue;
                }
                if g > 0.02 {
                    if near {
                        self.apart += 1;
                    }
                    continue;
                }
                if edges || !eligible(sim, ba, fa, bb, fb) {
                    continue;
                }
                if sim.was_joined.contains(&(ba.id.min(bb.id), ba.id.max(bb.id))) {
                    continue;
                }
                let sensor = fa.f.sensor || fb.f.sensor;
                let deep = -g;
                let need = if sensor || pa.pts.len() == 1 || pb.pts.len() == 1 { 0.02 } else { 0.04 };
                if deep < need || (!sensor && !solid_must_touch(pa, pb)) {
                    continue;
                }
                return viol(
                    "overlap-not-touching",
                    format!("{key:?} overlaps by {deep:.4} (sensor {sensor}) but is not touching ({:?} {:?})", fa.f.shape, fb.f.shape),
                );
            }
        }
        for x in 0..ps.len() {
            for y in x + 1..ps.len() {
                if ps[x].0 != ps[y].0 && ps[x].4.overlaps(&ps[y].4) && gap(&ps[x].3, &ps[y].3) < -0.02 {
                    self.over += 1;
                }
            }
        }
        Ok(())
    }
}

struct M(Judge);

impl Monitor for M {
    fn before(&mut self, sim: &mut Sim, _op: &Op, _ctx: &mut Ctx) {
        self.0.before(sim);
    }
    fn after(&mut self, sim: &mut Sim, op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        for e in &sim.rec.borrow().ev[info.ev0..] {
            if let E::Pre { k, d, .. } = e {
                points(sim, *k, d, ctx)?;
            }
        }
        self.0.after(sim, op, ctx)?;
        if self.0.over > 0 && self.0.apart > 0 {
            ctx.reached = true;
        }
        Ok(())
    }
}

/// The contact points lie where the shapes meet, and are no deeper than the shapes overlap along the
/// normal.
fn points(sim: &Sim, k: Key, d: &PreData, ctx: &mut Ctx) -> Res {
    let (Some((_, fa)), Some((_, fb))) = (sim.body_of_fix(k.fa), sim.body_of_fix(k.fb)) else { return Ok(()) };
    let prim = |f: &MF, c: i32, x: [f32; 4]| world_prim(&f.f.shape, c as usize, &Xf { p: (x[0] as f64, x[1] as f64), s: x[2] as f64, c: x[3] as f64 });
    let far = |x: [f32; 4]| x[0].abs().max(x[1].abs()) > 300.0;
    if d.xf.iter().any(|x| far(*x)) || k.ca as usize >= fa.f.shape.children() || k.cb as usize >= fb.f.shape.children() {
        return Ok(());
    }
    let (pa, pb) = (prim(fa, k.ca, d.xf[0]), prim(fb, k.cb, d.xf[1]));
    let n = (d.normal.0 as f64, d.normal.1 as f64);
    ctx.st.evals += 1;
    if (len(n) - 1.0).abs() > 1e-3 {
        return viol("normal", format!("contact {k:?} has the normal {n:?}"));
    }
    let hi = pa.pts.iter().map(|v| dot(n, *v)).fold(f64::MIN, f64::max) + pa.r;
    let lo = pb.pts.iter().map(|v| dot(n, *v)).fold(f64::MAX, f64::min) - pb.r;
    // Between solid shapes the normal is the way out with the least overlap.
    if pa.pts.len() != 2 && pb.pts.len() != 2 {
        let most = hi - lo + gap(&pa, &pb);
        ctx.st.evals += 1;
        ctx.max("overlap along the normal beyond the least overlap, m", most);
        if most > 0.03 {
            return viol("normal-direction", format!("{k:?} overlap by {:.4} along the normal {n:?} and by {:.4} at least", hi - lo, -gap(&pa, &pb)));
        }
    }
    for j in 0..d.count.min(2) {
        let depth = -d.seps[j] as f64;
        let at = Prim { pts: vec![(d.points[j].0 as f64, d.points[j].1 as f64)], r: 0.0, one_sided: false, ghost: None };
        ctx.st.evals += 1;
        ctx.max("depth of a contact point beyond the overlap along the normal, m", depth - (hi - lo));
        if depth - (hi - lo) > 0.005 {
            return viol("point-depth", format!("point {j} of {k:?} is {depth:.4} deep where the shapes overlap by {:.4} along the normal", hi - lo));
        }
        let off = gap(&at, &pa).max(gap(&at, &pb));
        ctx.max("distance of a contact point from the shapes beyond half its depth, m", off - 0.5 * depth.max(0.0));
        if off - 0.5 * depth.max(0.0) > 0.03 {
            return viol("point-place", format!("point {j} of {k:?}, {depth:.4} deep, lies {off:.4} away from one of the shapes"));
        }
    }
    Ok(())
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    drive(case, ctx, &mut M(Judge::default()))
}
