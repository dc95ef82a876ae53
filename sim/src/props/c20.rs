//! Contact impulses are admissible and follow the callback protocol.

use super::*;
use crate::gen::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C20",
    gen,
    run,
    quick: 200000,
    thorough: 2_000_000,
    rule: "a run counts when impulses were reported, a contact was disabled or customised in a callback, and the customised contact was seen again",
    assumptions: &[
        "that pre-solve precedes post-solve is judged for contacts with a body that was awake when the step began",
        "that friction reaches friction times load is judged for a body sliding on a fixed floor",
        "that every enabled pre-solve is followed by a post-solve is judged for steps that are not split by sub-stepping",
    ],
    real: REAL,
    stub: STUB,
    known: None,
};

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C20", seed);
    if r.chance(0.25) {
        return slide(r, c);
    }
    swarm_flags(&mut r, &mut c);
    if r.chance(0.1) {
        c.set("no_block", 1.0);
    }
    let mut p = Profile::default();
    p.arena = *r.pick(&[2.5, 4.0]);
    p.bodies = (3, 9);
    p.sensors = 0.2;
    p.filters = 0.05;
    p.joints = *r.pick(&[(0, 0), (0, 2)]);
    p.speed = *r.pick(&[2.0, 10.0, 60.0]);
    p.arms = vec!["disable", "disable", "friction", "restitution", "tangent", "threshold", "reset", "read", "clock", "kick"];
    for e in p.w.iter_mut() {
        match e.0 {
            "arm" => e.1 = 8.0,
            "disarm" | "surface" | "sensor" => e.1 = 3.0,
            _ => {}
        }
    }
    p.w.push(("odd_step", 1.5));
    p.steps = 0.7;
    if thorough {
        p.ops = (30, 180);
    }
    let mut g = Gen::new(r, p);
    g.schedule(&mut c);
    c
}

/// Bodies sliding on a fixed floor or belt.
fn slide(mut r: Rng, mut c: Case) -> Case {
    c.set("slide", 1.0);
    c.set("gy", -10.0);
    c.set("no_toi", 1.0);
    if r.chance(0.3) {
        c.set("no_sleep", 1.0);
    }
    let mut g = BodySpec { t: 0, ..Default::default() };
    let mut f = Fix::of(match r.below(2) {
        0 => Shape::Box { hx: 60.0, hy: 0.5, x: 0.0, y: -0.5, a: 0.0 },
        _ => Shape::Edge { a: (-60.0, 0.0), b: (60.0, 0.0) },
    });
    f.mu = r.f(0.1, 1.0);
    g.fix.push(f);
    c.ops.push(Op::Body(g));
    let n = r.int(1, 3);
    for i in 0..n {
        let (hx, hy) = (r.f(0.4, 0.8), r.f(0.1, 0.3));
        let mut b = BodySpec { x: -10.0 + 10.0 * i as f32, y: hy + 0.01, ..Default::default() };
        b.vx = r.f(-12.0, 12.0);
        b.fixed = r.chance(0.5);
        let mut f = Fix::of(Shape::Box { hx, hy, x: 0.0, y: 0.0, a: 0.0 });
        f.mu = r.f(0.1, 0.6);
        f.d = r.logf(0.2, 5.0);
        f.group = -1;
        b.fix.push(f);
        c.ops.push(Op::Body(b));
    }
    if r.chance(0.5) {
        let act = match r.below(2) {
            0 => Act::Tangent(r.f(-5.0, 5.0)),
            _ => Act::Friction(r.f(0.05, 0.5)),
        };
        c.ops.push(Op::Arm { ev: *r.pick(&[Ev::Begin, Ev::Pre]), every: 1, off: 0, act });
    }
    let dt = *r.pick(&[1.0f32 / 60.0, 1.0 / 120.0, 1.0 / 30.0]);
    let vi = r.int(6, 10) as u8;
    for k in 0..r.int(20, 60) {
        if k == 15 && r.chance(0.4) {
            c.ops.push(Op::Disarm);
        }
        if r.chance(0.03) {
            c.ops.push(Op::Vel { b: 1 + r.below(n as usize) as u32, x: r.f(-12.0, 12.0), y: 0.0, w: 0.0 });
        }
        c.ops.push(Op::Step { dt, vi, pi: 3 });
    }
    c
}

/// A contact point's identity and impulses.
type Pt = ([u8; 4], (f32, f32));

fn pts(n: usize, ids: &[[u8; 4]; 2], imp: &[(f32, f32); 2]) -> Vec<Pt> {
    (0..n.min(2)).map(|i| (ids[i], imp[i])).collect()
}

#[derive(Default)]
struct M {
    slide: bool,
    no_block: bool,
    awake: BTreeMap<u32, bool>,
    /// Contacts that had a pre-solve in the previous step, with the settings in force.
    last: BTreeSet<Key>,
    here: BTreeSet<Key>,
    /// Contacts with a sensor that the step has to look at.
    sensors: BTreeSet<Key>,
    /// Contacts that ended within a step and may have been replaced by new ones of the same pair.
    doubt: BTreeSet<Key>,
    /// The points of each contact as last seen, with continuous collision off since.
    pts: BTreeMap<Key, (bool, Vec<Pt>)>,
    full: u32,
    sub: bool,
    posts: bool,
    custom: bool,
    again: bool,
}

impl Monitor for M {
    fn before(&mut self, sim: &mut Sim, op: &Op, _ctx: &mut Ctx) {
        if let Op::Step { .. } = op {
            self.awake = sim.bodies.iter().map(|b| (b.id, b.s.t > 0 && b.ptr.borrow().is_awake())).collect();
            let all = contacts(sim);
            self.here = all.iter().map(|c| c.k.norm()).collect();
            let up = |b: &u32| self.awake.get(b) == Some(&true);
            self.sensors = all.iter().filter(|c| c.sensor && (up(&c.ba) || up(&c.bb))).map(|c| c.k.norm()).collect();
        }
    }

    fn after(&mut self, sim: &mut Sim, op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        let Some(dt) = info.dt else {
            // Settings live as long as the contact.
            let now: BTreeSet<Key> = contacts(sim).iter().map(|c| c.k.norm()).collect();
            sim.rec.borrow_mut().over.retain(|k, _| now.contains(k));
            self.last.retain(|k| now.contains(k));
            self.forget(sim, &now);
            return Ok(());
        };
        if sim.flags[3] {
            self.sub = true;
            self.full = 0;
        } else if dt > 0.0 {
            self.full += 1;
        }
        let whole = !self.sub || self.full >= 2;
        let find = |f: u32| sim.body_of_fix(f);
        // Events of each contact in order: true after a pre-solve that left the contact on.
        let mut live: BTreeMap<Key, Option<bool>> = BTreeMap::new();
        let mut seen: BTreeSet<Key> = BTreeSet::new();
        let rec = sim.rec.borrow();
        let mut pre_data: BTreeMap<Key, &PreData> = BTreeMap::new();
        // Contacts solved at each moving body.
        let mut solved: BTreeMap<u32, u32> = BTreeMap::new();
        for e in &rec.ev[info.ev0..] {
            if let E::Post { ba, bb, .. } = e {
                for b in [ba, bb] {
                    *solved.entry(*b).or_default() += 1;
                }
            }
        }
        for b in sim.bodies.iter().filter(|b| b.s.t < 2) {
            solved.insert(b.id, 1);
        }
        for e in &rec.ev[info.ev0..] {
            match e {
                E::Pre { k, ba, bb, d, disabled } => {
                    let n = k.norm();
                    ctx.st.evals += 1;
                    if d.sensor {
                        return viol("pre-solve-for-sensor", format!("pre-solve for the sensor contact {k:?}"));
                    }
                    if !d.enabled {
                        return viol("disabled-too-long", format!("contact {k:?} is still disabled when its next pre-solve arrives"));
                    }
                    if d.count == 0 || d.count > 2 {
                        return viol("no-points", format!("pre-solve for {k:?} with {} contact points", d.count));
                    }
                    let (new, old) = (pts(d.count, &d.ids, &d.imp), pts(d.old_count, &d.old_ids, &d.old_imp));
                    // A point clipped from an edge may share the identity of the edge's end.
                    let solid = |f: u32| sim.body_of_fix(f).is_some_and(|(_, m)| m.f.shape.has_area());
                    if new.len() == 2 && new[0].0 == new[1].0 && solid(k.fa) && solid(k.fb) {
                        return viol("same-identity", format!("both points of contact {k:?} carry the identity {:?}", new[0].0));
                    }
                    for (id, imp) in &new {
                        let mut same = old.iter().filter(|o| o.0 == *id).peekable();
                        ctx.st.evals += 1;
                        if same.peek().is_none() {
                            if *imp != (0.0, 0.0) {
                                return viol("impulse-from-nowhere", format!("contact {k:?}: the new point {id:?} starts with the impulses {imp:?}; old points {old:?}"));
                            }
                        } else if !same.any(|o| o.1 == *imp) {
                            return viol("impulse-not-carried", format!("contact {k:?}: point {id:?} starts with the impulses {imp:?}; old points {old:?}"));
                        }
                    }
                    if let Some((sure, was)) = self.pts.get(&n) {
                        if *sure && !sim.flags[2] {
                            ctx.st.evals += 1;
                            ctx.probe("old_points_compared");
                            if *was != old {
                                return viol("old-manifold", format!("contact {k:?}: pre-solve gets the old points {old:?}; the contact held {was:?}"));
                            }
                        }
                    }
                    self.pts.insert(n, (!sim.flags[2], new));
                    if live.get(&n) == Some(&Some(true)) && whole && dt > 0.0 && (self.awake.get(ba) == Some(&true) || self.awake.get(bb) == Some(&true)) {
                        return viol("post-missing", format!("two pre-solve calls for the enabled contact {k:?} without a post-solve between"));
                    }
                    // Settings.
                    if let (Some((_, fa)), Some((_, fb))) = (find(k.fa), find(k.fb)) {
                        let o = d.over;
                        let first = seen.insert(n);
                        let known = first && self.last.contains(&n) && self.here.contains(&n) && !self.doubt.contains(&n);
                        let plain = !fa.surface_changed && !fb.surface_changed;
                        let mu = (fa.f.mu * fb.f.mu).sqrt();
                        let e = fa.f.e.max(fb.f.e);
                        let want = [(d.friction, o[0], mu, "friction"), (d.restitution, o[1], e, "restitution"), (d.tangent, o[2], 0.0, "surface speed"), (d.threshold, o[3], fa.f.th.min(fb.f.th), "restitution threshold")];
                        for (i, (got, set, fresh, what)) in want.into_iter().enumerate() {
                            ctx.st.evals += 1;
                            let ok = |x: f32| (got - x).abs() <= 1e-6 * (1.0 + x.abs());
                            let fresh_ok = (i >= 2 || plain) && ok(fresh) || i < 2 && !plain;
                            match set {
                                Some(v) if known => {
                                    if !ok(v) {
                                        return viol("setting-lost", format!("the {what} {v} set on contact {k:?} became {got} without being reset"));
                                    }
                                    self.again = true;
                                    ctx.probe("setting_still_in_force");
                                }
                                Some(v) => {
                                    if !ok(v) && !fresh_ok {
                                        return viol("setting-wrong", format!("the {what} of contact {k:?} is {got}: neither the value {v} set on it nor the usual {fresh}"));
                                    }
                                }
                                None => {
                                    if first && !fresh_ok {
                                        return viol("setting-wrong", format!("the {what} of contact {k:?} is {got} although nothing was set; expected {fresh}"));
                                    }
                                }
                            }
                        }
                    }
                    if *disabled {
                        self.custom = true;
                    }
                    live.insert(n, Some(!*disabled));
                    pre_data.insert(n, d);
                    self.custom |= d.over.iter().any(|x| x.is_some());
                }
                E::Post { k, ba, bb, d } => {
                    let n = k.norm();
                    self.posts = true;
                    ctx.st.evals += 1;
                    if d.sensor {
                        return viol("sensor-impulse", format!("the sensor contact {k:?} reports an impulse"));
                    }
                    if !d.touching {
                        return viol("impulse-not-touching", format!("contact {k:?} is not touching but reports an impulse"));
                    }
                    if !d.enabled {
                        return viol("impulse-while-disabled", format!("the disabled contact {k:?} reports an impulse"));
                    }
                    match live.get(&n) {
                        Some(Some(true)) => {}
                        Some(Some(false)) => return viol("impulse-while-disabled", format!("contact {k:?} was disabled for this step but reports an impulse")),
                        Some(None) => return viol("post-twice", format!("second post-solve for {k:?} after one pre-solve")),
                        None => {
                            if whole && (self.awake.get(ba) == Some(&true) || self.awake.get(bb) == Some(&true)) {
                                return viol("post-without-pre", format!("post-solve for {k:?} without a pre-solve in this step"));
                            }
                        }
                    }
                    live.insert(n, None);
                    ctx.st.evals += 1;
                    if d.count == 0 || d.count > d.points {
                        return viol("impulse-points", format!("contact {k:?} reports {} impulses for {} points", d.count, d.points));
                    }
                    if !sim.flags[2] {
                        for i in 0..d.count {
                            if d.imp[i] != (d.n[i], d.t[i]) {
                                return viol("impulse-not-kept", format!("contact {k:?} point {i}: reports the impulses {:?}, keeps {:?}", (d.n[i], d.t[i]), d.imp[i]));
                            }
                        }
                        if let Some((_, was)) = self.pts.get(&n) {
                            if was.iter().map(|x| x.0).ne(d.ids[..d.points.min(2)].iter().copied()) {
                                return viol("impulse-points", format!("contact {k:?}: points {was:?} before the solver, {:?} after", d.ids));
                            }
                        }
                    }
                    self.pts.insert(n, (!sim.flags[2], pts(d.points, &d.ids, &d.imp)));
                    for i in 0..d.count {
                        ctx.st.evals += 1;
                        if !(d.n[i] >= 0.0) {
                            return viol("negative-impulse", format!("contact {k:?} point {i}: normal impulse {}", d.n[i]));
                        }
                        if let Some(p) = pre_data.get(&n) {
                            if p.out[0] == 0.0 && d.t[i] != 0.0 {
                                return viol("friction-without-friction", format!("contact {k:?} has no friction but point {i} reports a tangent impulse of {}", d.t[i]));
                            }
                        }
                    }
                    if let (false, Some(p), Op::Step { vi, .. }) = (sim.flags[2] || self.sub, pre_data.get(&n), op) {
                        let alone = [ba, bb].iter().all(|b| solved.get(b) == Some(&1));
                        if alone && *vi > 0 {
                            self.closing(sim, *k, dt, p, d, ctx)?;
                            self.gripping(sim, *k, dt, *vi, p, d, ctx)?;
                        }
                    }
                    if let (true, Some(p)) = (self.slide, pre_data.get(&n)) {
                        self.sliding(sim, *k, dt, p, d, ctx)?;
                    }
                }
                E::End { k, .. } => {
                    self.pts.remove(&k.norm());
                    self.doubt.insert(k.norm());
                }
                _ => {}
            }
        }
        if dt > 0.0 && whole {
            for (k, s) in &live {
                ctx.st.evals += 1;
                if *s == Some(true) {
                    return viol("post-missing", format!("the enabled contact {k:?} had a pre-solve but no post-solve in this step"));
                }
            }
        }
        drop(rec);
        self.last = seen;
        let all = contacts(sim);
        for c in all.iter().filter(|c| c.sensor && self.sensors.contains(&c.k.norm())) {
            ctx.st.evals += 1;
            if c.points != 0 {
                return viol("sensor-points", format!("the sensor contact {:?} has {} contact points after a step", c.k, c.points));
            }
        }
        let now: BTreeSet<Key> = all.iter().map(|c| c.k.norm()).collect();
        sim.rec.borrow_mut().over.retain(|k, _| now.contains(k));
        self.doubt.retain(|k| now.contains(k));
        self.forget(sim, &now);
        if self.posts && self.custom && (self.again || self.slide) {
            ctx.reached = true;
        }
        Ok(())
    }
}

impl M {
    /// Drops what is remembered of contacts that are gone, are sensors now, or were moved by continuous collision.
    fn forget(&mut self, sim: &Sim, now: &BTreeSet<Key>) {
        let sensor = |f: u32| sim.body_of_fix(f).map_or(true, |(_, f)| f.f.sensor);
        let toi = sim.flags[2];
        self.pts.retain(|k, _| !toi && now.contains(k) && !sensor(k.fa) && !sensor(k.fb));
    }

    /// Bodies in one contact only: after the step every point of it opens at least as fast as its
    /// restitution demands, and a point that pushes opens no faster.
    fn closing(&mut self, sim: &Sim, k: Key, dt: f32, p: &PreData, d: &PostData, ctx: &mut Ctx) -> Res {
        let kick = sim.rec.borrow().rules.iter().any(|r| matches!(r.act, Act::Kick(..)));
        let (Some((a, _)), Some((b, _))) = (sim.body_of_fix(k.fa), sim.body_of_fix(k.fb)) else { return Ok(()) };
        if kick || self.no_block || dt <= 0.0 || !sim.joints.is_empty() || p.count < d.count {
            return Ok(());
        }
        let side = |m: &MB| {
            let q = m.ptr.borrow();
            let (ms, lc) = (q.get_mass() as f64, q.get_local_center());
            if m.s.t < 2 || ms <= 0.0 {
                return (0.0, 0.0);
            }
            let i = q.get_inertia() as f64 - ms * ((lc.x as f64).powi(2) + (lc.y as f64).powi(2));
            (1.0 / ms, if i > 0.0 && !m.s.fixed { 1.0 / i } else { 0.0 })
        };
        let (sa, sb) = (side(a), side(b));
        let fast = |v: &(f32, f32, f32)| dt * v.0.hypot(v.1) > 1.9 || dt * v.2.abs() > 1.5;
        if d.v.iter().any(fast) || sa.0 + sb.0 <= 0.0 {
            return Ok(());
        }
        let nn = (p.normal.0 as f64, p.normal.1 as f64);
        // Velocities before the impulses, which decide how much each point bounces.
        let mut v0 = [0, 1].map(|i| (d.v[i].0 as f64, d.v[i].1 as f64, d.v[i].2 as f64));
        for j in 0..d.count {
            let (n, t) = (d.n[j] as f64, d.t[j] as f64);
            let imp = (n * nn.0 + t * nn.1, n * nn.1 - t * nn.0);
            for (i, s, sg) in [(0, sa, -1.0), (1, sb, 1.0)] {
                let r = (p.points[j].0 as f64 - p.c[i].0 as f64, p.points[j].1 as f64 - p.c[i].1 as f64);
                v0[i].0 -= sg * s.0 * imp.0;
                v0[i].1 -= sg * s.0 * imp.1;
                v0[i].2 -= sg * s.1 * (r.0 * imp.1 - r.1 * imp.0);
            }
        }
        let (mut vn, mut ra, mut rb, mut size) = ([0.0f64; 2], [0.0f64; 2], [0.0f64; 2], 0.0f64);
        let mut goal = [0.0f64; 2];
        for j in 0..d.count {
            let (x, y) = (p.points[j].0 as f64, p.points[j].1 as f64);
            let at = |i: usize| {
                let r = (x - p.c[i].0 as f64, y - p.c[i].1 as f64);
                let v = d.v[i];
                let w = v.2 as f64;
                ((v.0 as f64 - w * r.1, v.1 as f64 + w * r.0), r.0 * nn.1 - r.1 * nn.0, v.0.hypot(v.1) as f64 + w.abs() * r.0.hypot(r.1))
            };
            let (va, vb) = (at(0), at(1));
            vn[j] = (vb.0 .0 - va.0 .0) * nn.0 + (vb.0 .1 - va.0 .1) * nn.1;
            ra[j] = va.1;
            rb[j] = vb.1;
            let was = |i: usize| (v0[i].0 - v0[i].2 * (y - p.c[i].1 as f64), v0[i].1 + v0[i].2 * (x - p.c[i].0 as f64));
            let (wa, wb) = (was(0), was(1));
            let came = (wb.0 - wa.0) * nn.0 + (wb.1 - wa.1) * nn.1;
            if p.out[1] > 0.0 {
                if (came + p.out[3] as f64).abs() < 0.01 * (1.0 + came.abs()) {
                    return Ok(());
                }
                if came < -p.out[3] as f64 {
                    goal[j] = -(p.out[1] as f64) * came;
                }
            }
            size = size.max(came.abs());
            size = size.max(va.2 + vb.2);
        }
        let kk = |i: usize, j: usize| sa.0 + sb.0 + sa.1 * ra[i] * ra[j] + sb.1 * rb[i] * rb[j];
        let n = [d.n[0] as f64, if d.count == 2 { d.n[1] as f64 } else { 0.0 }];
        for j in 0..d.count {
            size = size.max((kk(j, j) * n[j]).abs());
        }
        let tol = 1e-3 * size + 1e-3;
        if d.count == 2 {
            // What the points would do without their impulses; a case where rounding decides which of
            // them push is not judged.
            let f = [vn[0] - goal[0] - kk(0, 0) * n[0] - kk(0, 1) * n[1], vn[1] - goal[1] - kk(0, 1) * n[0] - kk(1, 1) * n[1]];
            let det = kk(0, 0) * kk(1, 1) - kk(0, 1) * kk(0, 1);
            if kk(0, 0).powi(2) > 9e2 * det {
                // The points say nearly the same: one of them has to be satisfied.
                let best = (vn[0] - goal[0]).max(vn[1] - goal[1]);
                ctx.st.evals += 1;
                if kk(0, 0).powi(2) > 1e4 * det && best < -tol {
                    return viol("still-closing", format!("both points of contact {k:?} still close at {} m/s or more after the step, normal impulses {:?}", -best, d.n));
                }
                return Ok(());
            }
            let x = [(-f[0] * kk(1, 1) + f[1] * kk(0, 1)) / det, (-f[1] * kk(0, 0) + f[0] * kk(0, 1)) / det];
            let margin = |j: usize| (x[j] * det / kk(1 - j, 1 - j)).abs();
            if margin(0).min(margin(1)) < 0.02 * size + 1e-3 || f[0].abs().min(f[1].abs()) < 0.02 * size + 1e-3 {
                ctx.probe("which_point_pushes_undecided");
                return Ok(());
            }
        }
        ctx.probe(if d.count == 2 { "two_points_judged_for_closing" } else { "one_point_judged_for_closing" });
        for j in 0..d.count {
            ctx.st.evals += 1;
            let off = vn[j] - goal[j];
            ctx.max("closing speed left at a contact point, over tolerance", -off / tol);
            if off < -tol {
                return viol("still-closing", format!("contact {k:?} point {j} opens at {} m/s after the step instead of {}, normal impulses {:?}", vn[j], goal[j], &d.n[..d.count]));
            }
            if kk(j, j) * n[j] > tol {
                ctx.max("opening speed at a pushing contact point, over tolerance", off / tol);
                if off > tol {
                    return viol("pushed-too-far", format!("contact {k:?} point {j} opens at {} m/s after the step under a normal impulse of {}; its restitution allows {}", vn[j], n[j], goal[j]));
                }
            }
        }
        Ok(())
    }

    /// One point in line with both centres, the only contact of its bodies: friction stays within its
    /// cone, and inside the cone the surfaces do not slip.
    fn gripping(&mut self, sim: &Sim, k: Key, dt: f32, vi: u8, p: &PreData, d: &PostData, ctx: &mut Ctx) -> Res {
        let kick = sim.rec.borrow().rules.iter().any(|r| matches!(r.act, Act::Kick(..)));
        let (Some((a, _)), Some((b, _))) = (sim.body_of_fix(k.fa), sim.body_of_fix(k.fb)) else { return Ok(()) };
        // The second pass knows the load.
        if kick || vi < 2 || dt <= 0.0 || !sim.joints.is_empty() || p.count != 1 || d.count != 1 {
            return Ok(());
        }
        let fast = |v: &(f32, f32, f32)| dt * v.0.hypot(v.1) > 1.9 || dt * v.2.abs() > 1.5;
        if d.v.iter().any(fast) {
            return Ok(());
        }
        let n = (p.normal.0 as f64, p.normal.1 as f64);
        let t = (n.1, -n.0);
        let (mut slip, mut size, mut kt) = (-p.out[2] as f64, (p.out[2] as f64).abs(), 0.0);
        for (i, m, sg) in [(0, a, -1.0), (1, b, 1.0)] {
            let r = (p.points[0].0 as f64 - p.c[i].0 as f64, p.points[0].1 as f64 - p.c[i].1 as f64);
            let (rn, rt) = (r.0 * n.1 - r.1 * n.0, r.0 * t.1 - r.1 * t.0);
            let q = m.ptr.borrow();
            let (ms, lc) = (q.get_mass() as f64, q.get_local_center());
            if m.s.t == 2 && ms > 0.0 {
                let inertia = q.get_inertia() as f64 - ms * ((lc.x as f64).powi(2) + (lc.y as f64).powi(2));
                kt += 1.0 / ms;
                if inertia > 0.0 && !m.s.fixed {
                    kt += rt * rt / inertia;
                    if rn.abs() > 1e-3 * rt.abs() {
                        return Ok(());
                    }
                }
            }
            let v = (d.v[i].0 as f64, d.v[i].1 as f64, d.v[i].2 as f64);
            slip += sg * ((v.0 - v.2 * r.1) * t.0 + (v.1 + v.2 * r.0) * t.1);
            size += v.0.hypot(v.1) + v.2.abs() * r.0.hypot(r.1);
        }
        if kt <= 0.0 {
            return Ok(());
        }
        let (jn, jt, mu) = (d.n[0] as f64, d.t[0] as f64, p.out[0] as f64);
        size += kt * jt.abs();
        ctx.st.evals += 1;
        let over = kt * (jt.abs() - mu * jn);
        let tol = 1e-3 + 2e-3 * size;
        ctx.max("friction beyond its cone, over tolerance", over / tol);
        if over > tol {
            return viol("friction-cone", format!("contact {k:?}: tangent impulse {jt} under a normal impulse of {jn}, friction {mu}"));
        }
        if over < -tol {
            ctx.probe("gripping_judged");
            ctx.max("slip of a gripping contact, over tolerance", slip.abs() / tol);
            if slip.abs() > tol {
                return viol("slip", format!("contact {k:?}: slips at {slip} m/s although its tangent impulse {jt} is within friction {mu} times {jn}"));
            }
        } else if mu * jn * kt > tol {
            ctx.probe("slipping_judged");
            if slip * jt > 0.0 && slip.abs() > tol {
                return viol("slip", format!("contact {k:?}: slips at {slip} m/s in the direction of its tangent impulse {jt}"));
            }
        }
        Ok(())
    }

    /// A body that slides throughout the step on a fixed floor is braked by friction times load.
    fn sliding(&mut self, sim: &Sim, k: Key, dt: f32, p: &PreData, d: &PostData, ctx: &mut Ctx) -> Res {
        if dt <= 0.0 || !self.last.contains(&k.norm()) || p.old_count != p.count || p.count != 2 || p.out[0] != p.friction {
            return Ok(());
        }
        let (Some((a, _)), Some((b, _))) = (sim.body_of_fix(k.fa), sim.body_of_fix(k.fb)) else { return Ok(()) };
        if (a.s.t == 0) == (b.s.t == 0) || sim.joints.len() > 0 {
            return Ok(());
        }
        let tan = (p.normal.1 as f64, -p.normal.0 as f64);
        let slip = |va: (f64, f64), vb: (f64, f64)| (vb.0 - va.0) * tan.0 + (vb.1 - va.1) * tan.1 - p.out[2] as f64;
        let v = |i: usize| (p.v[i].0 as f64, p.v[i].1 as f64);
        let now = |m: &MB| {
            let v = m.ptr.borrow().get_linear_velocity();
            (v.x as f64, v.y as f64)
        };
        let (s0, s1) = (slip(v(0), v(1)), slip(now(a), now(b)));
        // Other contacts of the body or a disturbance would show as a change across the floor.
        if s0 * s1 <= 0.0 || s0.abs().min(s1.abs()) < 0.2 || p.v[0].2.abs().max(p.v[1].2.abs()) > 0.01 {
            return Ok(());
        }
        let others = contacts(sim).iter().filter(|c| c.touching && (c.ba == a.id || c.bb == a.id) && (c.ba == b.id || c.bb == b.id) && c.k.norm() != k.norm()).count();
        if others > 0 {
            return Ok(());
        }
        let (n, t) = (d.n[0] as f64 + d.n[1] as f64, d.t[0] as f64 + d.t[1] as f64);
        if n <= 0.0 {
            return Ok(());
        }
        ctx.st.evals += 1;
        ctx.probe("sliding_step_judged");
        let want = -s0.signum() * p.out[0] as f64 * n;
        let err = (t - want).abs() / (p.out[0] as f64 * n).max(1e-6);
        ctx.max("largest relative error of sliding friction", err);
        if err > 1e-3 {
            return viol("sliding-friction", format!("contact {k:?} slides at {s0:.3} m/s under a normal impulse of {n}, friction {}: tangent impulse {t}, expected {want}", p.out[0]));
        }
        Ok(())
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = M::default();
    m.slide = case.on("slide");
    m.no_block = case.on("no_block");
    drive(case, ctx, &mut m)
}
