//! Region and ray queries return what a full scan would return.

use super::*;
use crate::gen::*;
use crate::rng::Rng;
use crate::user::U;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_fixture::*;
use box2d_rs::b2_math::*;
use geom::*;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C06",
    gen,
    run,
    quick: 40000,
    thorough: 1_500_000,
    rule: "a run counts when a region query reported a proper subset of the proxies and a ray reported at least one hit",
    assumptions: &[
        "ray hits within 1 mm of a boundary, and rays grazing or starting on a shape, are not judged",
        "bodies more than 300 units from the origin are not judged against the exact geometry",
        "callbacks do not change velocities (a kinematic body kicked inside a step is re-boxed only in the next one)",
        "queries are made between complete steps (sub-stepping off: a partial step leaves fixtures mid-sweep)",
    ],
    real: REAL,
    stub: STUB,
    known: None,
};

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C06", seed);
    swarm_flags(&mut r, &mut c);
    c.cfg.remove("substep");
    let mut p = Profile::default();
    p.arena = *r.pick(&[4.0, 8.0, 16.0]);
    p.bodies = *r.pick(&[(3, 10), (10, 30), (30, 60)]);
    p.joints = (0, 2);
    p.shapes = [1.0, 1.0, 1.0, 0.6, 0.6, 0.6, 0.4];
    p.types = [0.3, 0.2, 0.5];
    p.steps = 0.3;
    p.arms = vec!["disable", "friction", "restitution", "tangent", "read", "clock"];
    p.w.push(("query", 14.0));
    p.w.push(("ray", 20.0));
    p.w.push(("point", 5.0));
    for e in p.w.iter_mut() {
        match e.0 {
            "transform" | "body" | "del_body" => e.1 = 6.0,
            "flag" => e.1 = 0.0,
            _ => {}
        }
    }
    if thorough {
        p.ops = (40, 200);
    }
    let mut g = Gen::new(r, p);
    g.schedule(&mut c);
    c
}

struct M {
    q: bool,
    hits: bool,
}

fn overlap(a: &B2AABB, b: &B2AABB) -> bool {
    a.lower_bound.x <= b.upper_bound.x
        && a.lower_bound.y <= b.upper_bound.y
        && b.lower_bound.x <= a.upper_bound.x
        && b.lower_bound.y <= a.upper_bound.y
}

impl M {
    fn query(&mut self, sim: &Sim, x: f32, y: f32, hx: f32, hy: f32, stop: u32, ctx: &mut Ctx) -> Res {
        let w = sim.world.borrow();
        let cm = w.get_contact_manager();
        let bp = cm.borrow().get_broad_phase();
        let mut ids = vec![];
        bp.borrow().query(
            |i: i32| {
                ids.push(i);
                true
            },
            B2AABB { lower_bound: v2(-1e18, -1e18), upper_bound: v2(1e18, 1e18) },
        );
        let total: usize = sim.bodies.iter().filter(|b| b.s.enabled).map(|b| b.fix.iter().map(|f| f.f.shape.children()).sum::<usize>()).sum();
        if ids.len() != total {
            return viol("full-scan", format!("a query of everything reports {} of {total} proxies", ids.len()));
        }
        let a = B2AABB { lower_bound: v2(x - hx, y - hy), upper_bound: v2(x + hx, y + hy) };
        let want = ids.iter().filter(|i| overlap(&bp.borrow().get_fat_aabb(**i), &a)).count();
        let mut got: BTreeMap<u32, usize> = BTreeMap::new();
        let mut n = 0usize;
        let stop_at = if stop == 0 { usize::MAX } else { stop as usize };
        let mut late = false;
        w.query_aabb(
            |f: FixturePtr<U>| {
                if n >= stop_at {
                    late = true;
                }
                n += 1;
                *got.entry(fid(&f)).or_insert(0) += 1;
                n < stop_at
            },
            a,
        );
        ctx.st.evals += total as u64;
        if late {
            return viol("query-not-stopped", format!("the query went on after being told to stop at {stop}"));
        }
        let expect = want.min(stop_at);
        if n != expect {
            return viol("query-count", format!("{n} fixtures reported, a scan finds {want} overlapping boxes (stop after {stop})"));
        }
        for (id, k) in &got {
            match sim.body_of_fix(*id) {
                None => return viol("query-dead", format!("fixture {id} is reported but does not exist")),
                Some((b, f)) => {
                    if !b.s.enabled || *k > f.f.shape.children() {
                        return viol("query-twice", format!("fixture {id} is reported {k} times"));
                    }
                }
            }
        }
        for b in sim.bodies.iter().filter(|b| b.s.enabled) {
            let xf = xf_of(b);
            let far = xf.p.0.abs() > 300.0 || xf.p.1.abs() > 300.0;
            for f in &b.fix {
                let mut must = 0;
                for c in 0..f.f.shape.children() {
                    let t = f.ptr.borrow().get_aabb(c as i32);
                    let real = Aabb::of(&world_prim(&f.f.shape, c, &xf));
                    let tt = Aabb { lo: (t.lower_bound.x as f64, t.lower_bound.y as f64), hi: (t.upper_bound.x as f64, t.upper_bound.y as f64) };
                    if !far && !tt.grow(2e-3).contains(&real) {
                        return viol("box-not-enclosing", format!("the box of fixture {} child {c} does not enclose its shape: {tt:?} vs {real:?}", f.id));
                    }
                    let lim = Aabb { lo: ((x - hx) as f64, (y - hy) as f64), hi: ((x + hx) as f64, (y + hy) as f64) };
                    if !far && real.grow(-2e-3).overlaps(&lim) && real.lo.0 + 4e-3 < real.hi.0 {
                        must += 1;
                    }
                }
                if stop == 0 && got.get(&f.id).copied().unwrap_or(0) < must {
                    return viol("query-missed", format!("fixture {} lies in the region with {must} children, reported {:?}", f.id, got.get(&f.id)));
                }
            }
        }
        if n > 0 && n < total {
            self.q = true;
        }
        Ok(())
    }

    fn ray(&mut self, sim: &Sim, p1: B2vec2, p2: B2vec2, proto: u64, ctx: &mut Ctx) -> Res {
        let a = (p1.x as f64, p1.y as f64);
        let b = (p2.x as f64, p2.y as f64);
        let l = len(sub(b, a));
        if l < 0.05 {
            return Ok(());
        }
        // (fixture, child) -> reference hit
        let mut refs: Vec<(u32, Hit)> = vec![];
        for m in sim.bodies.iter().filter(|b| b.s.enabled) {
            let xf = xf_of(m);
            let far = xf.p.0.abs() > 300.0 || xf.p.1.abs() > 300.0;
            for f in &m.fix {
                let chain = matches!(f.f.shape, Shape::Chain { .. } | Shape::Loop { .. });
                for c in 0..f.f.shape.children() {
                    let h = if far { Hit::Unsure } else { ray(&world_prim(&f.f.shape, c, &xf), chain, a, b) };
                    refs.push((f.id, h));
                }
            }
        }
        let mut hits: Vec<(u32, B2vec2, B2vec2, f32, f32)> = vec![];
        let mut max = 1.0f32;
        let mut least = 1.0f32;
        let mut stopped = false;
        let mut late = false;
        let mut bits = proto;
        sim.world.borrow().ray_cast(
            |f: FixturePtr<U>, p: B2vec2, n: B2vec2, fr: f32| {
                if stopped {
                    late = true;
                }
                hits.push((fid(&f), p, n, fr, max));
                let b = bits & 7;
                bits = (bits >> 3) | (bits << 49);
                match b {
                    0 | 1 | 2 => {
                        max = 1.0;
                        1.0
                    }
                    3 => -1.0,
                    4 | 5 | 6 => {
                        if fr > 0.0 {
                            max = fr;
                            least = least.min(fr);
                        } else {
                            stopped = true;
                        }
                        fr
                    }
                    _ => {
                        if bits & 3 == 0 {
                            stopped = true;
                            0.0
                        } else {
                            -1.0
                        }
                    }
                }
            },
            p1,
            p2,
        );
        ctx.st.evals += refs.len() as u64;
        for (id, _, _, fr, _) in &hits {
            if !(0.0..=1.0001).contains(fr) {
                return viol("ray-fraction", format!("hit on {id} at fraction {fr}"));
            }
        }
        if late {
            return viol("ray-not-stopped", "the ray cast went on after being told to stop".into());
        }
        let mut used = vec![false; refs.len()];
        for (id, p, n, fr, mx) in &hits {
            self.hits = true;
            if *fr > *mx + 1e-4 {
                return viol("ray-beyond-clip", format!("hit on {id} at {fr} beyond the clipped length {mx}"));
            }
            let want = add(a, mul(*fr as f64, sub(b, a)));
            let e = len(sub((p.x as f64, p.y as f64), want));
            if e > 1e-3 * (1.0 + l) {
                return viol("ray-point", format!("hit point on {id} is {e} away from the ray at {fr}"));
            }
            let mut ok = None;
            for (i, (rid, h)) in refs.iter().enumerate() {
                if rid != id || used[i] {
                    continue;
                }
                match h {
                    Hit::Unsure => ok = ok.or(Some(i)),
                    Hit::At { t, n: rn } => {
                        let dt = (t - *fr as f64).abs() * l;
                        if dt < 5e-3 {
                            let c = dot(*rn, (n.x as f64, n.y as f64));
                            let nl = len((n.x as f64, n.y as f64));
                            if (nl - 1.0).abs() > 1e-3 {
                                return viol("ray-normal", format!("normal of length {nl} on {id}"));
                            }
                            ctx.max("ray_normal_error", 1.0 - c);
                            if c > 0.99 {
                                ok = Some(i);
                                break;
                            }
                        }
                    }
                    Hit::Miss => {}
                }
            }
            match ok {
                Some(i) => used[i] = true,
                None => {
                    let sh = sim.body_of_fix(*id).map(|x| x.1.f.shape.clone());
                    let r: Vec<_> = refs.iter().filter(|x| x.0 == *id).collect();
                    return viol("ray-wrong-hit", format!("hit on {id} at {fr} normal {n:?} does not agree with the shape {sh:?}: {r:?}"));
                }
            }
        }
        if !stopped {
            for (i, (id, h)) in refs.iter().enumerate() {
                if let Hit::At { t, .. } = h {
                    if !used[i] && *t < least as f64 - 2e-3 / l {
                        let sh = sim.body_of_fix(*id).map(|x| x.1.f.shape.clone());
                        return viol("ray-missed", format!("the ray clearly hits {id} at {t:.4} ({sh:?}) but the hit was not reported"));
                    }
                }
            }
        }
        Ok(())
    }
}

impl Monitor for M {
    fn after(&mut self, sim: &mut Sim, op: &Op, _info: &Info, ctx: &mut Ctx) -> Res {
        match op {
            Op::Query { x, y, hx, hy, stop } => self.query(sim, *x, *y, *hx, *hy, *stop, ctx)?,
            Op::Ray { x1, y1, x2, y2, proto } => self.ray(sim, v2(*x1, *y1), v2(*x2, *y2), *proto, ctx)?,
            Op::Point { b, x, y } => {
                if let Some(i) = sim.bi(*b) {
                    let m = &sim.bodies[i];
                    let xf = xf_of(m);
                    if xf.p.0.abs() < 300.0 && xf.p.1.abs() < 300.0 {
                        let q = v2(xf.p.0 as f32 + x, xf.p.1 as f32 + y);
                        for f in &m.fix {
                            let got = f.ptr.borrow().test_point(q);
                            let want = (0..f.f.shape.children())
                                .map(|c| if f.f.shape.has_area() { inside(&world_prim(&f.f.shape, c, &xf), (q.x as f64, q.y as f64)) } else { Some(false) })
                                .next()
                                .unwrap();
                            ctx.st.evals += 1;
                            if let Some(w) = want {
                                if w != got {
                                    return viol("point-test", format!("point {q:?} in fixture {}: engine {got}, shape {w}", f.id));
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        if self.q && self.hits {
            ctx.reached = true;
        }
        Ok(())
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    drive(case, ctx, &mut M { q: false, hits: false })
}
