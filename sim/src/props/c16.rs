//! Shifting the origin translates everything and changes nothing else.

use super::*;
use crate::gen::*;
use crate::rng::Rng;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_fixture::*;
use box2d_rs::b2_joint::*;
use box2d_rs::b2_math::*;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C16",
    gen,
    run,
    quick: 80000,
    thorough: 1_000_000,
    rule: "a run counts when, after a shift of a world with touching contacts or joints, at least two later steps were compared with the unshifted world",
    assumptions: &[
        "coordinates right after a shift are judged for shifts of up to some hundred metres, the later evolution for shifts of up to 24 metres, so that coordinates keep their digits",
        "the later evolution is compared as long as worlds shifted there and back still agree with the unshifted one; beyond that, rounding decides",
        "mouse targets are not moved by the caller in runs with mouse joints",
    ],
    real: REAL,
    stub: STUB,
    known: None,
};

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C16", seed);
    swarm_flags(&mut r, &mut c);
    c.cfg.remove("hold");
    let mut p = Profile::default();
    p.arena = *r.pick(&[2.5, 4.0, 8.0]);
    p.bodies = (2, 8);
    p.ops = if thorough { (15, 70) } else { (10, 45) };
    p.joints = *r.pick(&[(0, 0), (1, 1), (1, 4)]);
    p.speed = *r.pick(&[3.0, 8.0, 40.0]);
    p.bullets = 0.3;
    for e in p.w.iter_mut() {
        e.1 *= 0.5;
    }
    p.w.push(("mass_data", 0.3));
    if r.chance(0.5) {
        p.w.retain(|e| e.0 != "joint_set");
        if r.chance(0.6) {
            p.jkinds = vec![JK::Mouse, JK::Pulley, JK::Pulley, JK::Revolute, JK::Distance];
        }
    } else {
        p.jkinds.retain(|k| *k != JK::Mouse);
    }
    let mut g = Gen::new(r, p);
    g.schedule(&mut c);
    let n = c.ops.len();
    let first = c.ops.iter().position(|o| matches!(o, Op::Step { .. })).unwrap_or(n);
    for _ in 0..1 + g.r.below(2) {
        let at = first + g.r.below(n - first + 1);
        let m = *g.r.pick(&[1.0f32, 5.0, 12.0, 12.0, 200.0]);
        c.ops.insert(at, Op::Shift { x: g.r.f(-m, m), y: g.r.f(-m, m) });
        for _ in 0..g.r.below(4) {
            let s = g.step();
            c.ops.insert(at + 1, s);
        }
    }
    c
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// The shift does not happen.
    Stay,
    /// The shift happens; the caller gives all later coordinates in the new system.
    Go(f32),
    /// The shift happens and is taken back at once, and again before every later step: the rounding
    /// of the shifted coordinates without living in them.
    Back(f32),
    /// No shift happens; the whole history takes place this far away.
    Away(f32, f32),
}

/// The same history as seen by a caller whose shifts are treated as `m` says.
fn recast(case: &Case, m: Mode) -> Case {
    let mut c = Case { ops: vec![], ..case.clone() };
    let (mut ox, mut oy) = (0.0f32, 0.0f32);
    let (mut bx, mut by) = (0.0f32, 0.0f32);
    if let Mode::Away(x, y) = m {
        (ox, oy) = (x, y);
    }
    for op in &case.ops {
        match op {
            Op::Shift { x, y } => match m {
                Mode::Stay | Mode::Away(..) => {}
                Mode::Go(s) => {
                    c.ops.push(Op::Shift { x: x * s, y: y * s });
                    ox += x * s;
                    oy += y * s;
                }
                Mode::Back(s) => {
                    bx += x * s;
                    by += y * s;
                }
            },
            Op::Step { .. } => {
                if let Mode::Back(_) = m {
                    if (bx, by) != (0.0, 0.0) {
                        c.ops.push(Op::Shift { x: bx, y: by });
                        c.ops.push(Op::Shift { x: -bx, y: -by });
                    }
                }
                c.ops.push(op.clone());
            }
            Op::Body(b) => {
                let mut b = b.clone();
                b.x -= ox;
                b.y -= oy;
                c.ops.push(Op::Body(b));
            }
            Op::Transform { b, x, y, a } => c.ops.push(Op::Transform { b: *b, x: x - ox, y: y - oy, a: *a }),
            o => c.ops.push(o.clone()),
        }
    }
    c
}

struct Snap {
    off: (f64, f64),
    bodies: Vec<(u32, [f64; 7], bool)>,
    touching: BTreeSet<Key>,
    joints: Vec<(u32, [f64; 4])>,
    busy: bool,
    /// Joints share a moving body: they may contradict each other.
    wild: bool,
}

/// Records the state after every step since the first shift.
struct Plain {
    from: usize,
    steps: usize,
    off: (f64, f64),
    out: Vec<Snap>,
    judge: bool,
    k: u64,
    was: Option<Still>,
}

/// What must be the same right after a shift.
struct Still {
    bits: Vec<u32>,
    coords: Vec<(String, f64, f64, f64)>,
    regions: Vec<(f32, f32, f32, f32, BTreeSet<u32>, BTreeSet<u32>)>,
    rays: Vec<([f32; 4], BTreeMap<u32, (f32, f32, u32)>)>,
}

fn region(sim: &Sim, x: f32, y: f32, hx: f32, hy: f32) -> BTreeSet<u32> {
    let a = B2AABB { lower_bound: v2(x - hx, y - hy), upper_bound: v2(x + hx, y + hy) };
    let mut s = BTreeSet::new();
    sim.world.borrow().query_aabb(
        |f: FixturePtr<crate::user::U>| {
            s.insert(f.borrow().get_user_data().map(|t| t.0).unwrap_or(0));
            true
        },
        a,
    );
    s
}

fn ray(sim: &Sim, r: [f32; 4]) -> BTreeMap<u32, (f32, f32, u32)> {
    let mut m: BTreeMap<u32, (f32, f32, u32)> = BTreeMap::new();
    sim.world.borrow().ray_cast(
        |f: FixturePtr<crate::user::U>, _p: B2vec2, _n: B2vec2, fr: f32| {
            let e = m.entry(f.borrow().get_user_data().map(|t| t.0).unwrap_or(0)).or_insert((fr, fr, 0));
            e.0 = e.0.min(fr);
            e.1 = e.1.max(fr);
            e.2 += 1;
            1.0
        },
        v2(r[0], r[1]),
        v2(r[2], r[3]),
    );
    m
}

fn still(sim: &Sim, off: (f32, f32), seed: u64, after: bool) -> Still {
    let mut s = Still { bits: vec![], coords: vec![], regions: vec![], rays: vec![] };
    // A point computed from a body far away carries that body's rounding.
    let far = |id: u32| sim.bodies.iter().find(|b| b.id == id).map_or(0.0, |b| {
        let p = b.ptr.borrow().get_position();
        (p.x.abs() + p.y.abs()) as f64
    });
    let w = sim.world.borrow();
    for n in [w.get_body_count() as u32, w.get_joint_count() as u32, w.get_contact_count() as u32, w.get_proxy_count() as u32, w.get_tree_height() as u32] {
        s.bits.push(n);
    }
    for b in &sim.bodies {
        let p = b.ptr.borrow();
        let (o, c, v) = (p.get_position(), p.get_world_center(), p.get_linear_velocity());
        s.coords.push((format!("position of body {}", b.id), o.x as f64, o.y as f64, 0.0));
        s.coords.push((format!("centre of body {}", b.id), c.x as f64, c.y as f64, far(b.id)));
        for x in [p.get_angle(), v.x, v.y, p.get_angular_velocity(), p.get_mass(), p.get_inertia(), p.get_gravity_scale(), p.get_linear_damping()] {
            s.bits.push(x.to_bits());
        }
        s.bits.push(p.is_awake() as u32 | (p.is_enabled() as u32) << 1);
    }
    for c in w.get_contact_list().iter() {
        let c = c.borrow();
        let c = c.get_base();
        let k = key_of(c);
        let size = [k.fa, k.fb].iter().flat_map(|f| sim.bodies.iter().filter(|b| b.fix.iter().any(|x| x.id == *f))).map(|b| far(b.id)).fold(0.0, f64::max);
        s.bits.extend([k.fa, k.fb, k.ca as u32, k.cb as u32, c.is_touching() as u32, c.is_enabled() as u32]);
        for x in [c.get_friction(), c.get_restitution(), c.get_tangent_speed()] {
            s.bits.push(x.to_bits());
        }
        let m = c.get_manifold();
        s.bits.push(m.point_count as u32);
        for i in 0..m.point_count {
            let q = &m.points[i];
            for x in [q.normal_impulse, q.tangent_impulse, q.local_point.x, q.local_point.y] {
                s.bits.push(x.to_bits());
            }
        }
        let mut wm = B2worldManifold::default();
        c.get_world_manifold(&mut wm);
        for i in 0..m.point_count {
            s.coords.push((format!("contact point {i} of {k:?}"), wm.points[i].x as f64, wm.points[i].y as f64, size));
        }
    }
    for j in &sim.joints {
        let p = j.ptr.borrow();
        // The reported anchor of some joints is the far end of a constraint in world coordinates.
        let (a, b) = (p.get_anchor_a(), p.get_anchor_b());
        let size = far(j.a).max(far(j.b));
        s.coords.push((format!("first anchor of joint {} ({:?})", j.id, j.s.k), a.x as f64, a.y as f64, size));
        s.coords.push((format!("second anchor of joint {} ({:?})", j.id, j.s.k), b.x as f64, b.y as f64, size));
        let f = p.get_reaction_force(1.0);
        if j.s.k != JK::Pulley {
            s.bits.push(f.x.to_bits());
            s.bits.push(f.y.to_bits());
        }
        match p.as_derived() {
            JointAsDerived::EMouseJoint(m) => {
                let t = m.get_target();
                s.coords.push((format!("target of joint {}", j.id), t.x as f64, t.y as f64, 0.0));
            }
            JointAsDerived::EPulleyJoint(m) => {
                let (a, b) = (m.get_ground_anchor_a(), m.get_ground_anchor_b());
                s.coords.push((format!("first ground anchor of joint {}", j.id), a.x as f64, a.y as f64, 0.0));
                s.coords.push((format!("second ground anchor of joint {}", j.id), b.x as f64, b.y as f64, 0.0));
            }
            _ => {}
        }
    }
    drop(w);
    let mut r = Rng::new(seed);
    for _ in 0..6 {
        let (bx, by) = if sim.bodies.is_empty() || r.chance(0.2) {
            (0.0, 0.0)
        } else {
            // Drawn around where the body is in the old system.
            let b = &sim.bodies[r.below(sim.bodies.len())];
            let p = b.ptr.borrow().get_position();
            if after { (p.x + off.0, p.y + off.1) } else { (p.x, p.y) }
        };
        let (x, y) = (bx + r.f(-3.0, 3.0), by + r.f(-3.0, 3.0));
        let (hx, hy) = (r.logf(0.05, 6.0), r.logf(0.05, 6.0));
        let (tx, ty) = (bx + r.f(-6.0, 6.0), by + r.f(-6.0, 6.0));
        const E: f32 = 4e-3;
        let far = bx.abs().max(by.abs()) > 500.0;
        if far {
            continue;
        }
        if after {
            let (x, y, tx, ty) = (x - off.0, y - off.1, tx - off.0, ty - off.1);
            let q = region(sim, x, y, hx, hy);
            s.regions.push((x, y, hx, hy, q.clone(), q));
            s.rays.push(([x, y, tx, ty], ray(sim, [x, y, tx, ty])));
        } else {
            s.regions.push((x, y, hx, hy, region(sim, x, y, hx - E, hy - E), region(sim, x, y, hx + E, hy + E)));
            let l = (tx - x).hypot(ty - y).max(0.1);
            let n = (-(ty - y) / l * E, (tx - x) / l * E);
            let d = ((tx - x) / l * E, (ty - y) / l * E);
            let all = [
                ray(sim, [x, y, tx, ty]),
                ray(sim, [x + n.0, y + n.1, tx + n.0, ty + n.1]),
                ray(sim, [x - n.0, y - n.1, tx - n.0, ty - n.1]),
                ray(sim, [x + d.0, y + d.1, tx - d.0, ty - d.1]),
                ray(sim, [x - d.0, y - d.1, tx + d.0, ty + d.1]),
            ];
            let mut m: BTreeMap<u32, (f32, f32, u32)> = BTreeMap::new();
            for a in &all {
                for (k, v) in a {
                    let e = m.entry(*k).or_insert((v.0, v.1, 0));
                    e.0 = e.0.min(v.0);
                    e.1 = e.1.max(v.1);
                    e.2 += 1;
                }
            }
            s.rays.push(([x, y, tx, ty], m));
        }
    }
    s
}

fn judge(a: &Still, b: &Still, off: (f32, f32), ctx: &mut Ctx) -> Res {
    if a.bits != b.bits {
        return viol("changed", format!("shifting the origin by {off:?} changed something other than coordinates"));
    }
    if a.coords.len() != b.coords.len() {
        return viol("changed", "shifting the origin changed the contacts".into());
    }
    let (ox, oy) = (off.0 as f64, off.1 as f64);
    for (p, q) in a.coords.iter().zip(&b.coords) {
        let size = (p.1.abs() + p.2.abs()).max(p.3) + ox.abs() + oy.abs();
        let tol = 1e-5 + 1e-6 * size;
        let e = (p.1 - ox - q.1).abs().max((p.2 - oy - q.2).abs());
        ctx.st.evals += 1;
        if size < 1e4 {
            ctx.max("coordinate right after the shift, error over tolerance", e / tol);
            if !(e <= tol) {
                return viol("not-translated", format!("shifting the origin by {off:?} took the {} from ({}, {}) to ({}, {})", p.0, p.1, p.2, q.1, q.2));
            }
        }
    }
    for (p, q) in a.regions.iter().zip(&b.regions) {
        ctx.st.evals += 1;
        if !(p.4.is_subset(&q.4) && q.4.is_subset(&p.5)) {
            return viol("query", format!("after shifting the origin by {off:?} the query around ({}, {}) finds {:?}; before, around ({}, {}), it found {:?}", q.0, q.1, q.4, p.0, p.1, p.4));
        }
        ctx.probe_n("region_found_something", !q.4.is_empty() as u64);
    }
    for (p, q) in a.rays.iter().zip(&b.rays) {
        ctx.st.evals += 1;
        for (id, v) in &p.1 {
            if v.2 == 5 && !q.1.contains_key(id) {
                return viol("ray", format!("after shifting the origin by {off:?} the ray {:?} no longer hits fixture {id}", q.0));
            }
        }
        for (id, v) in &q.1 {
            match p.1.get(id) {
                None => return viol("ray", format!("after shifting the origin by {off:?} the ray {:?} hits fixture {id}, which it missed before", q.0)),
                Some(u) => {
                    if v.0 < u.0 - 0.05 || v.1 > u.1 + 0.05 {
                        return viol("ray", format!("after shifting the origin by {off:?} the ray {:?} hits fixture {id} at {v:?}, before at {u:?}", q.0));
                    }
                    ctx.probe("ray_hit_compared");
                }
            }
        }
    }
    Ok(())
}

impl Monitor for Plain {
    fn before(&mut self, sim: &mut Sim, op: &Op, _ctx: &mut Ctx) {
        if let (Op::Shift { x, y }, true) = (op, self.judge) {
            self.k = self.k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            self.was = Some(still(sim, (*x, *y), self.k, false));
        }
    }

    fn after(&mut self, sim: &mut Sim, op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        if let Op::Shift { x, y } = op {
            self.off = (self.off.0 + *x as f64, self.off.1 + *y as f64);
            if let Some(a) = self.was.take() {
                let b = still(sim, (*x, *y), self.k, true);
                judge(&a, &b, (*x, *y), ctx)?;
                ctx.probe("shift_judged");
            }
        }
        if info.dt.is_none() {
            return Ok(());
        }
        self.steps += 1;
        if self.steps <= self.from {
            return Ok(());
        }
        let mut s = Snap { off: self.off, bodies: vec![], touching: Default::default(), joints: vec![], busy: !sim.joints.is_empty(), wild: (0..sim.joints.len()).any(|i| !super::c13::alone(sim, i)) };
        for b in &sim.bodies {
            let p = b.ptr.borrow();
            let (o, v) = (p.get_position(), p.get_linear_velocity());
            s.bodies.push((b.id, [o.x as f64, o.y as f64, p.get_angle() as f64, v.x as f64, v.y as f64, p.get_angular_velocity() as f64, dt_of(op)], p.is_awake()));
        }
        for c in contacts(sim) {
            if c.touching {
                s.touching.insert(c.k.norm());
            }
        }
        for j in &sim.joints {
            let p = j.ptr.borrow();
            let (a, b) = (p.get_anchor_a(), p.get_anchor_b());
            s.joints.push((j.id, [a.x as f64, a.y as f64, b.x as f64, b.y as f64]));
        }
        s.busy |= !s.touching.is_empty();
        self.out.push(s);
        Ok(())
    }
}

fn dt_of(op: &Op) -> f64 {
    match op {
        Op::Step { dt, .. } => *dt as f64,
        _ => 0.0,
    }
}

/// Share of the tolerance below which a difference is followed further.
const SMALL: f64 = 0.004;

/// The first difference larger than `k` times the tolerance.
fn differ(a: &Snap, b: &Snap, k: f64) -> Option<String> {
    let off = (b.off.0 - a.off.0, b.off.1 - a.off.1);
    if a.bodies.len() != b.bodies.len() || a.joints.len() != b.joints.len() {
        return Some("different objects exist".into());
    }
    for (p, q) in a.bodies.iter().zip(&b.bodies) {
        let (x, y) = (&p.1, &q.1);
        let sp = x[3].abs() + x[4].abs();
        let d = [x[0] - off.0 - y[0], x[1] - off.1 - y[1], x[2] - y[2], x[3] - y[3], x[4] - y[4], x[5] - y[5]];
        let tol = [0.05, 0.05, 0.1, 0.3 * (1.0 + sp), 0.3 * (1.0 + sp), 0.5 * (1.0 + x[5].abs())];
        for i in 0..6 {
            if !(d[i].abs() <= k * tol[i]) {
                return Some(format!("body {}: {} {} instead of {} (translated)", p.0, ["x", "y", "angle", "x velocity", "y velocity", "spin"][i], y[i], [x[0] - off.0, x[1] - off.1, x[2], x[3], x[4], x[5]][i]));
            }
        }
        if k < 1.0 && p.2 != q.2 {
            return Some(format!("body {}: awake {} instead of {}", p.0, q.2, p.2));
        }
    }
    // Whether shapes that just meet touch, or a body just at the limit sleeps, is a matter of rounding.
    if k < 1.0 && a.touching != b.touching {
        return Some(format!("touching contacts differ: {:?}", a.touching.symmetric_difference(&b.touching).next()));
    }
    for (p, q) in a.joints.iter().zip(&b.joints) {
        for i in 0..4 {
            let o = if i % 2 == 0 { off.0 } else { off.1 };
            if !((p.1[i] - o - q.1[i]).abs() <= k * 0.05) {
                return Some(format!("joint {}: anchors {:?} instead of {:?} less {off:?}", p.0, q.1, p.1));
            }
        }
    }
    None
}

fn play(case: &Case, m: Mode, judge: bool, ctx: &mut Ctx) -> Result<Vec<Snap>, Violation> {
    let mut from = 0;
    for o in &case.ops {
        match o {
            Op::Shift { .. } => break,
            Op::Step { .. } => from += 1,
            _ => {}
        }
    }
    let off = if let Mode::Away(x, y) = m { (x as f64, y as f64) } else { (0.0, 0.0) };
    let mut p = Plain { from, steps: 0, off, out: vec![], judge, k: case.seed | 1, was: None };
    drive(&recast(case, m), ctx, &mut p)?;
    Ok(p.out)
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    if !case.ops.iter().any(|o| matches!(o, Op::Shift { .. })) {
        return Ok(());
    }
    let go = play(case, Mode::Go(1.0), true, ctx)?;
    let mut scrap = Ctx::new();
    let quiet = |m: Mode, x: &mut Ctx| play(case, m, false, x);
    let stay = quiet(Mode::Stay, &mut scrap)?;
    let back = [quiet(Mode::Back(1.0), &mut scrap)?, quiet(Mode::Back(-0.77), &mut scrap)?];
    let n = stay.len().min(go.len()).min(back[0].len()).min(back[1].len());
    let mut judged = 0;
    for i in 0..n {
        if stay[i].wild || back.iter().any(|b| differ(&stay[i], &b[i], 0.002).is_some()) || stay[i].bodies.iter().any(|b| b.1[0].abs().max(b.1[1].abs()) > 50.0) {
            ctx.probe("rounding_decides_from_here");
            break;
        }
        if go[i].off.0.abs().max(go[i].off.1.abs()) > 24.0 {
            break;
        }
        ctx.st.evals += 1;
        judged += stay[i].busy as u32;
        let Some(what) = differ(&stay[i], &go[i], 1.0) else {
            // A difference growing by itself is one of rounding.
            if differ(&stay[i], &go[i], SMALL).is_some() {
                ctx.probe("rounding_decides_from_here");
                break;
            }
            continue;
        };
        // Rounding may decide differently here and there: only a difference that every shift of this
        // kind shows, while no shift taken back and no world built elsewhere shows any trace of it, is one of the shift itself.
        for k in 0..10 {
            let s = [0.31f32, 1.9, -1.3, 0.9, -0.5, 1.1, -2.1, 0.66, 1.37, -0.11][k];
            let b = quiet(Mode::Back(s), &mut scrap)?;
            if b.len() <= i || (0..=i).any(|q| differ(&stay[q], &b[q], 0.01).is_some()) {
                ctx.probe("rounding_decides_from_here");
                return Ok(());
            }
        }
        for (x, y) in [(0.61f32, -0.37f32), (-3.3, 1.9), (7.7, 5.1), (-1.2, -10.3)] {
            let a = quiet(Mode::Away(x, y), &mut scrap)?;
            if a.len() <= i || (0..=i).any(|q| differ(&stay[q], &a[q], 0.2).is_some()) {
                ctx.probe("rounding_decides_from_here");
                return Ok(());
            }
        }
        for k in 0..16 {
            let s = [0.6f32, 0.75, 0.9, 1.05, 1.15, 1.3, 1.4, 1.5, -0.6, -0.7, -0.8, -0.9, -1.0, -1.1, -1.3, -1.45][k];
            let g = quiet(Mode::Go(s), &mut scrap)?;
            if g.len() > i && (0..=i).all(|q| differ(&stay[q], &g[q], 1.0).is_none()) {
                ctx.probe("difference_not_confirmed");
                return Ok(());
            }
        }
        return viol("evolution", format!("{} steps after shifting the origin, {what}", i + 1));
    }
    ctx.reached = judged >= 2;
    ctx.probe_n("later_step_compared", judged as u64);
    Ok(())
}
