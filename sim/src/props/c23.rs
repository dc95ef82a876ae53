//! Debug drawing shows the world and does not influence it.

use super::*;
use crate::gen::*;
use crate::geom::V;
use crate::rng::{Hash, Rng};
use box2d_rs::b2_draw::*;
use box2d_rs::b2_joint::*;
use box2d_rs::b2_math::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C23",
    gen,
    run,
    quick: 40000,
    thorough: 1_000_000,
    rule: "a run counts when at least three drawings with different selections were compared, one of them showing bodies of two different styles",
    assumptions: &[
        "styles are judged by being the same within a class of bodies and different between classes, not by particular colours",
        "of joints the anchors, connections and limits are judged, not every decoration",
        "boxes are judged without sub-stepping, by enclosing the shapes, one for every part of an enabled body",
    ],
    real: REAL,
    stub: &["host application (schedule)", "drawing sink (records what is drawn)"],
    known: None,
};

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C23", seed);
    swarm_flags(&mut r, &mut c);
    let mut p = Profile::default();
    p.arena = *r.pick(&[2.5, 4.0, 8.0]);
    p.bodies = (2, 9);
    p.joints = (0, 5);
    p.sensors = 0.1;
    // A kick given while a step resolves an impact moves a kinematic body without its box.
    p.arms = vec!["disable", "friction", "restitution", "tangent", "reset", "read", "clock"];
    p.w.push(("draw", 8.0));
    p.w.push(("shift", 0.5));
    p.w.push(("mass_data", 0.3));
    p.w.push(("odd_step", 0.5));
    p.ops = if thorough { (30, 160) } else { (15, 70) };
    let mut g = Gen::new(r, p);
    g.schedule(&mut c);
    c
}

type Col = (u32, u32, u32, u32);

#[derive(Clone, Debug, PartialEq)]
enum Call {
    Poly(Vec<V>, Col),
    Solid(Vec<V>, Col),
    Circle(V, f64, Col),
    Disc(V, f64, V, Col),
    Seg(V, V, Col),
    Xf(V, f64, f64),
    Point(V, Col),
}

#[derive(Default)]
struct Sink {
    base: B2draw,
    calls: Vec<Call>,
}

fn f(v: B2vec2) -> V {
    (v.x as f64, v.y as f64)
}

fn col(c: B2color) -> Col {
    (c.r.to_bits(), c.g.to_bits(), c.b.to_bits(), c.a.to_bits())
}

impl B2drawTrait for Sink {
    fn get_base(&self) -> &B2draw {
        &self.base
    }
    fn get_base_mut(&mut self) -> &mut B2draw {
        &mut self.base
    }
    fn draw_polygon(&mut self, v: &[B2vec2], c: B2color) {
        self.calls.push(Call::Poly(v.iter().map(|p| f(*p)).collect(), col(c)));
    }
    fn draw_solid_polygon(&mut self, v: &[B2vec2], c: B2color) {
        self.calls.push(Call::Solid(v.iter().map(|p| f(*p)).collect(), col(c)));
    }
    fn draw_circle(&mut self, p: B2vec2, r: f32, c: B2color) {
        self.calls.push(Call::Circle(f(p), r as f64, col(c)));
    }
    fn draw_solid_circle(&mut self, p: B2vec2, r: f32, a: B2vec2, c: B2color) {
        self.calls.push(Call::Disc(f(p), r as f64, f(a), col(c)));
    }
    fn draw_segment(&mut self, p: B2vec2, q: B2vec2, c: B2color) {
        self.calls.push(Call::Seg(f(p), f(q), col(c)));
    }
    fn draw_transform(&mut self, x: B2Transform) {
        self.calls.push(Call::Xf(f(x.p), x.q.s as f64, x.q.c as f64));
    }
    fn draw_point(&mut self, p: B2vec2, _: f32, c: B2color) {
        self.calls.push(Call::Point(f(p), col(c)));
    }
}

fn near(a: V, b: V) -> bool {
    (a.0 - b.0).hypot(a.1 - b.1) <= 1e-4 + 2e-6 * (a.0.abs() + a.1.abs())
}

fn same_points(a: &[V], b: &[V]) -> bool {
    a.len() == b.len() && a.iter().all(|p| b.iter().any(|q| near(*p, *q))) && b.iter().all(|p| a.iter().any(|q| near(*p, *q)))
}

fn seg(p: V, q: V) -> impl Fn(&Call) -> bool {
    move |c| matches!(c, Call::Seg(a, b, _) if near(p, *a) && near(q, *b) || near(p, *b) && near(q, *a))
}

fn point(p: V) -> impl Fn(&Call) -> bool {
    move |c| matches!(c, Call::Point(a, _) if near(p, *a))
}

/// Takes one matching call out of the list.
fn take(calls: &mut Vec<Call>, m: impl Fn(&Call) -> bool) -> Option<Call> {
    let i = calls.iter().position(m)?;
    Some(calls.swap_remove(i))
}

fn colour(c: &Call) -> Col {
    match c {
        Call::Poly(_, c) | Call::Solid(_, c) | Call::Circle(_, _, c) | Call::Disc(_, _, _, c) | Call::Seg(_, _, c) | Call::Point(_, c) => *c,
        Call::Xf(..) => (0, 0, 0, 0),
    }
}

struct M {
    sink: Rc<RefCell<Sink>>,
    set: bool,
    out: Vec<u64>,
    style: BTreeMap<&'static str, Col>,
    drawn: std::collections::BTreeSet<u8>,
    shifted: bool,
    sub: bool,
    n: u32,
}

impl M {
    fn draw(&mut self, sim: &Sim, flags: u8) -> Vec<Call> {
        {
            let mut s = self.sink.borrow_mut();
            s.calls.clear();
            s.base.set_flags(B2drawShapeFlags::from_bits_truncate(flags as _));
        }
        sim.world.borrow().debug_draw();
        std::mem::take(&mut self.sink.borrow_mut().calls)
    }

    fn shapes(&mut self, sim: &Sim, mut calls: Vec<Call>) -> Res {
        for b in &sim.bodies {
            let (awake, mass) = (b.ptr.borrow().is_awake(), b.ptr.borrow().get_mass());
            let class = match b.s.t {
                2 if mass == 0.0 => "bad",
                _ if !b.s.enabled => "disabled",
                0 => "static",
                1 => "kinematic",
                _ if !awake => "asleep",
                _ => "awake",
            };
            let xf = xf_of(b);
            for x in &b.fix {
                let mut got = vec![];
                for (k, p) in prims(b, x).into_iter().enumerate() {
                    let c = match &x.f.shape {
                        Shape::Circle { r, .. } => take(&mut calls, |c| matches!(c, Call::Disc(o, q, a, _) if near(*o, p.pts[0]) && (*q - *r as f64).abs() < 1e-5 && (a.0 - xf.c).hypot(a.1 - xf.s) < 1e-4)),
                        Shape::Box { .. } | Shape::Poly { .. } => take(&mut calls, |c| matches!(c, Call::Solid(v, _) if same_points(v, &p.pts))),
                        _ => take(&mut calls, seg(p.pts[0], p.pts[1])),
                    };
                    let Some(c) = c else {
                        return viol("shape-missing", format!("part {k} of fixture {} ({:?}) of body {} is not drawn where it is", x.id, x.f.shape, b.id));
                    };
                    got.push(colour(&c));
                    if let Shape::Edge { .. } = x.f.shape {
                        for q in 0..2 {
                            let Some(c) = take(&mut calls, point(p.pts[q])) else {
                                return viol("shape-missing", format!("an end of two-sided edge {} of body {} is not marked", x.id, b.id));
                            };
                            got.push(colour(&c));
                        }
                    }
                }
                for c in got {
                    let known = *self.style.entry(class).or_insert(c);
                    if known != c {
                        return viol("style", format!("fixture {} of body {} ({class}) is drawn unlike other {class} bodies", x.id, b.id));
                    }
                }
            }
        }
        for (a, x) in &self.style {
            for (b, y) in &self.style {
                if a != b && x == y {
                    return viol("style", format!("{a} and {b} bodies are drawn alike"));
                }
            }
        }
        if let Some(c) = calls.first() {
            return viol("extra-shape", format!("drawing shapes also drew {c:?}, which no fixture accounts for"));
        }
        Ok(())
    }

    fn joints(&self, sim: &Sim, mut calls: Vec<Call>) -> Res {
        let any = !calls.is_empty();
        if sim.joints.is_empty() && any {
            return viol("extra-joint", format!("drawing joints drew {:?} in a world without joints", calls[0]));
        }
        // Several joints may share items, so nothing is taken out.
        calls.dedup();
        for j in &sim.joints {
            let p = j.ptr.borrow();
            let (pa, pb) = (f(p.get_anchor_a()), f(p.get_anchor_b()));
            let at = |id: u32| sim.body(id).map(|b| xf_of(b).p).unwrap_or((0.0, 0.0));
            let (xa, xb) = (at(j.a), at(j.b));
            let mut want: Vec<(&str, Box<dyn Fn(&Call) -> bool>)> = vec![];
            match p.as_derived() {
                JointAsDerived::EDistanceJoint(d) => {
                    want.push(("connection", Box::new(seg(pa, pb))));
                    let l = (pb.0 - pa.0).hypot(pb.1 - pa.1);
                    if l > 1e-3 {
                        let on = |s: f32| (pa.0 + s as f64 * (pb.0 - pa.0) / l, pa.1 + s as f64 * (pb.1 - pa.1) / l);
                        if l > 0.05 && d.get_length() < 50.0 {
                            let q = on(d.get_length());
                            want.push(("rest length", Box::new(move |c| matches!(c, Call::Point(a, _) if (a.0 - q.0).hypot(a.1 - q.1) < 0.01))));
                        }
                    }
                }
                JointAsDerived::EPrismaticJoint(d) => {
                    want.push(("connection", Box::new(seg(pa, pb))));
                    want.push(("first anchor", Box::new(point(pa))));
                    want.push(("second anchor", Box::new(point(pb))));
                    if d.is_limit_enabled() {
                        want.push(("limits", limits(sim, j.a, pa, d.get_local_axis_a(), d.get_lower_limit(), d.get_upper_limit())));
                    }
                }
                JointAsDerived::EWheelJoint(d) => {
                    want.push(("connection", Box::new(seg(pa, pb))));
                    want.push(("first anchor", Box::new(point(pa))));
                    want.push(("second anchor", Box::new(point(pb))));
                    if d.is_limit_enabled() {
                        want.push(("limits", limits(sim, j.a, pa, d.get_local_axis_a(), d.get_lower_limit(), d.get_upper_limit())));
                    }
                }
                JointAsDerived::ERevoluteJoint(_) => {
                    want.push(("first anchor", Box::new(point(pa))));
                    want.push(("second anchor", Box::new(point(pb))));
                    want.push(("first arm", Box::new(seg(xa, pa))));
                    want.push(("connection", Box::new(seg(pa, pb))));
                    want.push(("second arm", Box::new(seg(xb, pb))));
                }
                JointAsDerived::EPulleyJoint(d) => {
                    let (s, t) = (f(d.get_ground_anchor_a()), f(d.get_ground_anchor_b()));
                    want.push(("first side", Box::new(seg(s, pa))));
                    want.push(("second side", Box::new(seg(t, pb))));
                    want.push(("beam", Box::new(seg(s, t))));
                }
                JointAsDerived::EMouseJoint(_) => {
                    want.push(("first anchor", Box::new(point(pa))));
                    want.push(("second anchor", Box::new(point(pb))));
                    want.push(("connection", Box::new(seg(pa, pb))));
                }
                _ => {
                    want.push(("first arm", Box::new(seg(xa, pa))));
                    want.push(("connection", Box::new(seg(pa, pb))));
                    want.push(("second arm", Box::new(seg(xb, pb))));
                }
            }
            for (what, m) in want {
                if !calls.iter().any(|c| m(c)) {
                    return viol("joint-missing", format!("the {what} of joint {} ({:?}) is not drawn", j.id, j.s.k));
                }
            }
        }
        Ok(())
    }

    fn pairs(&self, sim: &Sim, mut calls: Vec<Call>) -> Res {
        let mut n = 0;
        for c in sim.world.borrow().get_contact_list().iter() {
            let c = c.borrow();
            let c = c.get_base();
            let a = f(c.get_fixture_a().borrow().get_aabb(c.get_child_index_a()).get_center());
            let b = f(c.get_fixture_b().borrow().get_aabb(c.get_child_index_b()).get_center());
            if take(&mut calls, |c| matches!(c, Call::Seg(x, y, _) if (*x, *y) == (a, b) || (*x, *y) == (b, a))).is_none() {
                return viol("pair-missing", format!("the pair {:?} is not drawn from {a:?} to {b:?}", crate::listener::key_of(c)));
            }
            n += 1;
        }
        if let Some(c) = calls.first() {
            return viol("extra-pair", format!("drawing the {n} pairs also drew {c:?}"));
        }
        Ok(())
    }

    fn boxes(&self, sim: &Sim, calls: Vec<Call>) -> Res {
        let mut drawn = vec![];
        for c in &calls {
            let Call::Poly(v, _) = c else { return viol("extra-box", format!("drawing boxes drew {c:?}")) };
            let lo = v.iter().fold((f64::MAX, f64::MAX), |m, p| (m.0.min(p.0), m.1.min(p.1)));
            let hi = v.iter().fold((f64::MIN, f64::MIN), |m, p| (m.0.max(p.0), m.1.max(p.1)));
            let corners = [lo, (hi.0, lo.1), hi, (lo.0, hi.1)];
            if v.len() != 4 || !same_points(v, &corners) {
                return viol("not-a-box", format!("a box is drawn as {v:?}"));
            }
            drawn.push((lo, hi));
        }
        let mut tight = vec![];
        for b in sim.bodies.iter().filter(|b| b.s.enabled) {
            for x in &b.fix {
                for p in prims(b, x) {
                    let a = crate::geom::Aabb::of(&p);
                    tight.push((a.lo, a.hi, b.id, x.id));
                }
            }
        }
        if drawn.len() != tight.len() {
            return viol("box-count", format!("{} boxes are drawn for {} parts of enabled bodies", drawn.len(), tight.len()));
        }
        let slack = |v: V| 1e-3 + 1e-5 * (v.0.abs() + v.1.abs());
        let holds = |d: &(V, V), lo: V, hi: V| d.0 .0 <= lo.0 + slack(lo) && d.0 .1 <= lo.1 + slack(lo) && d.1 .0 >= hi.0 - slack(hi) && d.1 .1 >= hi.1 - slack(hi);
        for t in &tight {
            if !drawn.iter().any(|d| holds(d, t.0, t.1)) {
                return viol("box-missing", format!("no drawn box encloses fixture {} of body {}, which extends from {:?} to {:?}; drawn: {drawn:?}", t.3, t.2, t.0, t.1));
            }
        }
        for d in &drawn {
            if !tight.iter().any(|t| holds(d, t.0, t.1)) {
                return viol("stray-box", format!("the drawn box {d:?} encloses nothing"));
            }
        }
        Ok(())
    }

    fn centres(&self, sim: &Sim, mut calls: Vec<Call>) -> Res {
        for b in &sim.bodies {
            let c = f(b.ptr.borrow().get_world_center());
            let x = xf_of(b);
            if take(&mut calls, |k| matches!(k, Call::Xf(p, s, q) if *p == c && *s == x.s && *q == x.c)).is_none() {
                return viol("centre-missing", format!("the centre of body {} is not drawn", b.id));
            }
        }
        if let Some(c) = calls.first() {
            return viol("extra-centre", format!("drawing the centres also drew {c:?}"));
        }
        Ok(())
    }
}

fn limits(sim: &Sim, a: u32, pa: V, axis: B2vec2, lo: f32, hi: f32) -> Box<dyn Fn(&Call) -> bool> {
    let x = sim.body(a).map(xf_of).unwrap_or(crate::geom::Xf { p: (0.0, 0.0), s: 0.0, c: 1.0 });
    let d = (x.c * axis.x as f64 - x.s * axis.y as f64, x.s * axis.x as f64 + x.c * axis.y as f64);
    let at = |s: f32| (pa.0 + s as f64 * d.0, pa.1 + s as f64 * d.1);
    Box::new(seg(at(lo), at(hi)))
}

impl Monitor for M {
    fn after(&mut self, sim: &mut Sim, op: &Op, info: &Info, ctx: &mut Ctx) -> Res {
        if !self.set {
            sim.world.borrow_mut().set_debug_draw(self.sink.clone());
            self.set = true;
        }
        if let Op::Shift { .. } = op {
            // The boxes kept by fixtures are not moved by an origin shift.
            self.shifted = true;
        }
        if info.dt.is_some_and(|d| d > 0.0) {
            self.shifted = false;
        }
        self.sub |= sim.flags[3];
        if let Op::Draw { flags } = op {
            let flags = flags & 31;
            let all = self.draw(sim, flags);
            ctx.fault("drawing_between_steps");
            ctx.st.evals += 1;
            let mut parts = vec![];
            for bit in 0..5u8 {
                if flags & 1 << bit == 0 {
                    continue;
                }
                let calls = self.draw(sim, 1 << bit);
                parts.extend(calls.iter().cloned());
                match bit {
                    0 => self.shapes(sim, calls)?,
                    1 => self.joints(sim, calls)?,
                    // A moving body created between sub-steps catches up without its box.
                    2 if self.sub => {}
                    2 => self.boxes(sim, calls)?,
                    3 => {
                        let _ = self.pairs(sim, calls).or_else(|e| if self.shifted { Ok(()) } else { Err(e) })?;
                    }
                    _ => self.centres(sim, calls)?,
                }
                ctx.probe(["shapes", "joints", "boxes", "pairs", "centres"][bit as usize]);
            }
            let key = |v: &[Call]| {
                let mut k: Vec<String> = v.iter().map(|c| format!("{c:?}")).collect();
                k.sort();
                k
            };
            if key(&all) != key(&parts) {
                return viol("selection", format!("drawing selection {flags} made {} calls, its parts one by one {}", all.len(), parts.len()));
            }
            for c in &all {
                ctx.digest.s(&format!("{c:?}"));
            }
            self.drawn.insert(flags);
            self.n += 1;
            if self.n >= 3 && self.drawn.len() >= 2 && self.style.len() >= 2 {
                ctx.reached = true;
            }
        }
        let mut h = Hash::default();
        sim.digest(&mut h);
        sim.digest_events(info.ev0, &mut h);
        self.out.push(h.0);
        Ok(())
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    let mut m = M { sink: Default::default(), set: false, out: vec![], style: BTreeMap::new(), drawn: Default::default(), shifted: false, sub: false, n: 0 };
    drive(case, ctx, &mut m)?;
    let mut sim = Sim::new(case);
    for (i, op) in case.ops.iter().enumerate().take(m.out.len()) {
        let info = sim.apply(op);
        let mut h = Hash::default();
        sim.digest(&mut h);
        sim.digest_events(info.ev0, &mut h);
        sim.rec.borrow_mut().ev.clear();
        if h.0 != m.out[i] {
            return viol("influence", "the world evolved differently because it was drawn".to_string()).map_err(|mut v| {
                v.at = i;
                v
            });
        }
    }
    Ok(())
}
