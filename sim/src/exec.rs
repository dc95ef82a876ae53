//! Drives the real engine through a schedule and keeps the reference model of what should exist.

use crate::case::*;
use crate::listener::*;
use crate::rng::Hash;
use crate::user::*;
use box2d_rs::b2_body::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_fixture::*;
use box2d_rs::b2_joint::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_shape::*;
use box2d_rs::b2_world::*;
use box2d_rs::joints::b2_distance_joint::*;
use box2d_rs::joints::b2_friction_joint::*;
use box2d_rs::joints::b2_gear_joint::*;
use box2d_rs::joints::b2_motor_joint::*;
use box2d_rs::joints::b2_mouse_joint::*;
use box2d_rs::joints::b2_prismatic_joint::*;
use box2d_rs::joints::b2_pulley_joint::*;
use box2d_rs::joints::b2_revolute_joint::*;
use box2d_rs::joints::b2_weld_joint::*;
use box2d_rs::joints::b2_wheel_joint::*;
use box2d_rs::shapes::b2_chain_shape::*;
use box2d_rs::shapes::b2_circle_shape::*;
use box2d_rs::shapes::b2_edge_shape::*;
use box2d_rs::shapes::b2_polygon_shape::*;
use std::cell::RefCell;
use std::rc::Rc;

pub fn v2(x: f32, y: f32) -> B2vec2 {
    B2vec2::new(x, y)
}
pub fn vp(p: P) -> B2vec2 {
    B2vec2::new(p.0, p.1)
}

#[derive(Clone)]
pub struct MF {
    pub id: u32,
    pub ptr: FixturePtr<U>,
    pub f: Fix,
    /// Surface values changed after creation: contacts may hold older mixes.
    pub surface_changed: bool,
}

#[derive(Clone)]
pub struct MB {
    pub id: u32,
    pub ptr: BodyPtr<U>,
    pub s: BodySpec,
    pub fix: Vec<MF>,
    pub force: (f64, f64),
    pub torque: f64,
    pub mass_override: Option<(f32, P, f32)>,
}

#[derive(Clone)]
pub struct MJ {
    pub id: u32,
    pub ptr: B2jointPtr<U>,
    pub s: JointSpec,
    /// Body ids.
    pub a: u32,
    pub b: u32,
    /// Joints a gear depends on, and the two extra bodies it reads.
    pub deps: Vec<u32>,
    pub extra: Vec<u32>,
}

/// What an operation did.
#[derive(Default, Debug, Clone)]
pub struct Info {
    pub skipped: bool,
    pub body: Option<u32>,
    pub new_body: Option<u32>,
    pub new_fix: Option<u32>,
    pub new_joint: Option<u32>,
    pub dead_bodies: Vec<u32>,
    pub dead_fix: Vec<u32>,
    pub dead_joints: Vec<u32>,
    /// Destruction callbacks the caller is owed.
    pub bye_fix: Vec<u32>,
    pub bye_joints: Vec<u32>,
    pub dt: Option<f32>,
    pub ev0: usize,
}

pub struct Sim {
    pub world: B2worldPtr<U>,
    pub bodies: Vec<MB>,
    pub joints: Vec<MJ>,
    pub next_id: u32,
    pub rec: Rc<RefCell<Rec>>,
    pub custom_filter: bool,
    pub gravity: (f32, f32),
    pub auto_clear: bool,
    pub flags: [bool; 4],
    pub inc: u32,
    pub time: f64,
    pub held: Vec<BodyPtr<U>>,
    pub hold: bool,
    /// Body pairs that were ever joined by a joint that stops them colliding.
    pub was_joined: std::collections::BTreeSet<(u32, u32)>,
}

pub fn make_shape(s: &Shape) -> ShapeDefPtr {
    match s {
        Shape::Circle { r, x, y } => {
            let mut c = B2circleShape::default();
            c.base.m_radius = *r;
            c.m_p = v2(*x, *y);
            Rc::new(RefCell::new(c))
        }
        Shape::Box { hx, hy, x, y, a } => {
            let mut p = B2polygonShape::default();
            if *x == 0.0 && *y == 0.0 && *a == 0.0 {
                p.set_as_box(*hx, *hy);
            } else {
                p.set_as_box_angle(*hx, *hy, v2(*x, *y), *a);
            }
            Rc::new(RefCell::new(p))
        }
        Shape::Poly { pts } => {
            let mut p = B2polygonShape::default();
            let v: Vec<B2vec2> = pts.iter().map(|p| vp(*p)).collect();
            p.set(&v);
            Rc::new(RefCell::new(p))
        }
        Shape::Edge { a, b } => {
            let mut e = B2edgeShape::default();
            e.set_two_sided(vp(*a), vp(*b));
            Rc::new(RefCell::new(e))
        }
        Shape::Edge1 { v } => {
            let mut e = B2edgeShape::default();
            e.set_one_sided(vp(v[0]), vp(v[1]), vp(v[2]), vp(v[3]));
            Rc::new(RefCell::new(e))
        }
        Shape::Chain { pts, prev, next } => {
            let mut c = B2chainShape::default();
            let v: Vec<B2vec2> = pts.iter().map(|p| vp(*p)).collect();
            c.create_chain(&v, vp(*prev), vp(*next));
            Rc::new(RefCell::new(c))
        }
        Shape::Loop { pts } => {
            let mut c = B2chainShape::default();
            let v: Vec<B2vec2> = pts.iter().map(|p| vp(*p)).collect();
            c.create_loop(&v);
            Rc::new(RefCell::new(c))
        }
    }
}

pub fn fixture_def(f: &Fix, id: u32) -> B2fixtureDef<U> {
    let mut fd = B2fixtureDef::<U>::default();
    fd.shape = Some(make_shape(&f.shape));
    fd.user_data = Some(Tag::new(id));
    fd.density = f.d;
    fd.friction = f.mu;
    fd.restitution = f.e;
    fd.restitution_threshold = f.th;
    fd.is_sensor = f.sensor;
    fd.filter.category_bits = f.cat;
    fd.filter.mask_bits = f.mask;
    fd.filter.group_index = f.group;
    fd
}

pub fn body_type(t: u8) -> B2bodyType {
    match t {
        0 => B2bodyType::B2StaticBody,
        1 => B2bodyType::B2KinematicBody,
        _ => B2bodyType::B2DynamicBody,
    }
}
pub fn type_code(t: B2bodyType) -> u8 {
    match t {
        B2bodyType::B2StaticBody => 0,
        B2bodyType::B2KinematicBody => 1,
        _ => 2,
    }
}

/// Stiffness and damping are switched off now and then.
pub fn firm(v: f32) -> f32 {
    if v.abs() < 0.4 {
        0.0
    } else {
        v.abs()
    }
}

impl Sim {
    pub fn new(case: &Case) -> Sim {
        let g = (case.get("gx") as f32, case.get("gy") as f32);
        let world = B2world::<U>::new(v2(g.0, g.1));
        let rec = Rc::new(RefCell::new(Rec::default()));
        let mut sim = Sim {
            world,
            bodies: vec![],
            joints: vec![],
            next_id: 1,
            rec,
            custom_filter: case.on("custom_filter"),
            gravity: g,
            auto_clear: true,
            flags: [true, true, true, false],
            inc: 0,
            time: 0.0,
            held: vec![],
            hold: case.on("hold"),
            was_joined: Default::default(),
        };
        {
            let mut r = sim.rec.borrow_mut();
            r.do_refused = true;
            r.do_reads = true;
            r.filter_salt = case.u("filter_salt") as u32;
        }
        sim.wire();
        {
            let mut w = sim.world.borrow_mut();
            if case.on("no_warm") {
                w.set_warm_starting(false);
                sim.flags[1] = false;
            }
            if case.on("no_toi") {
                w.set_continuous_physics(false);
                sim.flags[2] = false;
            }
            if case.on("no_sleep") {
                w.set_allow_sleeping(false);
                sim.flags[0] = false;
            }
            if case.on("substep") {
                w.set_sub_stepping(true);
                sim.flags[3] = true;
            }
            if case.on("no_autoclear") {
                w.set_auto_clear_forces(false);
                sim.auto_clear = false;
            }
        }
        sim
    }

    /// Attach listener, filter and destruction listener to the current world.
    pub fn wire(&mut self) {
        let mut w = self.world.borrow_mut();
        self.rec.borrow_mut().world = Some(Rc::downgrade(&self.world));
        w.set_contact_listener(Rc::new(RefCell::new(Lst(self.rec.clone()))));
        w.set_destruction_listener(Rc::new(RefCell::new(Des(self.rec.clone()))));
        if self.custom_filter {
            w.set_contact_filter(Rc::new(RefCell::new(Flt(self.rec.clone()))));
        }
    }

    pub fn nb(&self) -> usize {
        self.bodies.len()
    }
    pub fn bi(&self, b: u32) -> Option<usize> {
        if self.bodies.is_empty() {
            None
        } else {
            Some(b as usize % self.bodies.len())
        }
    }
    pub fn body(&self, id: u32) -> Option<&MB> {
        self.bodies.iter().find(|b| b.id == id)
    }
    pub fn body_of_fix(&self, id: u32) -> Option<(&MB, &MF)> {
        for b in &self.bodies {
            for f in &b.fix {
                if f.id == id {
                    return Some((b, f));
                }
            }
        }
        None
    }
    pub fn joint(&self, id: u32) -> Option<&MJ> {
        self.joints.iter().find(|j| j.id == id)
    }
    fn id(&mut self) -> u32 {
        let i = self.next_id;
        self.next_id += 1;
        i
    }
    pub fn in_gear(&self, body: u32) -> bool {
        self.joints.iter().any(|j| j.extra.contains(&body) || (j.s.k == JK::Gear && (j.a == body || j.b == body)))
    }

    fn add_body(&mut self, s: &BodySpec, info: &mut Info) {
        let id = self.id();
        let mut d = B2bodyDef::<U>::default();
        d.body_type = body_type(s.t);
        d.position = v2(s.x, s.y);
        d.angle = s.a;
        d.linear_velocity = v2(s.vx, s.vy);
        d.angular_velocity = s.w;
        d.linear_damping = s.ld;
        d.angular_damping = s.ad;
        d.gravity_scale = s.gs;
        d.allow_sleep = s.sleep;
        d.awake = s.awake;
        d.fixed_rotation = s.fixed;
        d.bullet = s.bullet;
        d.enabled = s.enabled;
        d.user_data = Some(Tag::new(id));
        let ptr = B2world::create_body(self.world.clone(), &d);
        let mut mb = MB { id, ptr, s: s.clone(), fix: vec![], force: (0.0, 0.0), torque: 0.0, mass_override: None };
        mb.s.fix.clear();
        self.bodies.push(mb);
        let i = self.bodies.len() - 1;
        for f in &s.fix {
            self.add_fixture(i, f);
        }
        info.new_body = Some(id);
        info.body = Some(id);
    }

    fn add_fixture(&mut self, bi: usize, f: &Fix) -> u32 {
        let id = self.id();
        let fd = fixture_def(f, id);
        let ptr = B2body::create_fixture(self.bodies[bi].ptr.clone(), &fd);
        self.bodies[bi].fix.push(MF { id, ptr, f: f.clone(), surface_changed: false });
        if f.d > 0.0 {
            self.bodies[bi].mass_override = None;
        }
        id
    }

    fn drop_gears_of(&mut self, joint: u32, info: &mut Info) {
        let gears: Vec<u32> = self.joints.iter().filter(|j| j.deps.contains(&joint)).map(|j| j.id).collect();
        for g in gears {
            self.kill_joint(g, info);
        }
    }

    fn kill_joint(&mut self, id: u32, info: &mut Info) {
        self.drop_gears_of(id, info);
        if let Some(i) = self.joints.iter().position(|j| j.id == id) {
            let j = self.joints.remove(i);
            self.world.borrow_mut().destroy_joint(j.ptr.clone());
            info.dead_joints.push(id);
        }
    }

    pub fn kill_body(&mut self, i: usize, info: &mut Info) {
        let id = self.bodies[i].id;
        // Gears must go before the joints (and bodies) they depend on.
        let js: Vec<u32> = self.joints.iter().filter(|j| j.a == id || j.b == id || j.extra.contains(&id)).map(|j| j.id).collect();
        for j in &js {
            self.drop_gears_of(*j, info);
            if self.joints.iter().any(|x| x.id == *j && x.s.k == JK::Gear) {
                self.kill_joint(*j, info);
            }
        }
        let mb = self.bodies.remove(i);
        for j in js {
            if let Some(k) = self.joints.iter().position(|x| x.id == j) {
                self.joints.remove(k);
                info.dead_joints.push(j);
                info.bye_joints.push(j);
            }
        }
        for f in &mb.fix {
            info.dead_fix.push(f.id);
            info.bye_fix.push(f.id);
        }
        info.dead_bodies.push(id);
        self.world.borrow_mut().destroy_body(mb.ptr.clone());
        if self.hold {
            self.held.push(mb.ptr.clone());
        }
    }

    fn make_joint(&mut self, s: &JointSpec, info: &mut Info) {
        if s.k == JK::Gear {
            let cand: Vec<usize> = (0..self.joints.len())
                .filter(|i| matches!(self.joints[*i].s.k, JK::Revolute | JK::Prismatic))
                .collect();
            if cand.len() < 2 {
                info.skipped = true;
                return;
            }
            let i1 = cand[s.a as usize % cand.len()];
            let i2 = cand[s.b as usize % cand.len()];
            let (j1, j2) = (self.joints[i1].clone(), self.joints[i2].clone());
            // A gear needs enabled bodies, the driven ones dynamic (documented precondition).
            let all_on = [j1.a, j1.b, j2.a, j2.b].iter().all(|b| self.body(*b).map_or(false, |b| b.s.enabled))
                && [j1.b, j2.b].iter().all(|b| self.body(*b).map_or(false, |b| b.s.t == 2));
            if i1 == i2 || j1.b == j2.b || !all_on {
                info.skipped = true;
                return;
            }
            let id = self.id();
            let mut d = B2gearJointDef::<U>::default();
            d.base.user_data = Some(Tag::new(id));
            d.base.body_a = Some(self.body(j1.b).unwrap().ptr.clone());
            d.base.body_b = Some(self.body(j2.b).unwrap().ptr.clone());
            d.base.collide_connected = s.collide;
            d.joint1 = Some(j1.ptr.clone());
            d.joint2 = Some(j2.ptr.clone());
            d.ratio = s.p[0];
            let ptr = self.world.borrow_mut().create_joint(&B2JointDefEnum::GearJoint(d));
            if !s.collide {
                self.was_joined.insert((j1.b.min(j2.b), j1.b.max(j2.b)));
            }
            self.joints.push(MJ { id, ptr, s: s.clone(), a: j1.b, b: j2.b, deps: vec![j1.id, j2.id], extra: vec![j1.a, j2.a] });
            info.new_joint = Some(id);
            return;
        }
        let n = self.bodies.len();
        if n < 2 {
            info.skipped = true;
            return;
        }
        let ia = s.a as usize % n;
        let mut ib = s.b as usize % n;
        if ia == ib {
            ib = (ib + 1) % n;
        }
        let (a, b) = (self.bodies[ia].ptr.clone(), self.bodies[ib].ptr.clone());
        let (ida, idb) = (self.bodies[ia].id, self.bodies[ib].id);
        let pa = a.borrow().get_position();
        let pb = b.borrow().get_position();
        let anchor = v2(pa.x + s.x, pa.y + s.y);
        let axis = v2(s.ang.cos(), s.ang.sin());
        let id = self.id();
        let tag = Some(Tag::new(id));
        let def = match s.k {
            JK::Distance => {
                let mut d = B2distanceJointDef::<U>::default();
                d.initialize(a.clone(), b.clone(), anchor, pb);
                d.length = d.length.max(0.05);
                d.min_length = d.length * (1.0 - s.p[0].abs().min(0.9));
                d.max_length = d.length * (1.0 + s.p[1].abs());
                if s.limit {
                    d.min_length = d.length;
                    d.max_length = d.length;
                }
                if s.motor {
                    d.stiffness = s.p[2].abs() * 10.0;
                    d.damping = s.p[3].abs();
                }
                d.base.user_data = tag;
                d.base.collide_connected = s.collide;
                B2JointDefEnum::DistanceJoint(d)
            }
            JK::Friction => {
                let mut d = B2frictionJointDef::<U>::default();
                d.initialize(a.clone(), b.clone(), anchor);
                d.max_force = s.p[0].abs();
                d.max_torque = s.p[1].abs();
                d.base.user_data = tag;
                d.base.collide_connected = s.collide;
                B2JointDefEnum::FrictionJoint(d)
            }
            JK::Mouse => {
                let mut d = B2mouseJointDef::<U>::default();
                d.base.body_a = Some(a.clone());
                d.base.body_b = Some(b.clone());
                d.target = v2(pb.x + s.x, pb.y + s.y);
                d.max_force = s.p[0].abs() * 20.0;
                d.stiffness = s.p[1].abs() * 10.0 + 0.1;
                d.damping = s.p[2].abs() + 0.01;
                d.base.user_data = tag;
                d.base.collide_connected = s.collide;
                B2JointDefEnum::MouseJoint(d)
            }
            JK::Motor => {
                let mut d = B2motorJointDef::<U>::default();
                d.initialize(a.clone(), b.clone());
                if s.motor {
                    d.linear_offset = v2(s.p[2], s.p[3]);
                }
                d.max_force = s.p[0].abs() * 10.0;
                d.max_torque = s.p[1].abs() * 10.0;
                d.correction_factor = if s.limit { 0.3 } else { 1.0 };
                d.base.user_data = tag;
                d.base.collide_connected = s.collide;
                B2JointDefEnum::MotorJoint(d)
            }
            JK::Pulley => {
                let mut d = B2pulleyJointDef::<U>::default();
                let ratio = 0.5 + s.p[0].abs().min(2.0);
                d.initialize(
                    a.clone(),
                    b.clone(),
                    v2(pa.x, pa.y + 2.0 + s.p[1].abs()),
                    v2(pb.x, pb.y + 2.0 + s.p[2].abs()),
                    pa,
                    pb,
                    ratio,
                );
                d.base.user_data = tag;
                d.base.collide_connected = s.collide;
                B2JointDefEnum::PulleyJoint(d)
            }
            JK::Revolute => {
                let mut d = B2revoluteJointDef::<U>::default();
                d.initialize(a.clone(), b.clone(), anchor);
                d.enable_limit = s.limit;
                d.lower_angle = -s.p[0].abs();
                d.upper_angle = s.p[1].abs();
                d.enable_motor = s.motor;
                d.motor_speed = s.p[2];
                d.max_motor_torque = s.p[3].abs() * 10.0;
                d.base.user_data = tag;
                d.base.collide_connected = s.collide;
                B2JointDefEnum::RevoluteJoint(d)
            }
            JK::Prismatic => {
                let mut d = B2prismaticJointDef::<U>::default();
                d.initialize(a.clone(), b.clone(), anchor, axis);
                // The direction counts, not its length.
                d.local_axis_a = (0.5 + s.p[2].abs()) * d.local_axis_a;
                d.enable_limit = s.limit;
                d.lower_translation = -s.p[0].abs();
                d.upper_translation = s.p[1].abs();
                d.enable_motor = s.motor;
                d.motor_speed = s.p[2];
                d.max_motor_force = s.p[3].abs() * 10.0;
                d.base.user_data = tag;
                d.base.collide_connected = s.collide;
                B2JointDefEnum::PrismaticJoint(d)
            }
            JK::Weld => {
                let mut d = B2weldJointDef::<U>::default();
                d.initialize(a.clone(), b.clone(), anchor);
                if s.motor {
                    d.stiffness = s.p[0].abs() * 10.0;
                    d.damping = s.p[1].abs();
                }
                d.base.user_data = tag;
                d.base.collide_connected = s.collide;
                B2JointDefEnum::WeldJoint(d)
            }
            JK::Wheel => {
                let mut d = B2wheelJointDef::<U>::default();
                d.initialize(a.clone(), b.clone(), anchor, axis);
                d.enable_limit = s.limit;
                d.lower_translation = -s.p[0].abs();
                d.upper_translation = s.p[1].abs();
                d.enable_motor = s.motor;
                d.motor_speed = s.p[2];
                d.max_motor_torque = s.p[3].abs() * 10.0;
                d.stiffness = s.p[0].abs() * 20.0;
                d.damping = s.p[1].abs() * 2.0;
                d.base.user_data = tag;
                d.base.collide_connected = s.collide;
                B2JointDefEnum::WheelJoint(d)
            }
            JK::Gear => unreachable!(),
        };
        let ptr = self.world.borrow_mut().create_joint(&def);
        drop(def);
        if !s.collide {
            self.was_joined.insert((ida.min(idb), ida.max(idb)));
        }
        self.joints.push(MJ { id, ptr, s: s.clone(), a: ida, b: idb, deps: vec![], extra: vec![] });
        info.new_joint = Some(id);
    }

    fn joint_set(&mut self, j: usize, w: u8, v: f32, v2_: f32) {
        let p = self.joints[j].ptr.clone();
        let mut p = p.borrow_mut();
        match p.as_derived_mut() {
            JointAsDerivedMut::EDistanceJoint(d) => match w % 5 {
                0 => {
                    d.set_length(v.abs() + 0.05);
                }
                1 => {
                    d.set_min_length(v.abs());
                }
                2 => {
                    d.set_max_length(v.abs() + v2_.abs());
                }
                3 => d.set_stiffness(firm(v) * 5.0),
                _ => d.set_damping(firm(v)),
            },
            JointAsDerivedMut::EFrictionJoint(d) => match w % 2 {
                0 => d.set_max_force(v.abs() * 5.0),
                _ => d.set_max_torque(v.abs() * 5.0),
            },
            JointAsDerivedMut::EGearJoint(d) => d.set_ratio(if v.abs() < 0.1 { 0.5 } else { v.clamp(-3.0, 3.0) }),
            JointAsDerivedMut::EMouseJoint(d) => match w % 4 {
                0 => d.set_target(v2(v, v2_)),
                1 => d.set_max_force(v.abs() * 20.0),
                2 => d.set_stiffness(v.abs() * 5.0 + 0.1),
                _ => d.set_damping(v.abs() + 0.01),
            },
            JointAsDerivedMut::EMotorJoint(d) => match w % 5 {
                0 => d.set_linear_offset(v2(v, v2_)),
                1 => d.set_angular_offset(v),
                2 => d.set_max_force(v.abs() * 10.0),
                3 => d.set_max_torque(v.abs() * 10.0),
                _ => d.set_correction_factor(v.abs().min(1.0)),
            },
            JointAsDerivedMut::EPulleyJoint(_) => {}
            JointAsDerivedMut::ERevoluteJoint(d) => match w % 5 {
                0 => d.enable_limit(v > 0.0),
                1 => d.set_limits(v.min(v2_), v.max(v2_)),
                2 => d.enable_motor(v > 0.0),
                3 => d.set_motor_speed(v),
                _ => d.set_max_motor_torque(v.abs() * 10.0),
            },
            JointAsDerivedMut::EPrismaticJoint(d) => match w % 5 {
                0 => d.enable_limit(v > 0.0),
                1 => d.set_limits(v.min(v2_), v.max(v2_)),
                2 => d.enable_motor(v > 0.0),
                3 => d.set_motor_speed(v),
                _ => d.set_max_motor_force(v.abs() * 10.0),
            },
            JointAsDerivedMut::EWeldJoint(d) => match w % 2 {
                0 => d.set_stiffness(firm(v) * 5.0),
                _ => d.set_damping(firm(v)),
            },
            JointAsDerivedMut::EWheelJoint(d) => match w % 7 {
                0 => d.enable_limit(v > 0.0),
                1 => d.set_limits(v.min(v2_), v.max(v2_)),
                2 => d.enable_motor(v > 0.0),
                3 => d.set_motor_speed(v),
                4 => d.set_max_motor_torque(v.abs() * 10.0),
                5 => d.set_stiffness(firm(v) * 5.0),
                _ => d.set_damping(firm(v)),
            },
        }
    }

    /// Apply one operation to the real engine and to the model.
    pub fn apply(&mut self, op: &Op) -> Info {
        let mut info = Info { ev0: self.rec.borrow().ev.len(), ..Default::default() };
        macro_rules! body {
            ($b:expr) => {
                match self.bi($b) {
                    Some(i) => {
                        info.body = Some(self.bodies[i].id);
                        i
                    }
                    None => {
                        info.skipped = true;
                        return info;
                    }
                }
            };
        }
        macro_rules! fixt {
            ($b:expr, $f:expr) => {{
                let i = body!($b);
                let n = self.bodies[i].fix.len();
                if n == 0 {
                    info.skipped = true;
                    return info;
                }
                (i, $f as usize % n)
            }};
        }
        match op {
            Op::Body(s) => self.add_body(s, &mut info),
            Op::Fixture { b, f } => {
                let i = body!(*b);
                let id = self.add_fixture(i, f);
                info.new_fix = Some(id);
            }
            Op::DelFixture { b, f } => {
                let (i, k) = fixt!(*b, *f);
                let mf = self.bodies[i].fix.remove(k);
                info.dead_fix.push(mf.id);
                B2body::destroy_fixture(self.bodies[i].ptr.clone(), mf.ptr.clone());
                self.bodies[i].mass_override = None;
            }
            Op::DelBody { b } => {
                let i = body!(*b);
                self.kill_body(i, &mut info);
            }
            Op::Joint(s) => self.make_joint(s, &mut info),
            Op::DelJoint { j } => {
                if self.joints.is_empty() {
                    info.skipped = true;
                    return info;
                }
                let id = self.joints[*j as usize % self.joints.len()].id;
                self.kill_joint(id, &mut info);
            }
            Op::JointSet { j, w, v, v2 } => {
                if self.joints.is_empty() {
                    info.skipped = true;
                    return info;
                }
                let i = *j as usize % self.joints.len();
                self.joint_set(i, *w, *v, *v2);
            }
            Op::Step { dt, vi, pi } => {
                {
                    let mut r = self.rec.borrow_mut();
                    r.in_step = true;
                    r.step_no += 1;
                }
                self.world.borrow_mut().step(*dt, *vi as i32, *pi as i32);
                self.rec.borrow_mut().in_step = false;
                self.time += *dt as f64;
                info.dt = Some(*dt);
                if self.auto_clear {
                    for b in self.bodies.iter_mut() {
                        b.force = (0.0, 0.0);
                        b.torque = 0.0;
                    }
                }
            }
            Op::Transform { b, x, y, a } => {
                let i = body!(*b);
                self.bodies[i].ptr.borrow_mut().set_transform(v2(*x, *y), *a);
            }
            Op::Vel { b, x, y, w } => {
                let i = body!(*b);
                let mut p = self.bodies[i].ptr.borrow_mut();
                p.set_linear_velocity(v2(*x, *y));
                p.set_angular_velocity(*w);
            }
            Op::Force { b, k, x, y, ox, oy, wake } => {
                let i = body!(*b);
                let p = self.bodies[i].ptr.clone();
                let was = p.borrow().is_awake();
                let c = p.borrow().get_world_center();
                let pt = v2(c.x + ox, c.y + oy);
                match k % 3 {
                    0 => p.borrow_mut().apply_force(v2(*x, *y), pt, *wake),
                    1 => p.borrow_mut().apply_force_to_center(v2(*x, *y), *wake),
                    _ => p.borrow_mut().apply_torque(*x, *wake),
                }
                let mb = &mut self.bodies[i];
                if mb.s.t == 2 && (was || *wake) {
                    match k % 3 {
                        0 => {
                            mb.force.0 += *x as f64;
                            mb.force.1 += *y as f64;
                            let (rx, ry) = (pt.x as f64 - c.x as f64, pt.y as f64 - c.y as f64);
                            mb.torque += rx * *y as f64 - ry * *x as f64;
                        }
                        1 => {
                            mb.force.0 += *x as f64;
                            mb.force.1 += *y as f64;
                        }
                        _ => mb.torque += *x as f64,
                    }
                }
            }
            Op::Impulse { b, k, x, y, ox, oy, wake } => {
                let i = body!(*b);
                let p = self.bodies[i].ptr.clone();
                let c = p.borrow().get_world_center();
                let pt = v2(c.x + ox, c.y + oy);
                match k % 3 {
                    0 => p.borrow_mut().apply_linear_impulse(v2(*x, *y), pt, *wake),
                    1 => p.borrow_mut().apply_linear_impulse_to_center(v2(*x, *y), *wake),
                    _ => p.borrow_mut().apply_angular_impulse(*x, *wake),
                }
            }
            Op::Type { b, t } => {
                let i = body!(*b);
                let t = *t % 3;
                let id = self.bodies[i].id;
                // The driven bodies of a gear stay dynamic (documented precondition).
                if t != 2 && self.joints.iter().any(|j| j.s.k == JK::Gear && (j.a == id || j.b == id)) {
                    info.skipped = true;
                    return info;
                }
                B2body::set_type(self.bodies[i].ptr.clone(), body_type(t));
                if self.bodies[i].s.t != t {
                    self.bodies[i].s.t = t;
                    self.bodies[i].mass_override = None;
                    self.bodies[i].force = (0.0, 0.0);
                    self.bodies[i].torque = 0.0;
                }
            }
            Op::Enable { b, on } => {
                let i = body!(*b);
                if !*on && self.in_gear(self.bodies[i].id) {
                    info.skipped = true;
                    return info;
                }
                B2body::set_enabled(self.bodies[i].ptr.clone(), *on);
                self.bodies[i].s.enabled = *on;
            }
            Op::Awake { b, on } => {
                let i = body!(*b);
                self.bodies[i].ptr.borrow_mut().set_awake(*on);
                if !*on {
                    self.bodies[i].force = (0.0, 0.0);
                    self.bodies[i].torque = 0.0;
                }
            }
            Op::FixedRot { b, on } => {
                let i = body!(*b);
                self.bodies[i].ptr.borrow_mut().set_fixed_rotation(*on);
                if self.bodies[i].s.fixed != *on {
                    self.bodies[i].s.fixed = *on;
                    self.bodies[i].mass_override = None;
                }
            }
            Op::Bullet { b, on } => {
                let i = body!(*b);
                self.bodies[i].ptr.borrow_mut().set_bullet(*on);
                self.bodies[i].s.bullet = *on;
            }
            Op::SleepOk { b, on } => {
                let i = body!(*b);
                self.bodies[i].ptr.borrow_mut().set_sleeping_allowed(*on);
                self.bodies[i].s.sleep = *on;
            }
            Op::Damp { b, l, a } => {
                let i = body!(*b);
                let mut p = self.bodies[i].ptr.borrow_mut();
                p.set_linear_damping(*l);
                p.set_angular_damping(*a);
                drop(p);
                self.bodies[i].s.ld = *l;
                self.bodies[i].s.ad = *a;
            }
            Op::GScale { b, v } => {
                let i = body!(*b);
                self.bodies[i].ptr.borrow_mut().set_gravity_scale(*v);
                self.bodies[i].s.gs = *v;
            }
            Op::Filter { b, f, cat, mask, group } => {
                let (i, k) = fixt!(*b, *f);
                let mf = &mut self.bodies[i].fix[k];
                let mut d = mf.ptr.borrow().get_filter_data();
                d.category_bits = *cat;
                d.mask_bits = *mask;
                d.group_index = *group;
                mf.ptr.borrow_mut().set_filter_data(d);
                mf.f.cat = *cat;
                mf.f.mask = *mask;
                mf.f.group = *group;
            }
            Op::Sensor { b, f, on } => {
                let (i, k) = fixt!(*b, *f);
                let mf = &mut self.bodies[i].fix[k];
                mf.ptr.borrow_mut().set_sensor(*on);
                mf.f.sensor = *on;
            }
            Op::Surface { b, f, mu, e } => {
                let (i, k) = fixt!(*b, *f);
                let mf = &mut self.bodies[i].fix[k];
                mf.ptr.borrow_mut().set_friction(*mu);
                mf.ptr.borrow_mut().set_restitution(*e);
                mf.f.mu = *mu;
                mf.f.e = *e;
                mf.surface_changed = true;
            }
            Op::Density { b, f, d } => {
                let (i, k) = fixt!(*b, *f);
                let mf = &mut self.bodies[i].fix[k];
                mf.ptr.borrow_mut().set_density(*d);
                mf.f.d = *d;
                self.bodies[i].ptr.borrow_mut().reset_mass_data();
                self.bodies[i].mass_override = None;
            }
            Op::MassData { b, m, x, y, i: inertia } => {
                let i = body!(*b);
                let md = B2massData { mass: *m, center: v2(*x, *y), i: *inertia };
                self.bodies[i].ptr.borrow_mut().set_mass_data(&md);
                if self.bodies[i].s.t == 2 {
                    self.bodies[i].mass_override = Some((*m, (*x, *y), *inertia));
                }
            }
            Op::ResetMass { b } => {
                let i = body!(*b);
                self.bodies[i].ptr.borrow_mut().reset_mass_data();
                self.bodies[i].mass_override = None;
            }
            Op::Flag { w, on } => {
                let mut wd = self.world.borrow_mut();
                match w % 5 {
                    0 => {
                        wd.set_allow_sleeping(*on);
                        self.flags[0] = *on
                    }
                    1 => {
                        wd.set_warm_starting(*on);
                        self.flags[1] = *on
                    }
                    2 => {
                        wd.set_continuous_physics(*on);
                        self.flags[2] = *on
                    }
                    3 => {
                        wd.set_sub_stepping(*on);
                        self.flags[3] = *on
                    }
                    _ => {
                        wd.set_auto_clear_forces(*on);
                        self.auto_clear = *on
                    }
                }
            }
            Op::Gravity { x, y } => {
                self.world.borrow_mut().set_gravity(v2(*x, *y));
                self.gravity = (*x, *y);
            }
            Op::ClearForces => {
                self.world.borrow_mut().clear_forces();
                for b in self.bodies.iter_mut() {
                    b.force = (0.0, 0.0);
                    b.torque = 0.0;
                }
            }
            Op::Shift { x, y } => self.world.borrow().shift_origin(v2(*x, *y)),
            Op::Stats { k } => {
                let w = self.world.borrow();
                match k % 6 {
                    0 => {
                        std::hint::black_box(w.get_profile());
                    }
                    1 => {
                        std::hint::black_box(w.get_tree_height());
                    }
                    2 => {
                        std::hint::black_box(w.get_tree_balance());
                    }
                    3 => {
                        std::hint::black_box(w.get_tree_quality());
                    }
                    4 => {
                        std::hint::black_box(w.get_proxy_count());
                    }
                    _ => {
                        std::hint::black_box(w.get_contact_list().iter().count());
                    }
                }
            }
            Op::Arm { ev, every, off, act } => {
                self.rec.borrow_mut().rules.push(Rule { ev: *ev, every: *every, off: *off, act: *act });
            }
            Op::Disarm => self.rec.borrow_mut().rules.clear(),
            Op::FilterRule { salt } => {
                if !self.custom_filter {
                    info.skipped = true;
                    return info;
                }
                self.rec.borrow_mut().filter_salt = *salt;
                for b in &self.bodies {
                    for f in &b.fix {
                        f.ptr.borrow_mut().refilter();
                    }
                }
            }
            Op::ClockJump { ns } => crate::clock::jump(*ns),
            Op::Hold { on } => {
                self.hold = *on;
                if !*on {
                    self.held.clear();
                    let mut r = self.rec.borrow_mut();
                    r.kept_bodies.clear();
                    r.kept_fixtures.clear();
                }
            }
            Op::DropWorld { keep } => {
                info.dead_bodies = self.bodies.iter().map(|b| b.id).collect();
                info.dead_fix = self.bodies.iter().flat_map(|b| b.fix.iter().map(|f| f.id)).collect();
                info.dead_joints = self.joints.iter().map(|j| j.id).collect();
                if *keep {
                    for b in self.bodies.iter().step_by(2) {
                        self.held.push(b.ptr.clone());
                    }
                }
                self.bodies.clear();
                self.joints.clear();
                self.world = B2world::<U>::new(v2(self.gravity.0, self.gravity.1));
                self.wire();
                let mut w = self.world.borrow_mut();
                w.set_allow_sleeping(self.flags[0]);
                w.set_warm_starting(self.flags[1]);
                w.set_continuous_physics(self.flags[2]);
                w.set_sub_stepping(self.flags[3]);
                w.set_auto_clear_forces(self.auto_clear);
            }
            Op::Query { x, y, hx, hy, .. } => {
                let a = B2AABB { lower_bound: v2(x - hx, y - hy), upper_bound: v2(x + hx, y + hy) };
                let mut n = 0u64;
                self.world.borrow().query_aabb(
                    |_f: FixturePtr<U>| {
                        n += 1;
                        true
                    },
                    a,
                );
                std::hint::black_box(n);
            }
            Op::Ray { x1, y1, x2, y2, .. } => {
                if (x1, y1) == (x2, y2) {
                    info.skipped = true;
                    return info;
                }
                let mut n = 0u64;
                self.world.borrow().ray_cast(
                    |_f: FixturePtr<U>, _p: B2vec2, _n: B2vec2, _fr: f32| {
                        n += 1;
                        1.0
                    },
                    v2(*x1, *y1),
                    v2(*x2, *y2),
                );
                std::hint::black_box(n);
            }
            _ => info.skipped = true,
        }
        info
    }

    /// Digest of the complete observable state.
    pub fn digest(&self, h: &mut Hash) {
        let w = self.world.borrow();
        h.u(w.get_body_count() as u64);
        h.u(w.get_joint_count() as u64);
        h.u(w.get_contact_count() as u64);
        h.u(w.get_proxy_count() as u64);
        h.u(w.get_tree_height() as u64);
        for b in w.get_body_list().iter() {
            let b = b.borrow();
            h.u(b.get_user_data().map(|t| t.0).unwrap_or(0) as u64);
            for v in [
                b.get_position().x,
                b.get_position().y,
                b.get_angle(),
                b.get_linear_velocity().x,
                b.get_linear_velocity().y,
                b.get_angular_velocity(),
                b.get_world_center().x,
                b.get_world_center().y,
                b.get_mass(),
                b.get_inertia(),
            ] {
                h.f(v);
            }
            h.u(b.is_awake() as u64 | (b.is_enabled() as u64) << 1 | (type_code(b.get_type()) as u64) << 2);
            for f in b.get_fixture_list().iter() {
                let f = f.borrow();
                h.u(f.get_user_data().map(|t| t.0).unwrap_or(0) as u64);
            }
        }
        for c in w.get_contact_list().iter() {
            let c = c.borrow();
            let c = c.get_base();
            let k = key_of(c);
            h.u((k.fa as u64) << 32 | k.fb as u64);
            h.u((k.ca as u64) << 32 | k.cb as u64);
            h.u(c.is_touching() as u64 | (c.is_enabled() as u64) << 1);
            let m = c.get_manifold();
            h.u(m.point_count as u64);
            for i in 0..m.point_count {
                h.f(m.points[i].normal_impulse);
                h.f(m.points[i].tangent_impulse);
                h.f(m.points[i].local_point.x);
                h.f(m.points[i].local_point.y);
            }
        }
        for j in w.get_joint_list().iter() {
            let j = j.borrow();
            h.u(j.get_base().get_user_data().map(|t| t.0).unwrap_or(0) as u64);
            let f = j.get_reaction_force(60.0);
            h.f(f.x);
            h.f(f.y);
            h.f(j.get_reaction_torque(60.0));
        }
    }

    /// Digest of the callbacks recorded from index `from` on.
    pub fn digest_events(&self, from: usize, h: &mut Hash) {
        for e in &self.rec.borrow().ev[from..] {
            h.u(e.code());
            if let Some(k) = e.key() {
                h.u((k.fa as u64) << 32 | k.fb as u64);
                h.u((k.ca as u64) << 32 | k.cb as u64);
            }
            match e {
                E::Pre { d, .. } => {
                    h.f(d.normal.0);
                    h.f(d.normal.1);
                    h.u(d.count as u64);
                    h.f(d.seps[0]);
                }
                E::Post { d, .. } => {
                    for i in 0..d.count {
                        h.f(d.n[i]);
                        h.f(d.t[i]);
                    }
                }
                E::ByeFixture { id, .. } | E::ByeJoint { id } => h.u(*id as u64),
                E::Filter { fa, fb, ans } => {
                    h.u((*fa as u64) << 32 | *fb as u64);
                    h.u(*ans as u64);
                }
                _ => {}
            }
        }
    }
}

/// A property watches a run through this.
pub trait Monitor {
    fn before(&mut self, _sim: &mut Sim, _op: &Op, _ctx: &mut Ctx) {}
    fn after(&mut self, sim: &mut Sim, op: &Op, info: &Info, ctx: &mut Ctx) -> Res;
    fn end(&mut self, _sim: &mut Sim, _ctx: &mut Ctx) -> Res {
        Ok(())
    }
}

/// Run the schedule of a case, calling the monitor around every operation.
pub fn drive(case: &Case, ctx: &mut Ctx, mon: &mut dyn Monitor) -> Res {
    let mut sim = Sim::new(case);
    drive_on(&mut sim, case, ctx, mon)?;
    finish(sim, ctx)
}

pub fn finish(sim: Sim, ctx: &mut Ctx) -> Res {
    for (k, v) in &sim.rec.borrow().faults {
        *ctx.st.faults.entry(k.to_string()).or_insert(0) += v;
    }
    Ok(())
}

/// Faults a schedule carries by itself (as opposed to those fired in callbacks).
pub fn op_fault(op: &Op, sim: &Sim) -> Option<&'static str> {
    match op {
        Op::DelBody { .. } => Some("body_destroyed_mid_run"),
        Op::DelFixture { .. } => Some("fixture_destroyed_mid_run"),
        Op::DelJoint { .. } => Some("joint_destroyed_mid_run"),
        Op::Enable { on: false, .. } => Some("body_disabled"),
        Op::Type { .. } => Some("body_type_changed"),
        Op::Transform { .. } => Some("body_teleported"),
        Op::Filter { .. } | Op::FilterRule { .. } => Some("filter_changed"),
        Op::ClockJump { .. } => Some("clock_jump"),
        Op::Shift { .. } => Some("origin_shift"),
        Op::Save { .. } => Some("save"),
        Op::Crash { .. } => Some("crash_restart"),
        Op::DropWorld { .. } => Some("world_dropped_mid_run"),
        Op::Hold { on: true } => Some("handles_held_past_destruction"),
        Op::Awake { .. } => Some("forced_sleep_or_wake"),
        Op::Flag { .. } => Some("world_flag_flipped"),
        Op::Step { dt, .. } if *dt == 0.0 => Some("zero_length_step"),
        Op::Step { dt, .. } if *dt > 0.05 => Some("stalled_host_long_step"),
        Op::Step { dt, .. } if sim.time > 0.0 && *dt < 0.004 => Some("tiny_step"),
        _ => None,
    }
}

pub fn drive_on(sim: &mut Sim, case: &Case, ctx: &mut Ctx, mon: &mut dyn Monitor) -> Res {
    for (i, op) in case.ops.iter().enumerate() {
        mon.before(sim, op, ctx);
        let fault = op_fault(op, sim);
        let info = sim.apply(op);
        ctx.st.ops += 1;
        *ctx.st.op_kinds.entry(op.kind().to_string()).or_insert(0) += 1;
        if !info.skipped {
            if let Some(f) = fault {
                ctx.fault(f);
            }
            ctx.sig.s(op.kind());
        }
        if let Some(dt) = info.dt {
            ctx.st.steps += 1;
            ctx.st.sim_s += dt as f64;
        }
        for e in &sim.rec.borrow().ev[info.ev0..] {
            ctx.sig.u(e.code());
        }
        sim.digest_events(info.ev0, &mut ctx.digest);
        // Contradictory or over-stretched joints may throw bodies out of the range of positions that is judged.
        let out = info.dt.is_some() && out_of_range(sim);
        let r = problems(sim).and_then(|_| if out { Ok(()) } else { mon.after(sim, op, &info, ctx) });
        if let Err(mut v) = r {
            v.at = i;
            return Err(v);
        }
        // Keep the event log bounded; monitors look only at the current operation.
        sim.rec.borrow_mut().ev.clear();
        if out {
            ctx.probe("run_ended_early_out_of_range");
            return Ok(());
        }
    }
    sim.digest(&mut ctx.digest);
    mon.end(sim, ctx).map_err(|mut v| {
        v.at = case.ops.len();
        v
    })
}

/// Positions beyond this are not judged (single-precision resolution becomes coarse), nor are
/// angles of more than about 1500 turns.
pub const RANGE: f32 = 1e5;
pub const ANGLE_RANGE: f32 = 1e4;

pub fn out_of_range(sim: &Sim) -> bool {
    !sim.joints.is_empty()
        && sim.bodies.iter().any(|b| {
            let b = b.ptr.borrow();
            let (p, a) = (b.get_position(), b.get_angle());
            !(p.x.abs() < RANGE && p.y.abs() < RANGE && a.abs() < ANGLE_RANGE)
        })
}

pub fn problems(sim: &Sim) -> Res {
    if let Some((k, d)) = sim.rec.borrow().problems.first() {
        return viol(k, d.clone());
    }
    Ok(())
}

pub fn trace(case: &Case) {
    let mut sim = Sim::new(case);
    for (i, op) in case.ops.iter().enumerate() {
        let info = sim.apply(op);
        println!("op {i} {} skipped={}", op.kind(), info.skipped);
        for e in &sim.rec.borrow().ev {
            println!("    {e:?}");
        }
        sim.rec.borrow_mut().ev.clear();
        for b in &sim.bodies {
            let p = b.ptr.borrow();
            println!(
                "    body {} t{} pos {:?} ang {} v {:?} w {} awake {} m {} I {}",
                b.id,
                b.s.t,
                p.get_position(),
                p.get_angle(),
                p.get_linear_velocity(),
                p.get_angular_velocity(),
                p.is_awake(),
                p.get_mass(),
                p.get_inertia()
            );
        }
        for j in &sim.joints {
            let p = j.ptr.borrow();
            println!("    joint {} {:?} {}-{} force {:?} torque {}", j.id, j.s.k, j.a, j.b, p.get_reaction_force(1.0), p.get_reaction_torque(1.0));
        }
    }
}
