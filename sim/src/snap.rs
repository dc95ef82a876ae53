//! Saving and restoring through the real serde code, and a dump of everything a caller can read
//! of a world, for comparison.

use crate::exec::*;
use crate::user::*;
use box2d_rs::b2_body::*;
use box2d_rs::shapes::b2rs_to_derived_shape::ShapeAsDerived;
use std::rc::Rc;
use box2d_rs::b2_fixture::*;
use box2d_rs::b2_joint::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_shape::*;
use box2d_rs::b2_world::*;
use box2d_rs::serialize::serialize_b2_world::B2worldDeserializeResult;
use std::collections::BTreeMap;
use std::io::{Read, Write};

pub const FORMATS: [&str; 3] = ["json", "yaml", "bincode"];

pub fn save_to<W: Write>(w: &B2worldPtr<U>, fmt: u8, out: W) -> Result<(), String> {
    match fmt % 3 {
        0 => serde_json::to_writer(out, &*w.borrow()).map_err(|e| e.to_string()),
        1 => serde_yaml::to_writer(out, &*w.borrow()).map_err(|e| e.to_string()),
        _ => bincode::serialize_into(out, &*w.borrow()).map_err(|e| e.to_string()),
    }
}

pub fn load_from<R: Read>(fmt: u8, r: R) -> Result<B2worldPtr<U>, String> {
    match fmt % 3 {
        0 => serde_json::from_reader::<_, B2worldDeserializeResult<U>>(r).map(|x| x.world).map_err(|e| e.to_string()),
        1 => serde_yaml::from_reader::<_, B2worldDeserializeResult<U>>(r).map(|x| x.world).map_err(|e| e.to_string()),
        _ => bincode::deserialize_from::<_, B2worldDeserializeResult<U>>(r).map(|x| x.world).map_err(|e| e.to_string()),
    }
}

pub fn save(w: &B2worldPtr<U>, fmt: u8) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    save_to(w, fmt, &mut v)?;
    Ok(v)
}

pub fn load(fmt: u8, b: &[u8]) -> Result<B2worldPtr<U>, String> {
    // From memory and through a reader are separate code paths of the formats.
    if b.len() % 2 == 0 {
        return match fmt % 3 {
            0 => serde_json::from_slice::<B2worldDeserializeResult<U>>(b).map(|x| x.world).map_err(|e| e.to_string()),
            1 => serde_yaml::from_slice::<B2worldDeserializeResult<U>>(b).map(|x| x.world).map_err(|e| e.to_string()),
            _ => bincode::deserialize::<B2worldDeserializeResult<U>>(b).map(|x| x.world).map_err(|e| e.to_string()),
        };
    }
    load_from(fmt, b)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    /// Must be the same bit for bit.
    F(f32),
    /// Recomputed on restore: value and tolerance.
    Near(f32, f32),
    S(String),
}

pub type Dump = BTreeMap<String, Val>;

struct D(Dump);

impl D {
    fn f(&mut self, k: String, v: f32) {
        self.0.insert(k, Val::F(v));
    }
    fn s<T: std::fmt::Debug>(&mut self, k: String, v: T) {
        self.0.insert(k, Val::S(format!("{v:?}")));
    }
    fn v(&mut self, k: String, v: B2vec2) {
        self.f(format!("{k}.x"), v.x);
        self.f(format!("{k}.y"), v.y);
    }
    fn near(&mut self, k: String, v: f32, tol: f32) {
        self.0.insert(k, Val::Near(v, tol));
    }
}

fn tag_b(b: &BodyPtr<U>) -> Option<u32> {
    b.borrow().get_user_data().map(|t| t.0)
}
fn tag_j(j: &B2jointPtr<U>) -> Option<u32> {
    j.borrow().get_base().get_user_data().map(|t| t.0)
}

fn shape(d: &mut D, k: &str, s: &Rc<dyn B2shapeDynTrait>) {
    match s.as_derived() {
        ShapeAsDerived::AsCircle(c) => {
            d.s(format!("{k}.kind"), "circle");
            d.f(format!("{k}.radius"), c.base.m_radius);
            d.v(format!("{k}.p"), c.m_p);
        }
        ShapeAsDerived::AsPolygon(c) => {
            d.s(format!("{k}.kind"), "polygon");
            d.f(format!("{k}.radius"), c.base.m_radius);
            d.v(format!("{k}.centroid"), c.m_centroid);
            d.s(format!("{k}.count"), c.m_count);
            for i in 0..c.m_count {
                d.v(format!("{k}.v{i}"), c.m_vertices[i]);
                d.v(format!("{k}.n{i}"), c.m_normals[i]);
            }
        }
        ShapeAsDerived::AsEdge(c) => {
            d.s(format!("{k}.kind"), "edge");
            d.f(format!("{k}.radius"), c.base.m_radius);
            d.s(format!("{k}.one_sided"), c.m_one_sided);
            d.v(format!("{k}.v1"), c.m_vertex1);
            d.v(format!("{k}.v2"), c.m_vertex2);
            if c.m_one_sided {
                d.v(format!("{k}.v0"), c.m_vertex0);
                d.v(format!("{k}.v3"), c.m_vertex3);
            }
        }
        ShapeAsDerived::AsChain(c) => {
            d.s(format!("{k}.kind"), "chain");
            d.f(format!("{k}.radius"), c.base.m_radius);
            d.s(format!("{k}.count"), c.m_vertices.len());
            for (i, v) in c.m_vertices.iter().enumerate() {
                d.v(format!("{k}.v{i}"), *v);
            }
            d.v(format!("{k}.prev"), c.m_prev_vertex);
            d.v(format!("{k}.next"), c.m_next_vertex);
        }
    }
}

/// Everything that a save promises to keep.
pub fn dump(w: &B2worldPtr<U>) -> Dump {
    let mut d = D(Dump::new());
    let w = w.borrow();
    d.v("gravity".into(), w.get_gravity());
    let bodies: Vec<BodyPtr<U>> = w.get_body_list().iter().collect();
    d.s("body count".into(), w.get_body_count());
    d.s("bodies in order".into(), bodies.iter().map(tag_b).collect::<Vec<_>>());
    for (i, b) in bodies.iter().enumerate() {
        let p = b.borrow();
        let k = format!("body {} ({:?})", i, tag_b(b));
        d.s(format!("{k}.type"), p.get_type());
        let t = p.get_transform();
        d.v(format!("{k}.position"), t.p);
        d.near(format!("{k}.cos"), t.q.c, 1e-5);
        d.near(format!("{k}.sin"), t.q.s, 1e-5);
        d.f(format!("{k}.angle"), p.get_angle());
        d.v(format!("{k}.velocity"), p.get_linear_velocity());
        d.f(format!("{k}.spin"), p.get_angular_velocity());
        d.f(format!("{k}.linear damping"), p.get_linear_damping());
        d.f(format!("{k}.angular damping"), p.get_angular_damping());
        d.f(format!("{k}.gravity scale"), p.get_gravity_scale());
        d.s(format!("{k}.bullet"), p.is_bullet());
        d.s(format!("{k}.sleep allowed"), p.is_sleeping_allowed());
        d.s(format!("{k}.awake"), p.is_awake());
        d.s(format!("{k}.enabled"), p.is_enabled());
        d.s(format!("{k}.fixed rotation"), p.is_fixed_rotation());
        let (m, i0, lc, wc) = (p.get_mass(), p.get_inertia(), p.get_local_center(), p.get_world_center());
        d.near(format!("{k}.mass"), m, 1e-5 * m);
        d.near(format!("{k}.inertia"), i0, 2e-5 * (i0 + m * (lc.x * lc.x + lc.y * lc.y)));
        d.near(format!("{k}.local centre.x"), lc.x, 1e-5 * (1.0 + lc.x.abs() + lc.y.abs()));
        d.near(format!("{k}.local centre.y"), lc.y, 1e-5 * (1.0 + lc.x.abs() + lc.y.abs()));
        let tol = 1e-5 * (1.0 + wc.x.abs() + wc.y.abs() + lc.x.abs() + lc.y.abs());
        d.near(format!("{k}.centre.x"), wc.x, tol);
        d.near(format!("{k}.centre.y"), wc.y, tol);
        let fx: Vec<FixturePtr<U>> = p.get_fixture_list().iter().collect();
        d.s(format!("{k}.fixture count"), fx.len());
        for (n, f) in fx.iter().enumerate() {
            let f = f.borrow();
            let k = format!("{k}.fixture {n}");
            d.s(format!("{k}.tag"), f.get_user_data().map(|t| t.0));
            d.f(format!("{k}.density"), f.get_density());
            d.f(format!("{k}.friction"), f.get_friction());
            d.f(format!("{k}.restitution"), f.get_restitution());
            d.f(format!("{k}.threshold"), f.get_restitution_threshold());
            d.s(format!("{k}.sensor"), f.is_sensor());
            let fl = f.get_filter_data();
            d.s(format!("{k}.filter"), (fl.category_bits, fl.mask_bits, fl.group_index));
            d.s(format!("{k}.owner"), tag_b(&f.get_body()));
            shape(&mut d, &k, &f.get_shape());
        }
        // Mouse joints are not saved.
        let mice = w.get_joint_list().iter().filter(|j| {
            let j = j.borrow();
            let x = j.get_base();
            x.get_type() == B2jointType::EMouseJoint && (Rc::ptr_eq(&x.get_body_a(), b) || Rc::ptr_eq(&x.get_body_b(), b))
        });
        d.s(format!("{k}.joint edges"), p.get_joint_list().iter().count() - mice.count());
    }
    let all: Vec<B2jointPtr<U>> = w.get_joint_list().iter().filter(|j| j.borrow().get_base().get_type() != B2jointType::EMouseJoint).collect();
    d.s("joint count".into(), all.len());
    let gear = |j: &&B2jointPtr<U>| j.borrow().get_base().get_type() == B2jointType::EGearJoint;
    d.s("joints in order".into(), all.iter().filter(|j| !gear(j)).map(tag_j).collect::<Vec<_>>());
    d.s("gears in order".into(), all.iter().filter(gear).map(tag_j).collect::<Vec<_>>());
    for j in &all {
        joint(&mut d, j);
    }
    d.0
}

fn joint(d: &mut D, j: &B2jointPtr<U>) {
    let k = format!("joint {:?}", tag_j(j));
    let j = j.borrow();
    let base = j.get_base();
    d.s(format!("{k}.type"), base.get_type() as i32);
    d.s(format!("{k}.bodies"), (tag_b(&base.get_body_a()), tag_b(&base.get_body_b())));
    d.s(format!("{k}.collide connected"), base.get_collide_connected());
    d.s(format!("{k}.enabled"), base.is_enabled());
    for (n, a) in [("a", j.get_anchor_a()), ("b", j.get_anchor_b())] {
        let tol = 1e-4 * (1.0 + a.x.abs() + a.y.abs());
        d.near(format!("{k}.anchor {n}.x"), a.x, tol);
        d.near(format!("{k}.anchor {n}.y"), a.y, tol);
    }
    match j.as_derived() {
        JointAsDerived::EDistanceJoint(x) => {
            d.v(format!("{k}.local a"), x.get_local_anchor_a());
            d.v(format!("{k}.local b"), x.get_local_anchor_b());
            d.f(format!("{k}.length"), x.get_length());
            d.f(format!("{k}.min length"), x.get_min_length());
            d.f(format!("{k}.max length"), x.get_max_length());
            d.f(format!("{k}.stiffness"), x.get_stiffness());
            d.f(format!("{k}.damping"), x.get_damping());
        }
        JointAsDerived::EFrictionJoint(x) => {
            d.v(format!("{k}.local a"), x.get_local_anchor_a());
            d.v(format!("{k}.local b"), x.get_local_anchor_b());
            d.f(format!("{k}.max force"), x.get_max_force());
            d.f(format!("{k}.max torque"), x.get_max_torque());
        }
        JointAsDerived::EGearJoint(x) => {
            d.s(format!("{k}.joints"), (tag_j(&x.get_joint1()), tag_j(&x.get_joint2())));
            d.f(format!("{k}.ratio"), x.get_ratio());
        }
        JointAsDerived::EMouseJoint(_) => {}
        JointAsDerived::EMotorJoint(x) => {
            d.v(format!("{k}.linear offset"), x.get_linear_offset());
            d.f(format!("{k}.angular offset"), x.get_angular_offset());
            d.f(format!("{k}.max force"), x.get_max_force());
            d.f(format!("{k}.max torque"), x.get_max_torque());
            d.f(format!("{k}.correction"), x.get_correction_factor());
        }
        JointAsDerived::EPulleyJoint(x) => {
            d.v(format!("{k}.ground a"), x.get_ground_anchor_a());
            d.v(format!("{k}.ground b"), x.get_ground_anchor_b());
            d.f(format!("{k}.length a"), x.get_length_a());
            d.f(format!("{k}.length b"), x.get_length_b());
            d.f(format!("{k}.ratio"), x.get_ratio());
        }
        JointAsDerived::ERevoluteJoint(x) => {
            d.v(format!("{k}.local a"), x.get_local_anchor_a());
            d.v(format!("{k}.local b"), x.get_local_anchor_b());
            d.f(format!("{k}.reference"), x.get_reference_angle());
            d.s(format!("{k}.limit"), x.is_limit_enabled());
            d.f(format!("{k}.lower"), x.get_lower_limit());
            d.f(format!("{k}.upper"), x.get_upper_limit());
            d.s(format!("{k}.motor"), x.is_motor_enabled());
            d.f(format!("{k}.speed"), x.get_motor_speed());
            d.f(format!("{k}.max torque"), x.get_max_motor_torque());
        }
        JointAsDerived::EPrismaticJoint(x) => {
            d.v(format!("{k}.local a"), x.get_local_anchor_a());
            d.v(format!("{k}.local b"), x.get_local_anchor_b());
            // Normalised again on restore.
            d.near(format!("{k}.axis.x"), x.get_local_axis_a().x, 1e-6);
            d.near(format!("{k}.axis.y"), x.get_local_axis_a().y, 1e-6);
            d.f(format!("{k}.reference"), x.get_reference_angle());
            d.s(format!("{k}.limit"), x.is_limit_enabled());
            d.f(format!("{k}.lower"), x.get_lower_limit());
            d.f(format!("{k}.upper"), x.get_upper_limit());
            d.s(format!("{k}.motor"), x.is_motor_enabled());
            d.f(format!("{k}.speed"), x.get_motor_speed());
            d.f(format!("{k}.max force"), x.get_max_motor_force());
        }
        JointAsDerived::EWeldJoint(x) => {
            d.v(format!("{k}.local a"), x.get_local_anchor_a());
            d.v(format!("{k}.local b"), x.get_local_anchor_b());
            d.f(format!("{k}.reference"), x.get_reference_angle());
            d.f(format!("{k}.stiffness"), x.get_stiffness());
            d.f(format!("{k}.damping"), x.get_damping());
        }
        JointAsDerived::EWheelJoint(x) => {
            d.v(format!("{k}.local a"), x.get_local_anchor_a());
            d.v(format!("{k}.local b"), x.get_local_anchor_b());
            // Normalised again on restore.
            d.near(format!("{k}.axis.x"), x.get_local_axis_a().x, 1e-6);
            d.near(format!("{k}.axis.y"), x.get_local_axis_a().y, 1e-6);
            d.s(format!("{k}.limit"), x.is_limit_enabled());
            d.f(format!("{k}.lower"), x.get_lower_limit());
            d.f(format!("{k}.upper"), x.get_upper_limit());
            d.s(format!("{k}.motor"), x.is_motor_enabled());
            d.f(format!("{k}.speed"), x.get_motor_speed());
            d.f(format!("{k}.max torque"), x.get_max_motor_torque());
            d.f(format!("{k}.stiffness"), x.get_stiffness());
            d.f(format!("{k}.damping"), x.get_damping());
        }
    }
}

/// First difference, if any.  `exact` also compares recomputed values bit for bit.
pub fn diff(a: &Dump, b: &Dump, exact: bool) -> Option<String> {
    for (k, x) in a {
        let Some(y) = b.get(k) else { return Some(format!("{k}: {x:?} is missing")) };
        let ok = match (x, y) {
            (Val::F(p), Val::F(q)) => p.to_bits() == q.to_bits() || p == q,
            (Val::Near(p, t), Val::Near(q, u)) => {
                if exact {
                    p == q
                } else {
                    (p - q).abs() <= t.max(*u)
                }
            }
            _ => x == y,
        };
        if !ok {
            return Some(format!("{k}: {x:?} became {y:?}"));
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            return Some(format!("{k} appeared"));
        }
    }
    None
}

/// Contacts a caller can see, with their state; a save must not disturb them.
pub fn contacts_dump(sim: &Sim) -> Vec<(crate::listener::Key, bool, bool, usize)> {
    crate::props::contacts(sim).into_iter().map(|c| (c.k, c.touching, c.enabled, c.points)).collect()
}

impl Sim {
    /// Continue with a restored world: handles are found again through the user data.
    pub fn adopt(&mut self, w: B2worldPtr<U>) {
        self.world = w;
        self.wire();
        {
            let mut w = self.world.borrow_mut();
            w.set_allow_sleeping(self.flags[0]);
            w.set_warm_starting(self.flags[1]);
            w.set_continuous_physics(self.flags[2]);
            w.set_sub_stepping(self.flags[3]);
            w.set_auto_clear_forces(self.auto_clear);
        }
        self.rec.borrow_mut().over.clear();
        let w = self.world.borrow();
        let by: BTreeMap<u32, BodyPtr<U>> = w.get_body_list().iter().map(|b| (tag_b(&b).unwrap(), b)).collect();
        for b in self.bodies.iter_mut() {
            b.ptr = by[&b.id].clone();
            b.force = (0.0, 0.0);
            b.torque = 0.0;
            b.mass_override = None;
            let fx: BTreeMap<u32, FixturePtr<U>> = b.ptr.borrow().get_fixture_list().iter().map(|f| (f.borrow().get_user_data().unwrap().0, f.clone())).collect();
            for f in b.fix.iter_mut() {
                f.ptr = fx[&f.id].clone();
                f.surface_changed = false;
            }
        }
        self.joints.retain(|j| j.s.k != crate::case::JK::Mouse);
        let by: BTreeMap<u32, B2jointPtr<U>> = w.get_joint_list().iter().map(|j| (tag_j(&j).unwrap(), j)).collect();
        for j in self.joints.iter_mut() {
            j.ptr = by[&j.id].clone();
        }
    }
}


/// Equal documents, numbers within rounding.
pub fn same_json(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value::*;
    match (a, b) {
        (Number(x), Number(y)) => {
            let (x, y) = (x.as_f64().unwrap_or(0.0), y.as_f64().unwrap_or(0.0));
            (x - y).abs() <= 1e-6 * (x.abs() + y.abs())
        }
        (Array(x), Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same_json(x, y)),
        (Object(x), Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| same_json(v, w))),
        _ => a == b,
    }
}
