//! Recording listener, contact filter and destruction listener, with scripted behaviour
//! ("faults") carried out from inside the callbacks.

use crate::case::*;
use crate::user::*;
use box2d_rs::b2_body::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_contact::*;
use box2d_rs::b2_fixture::*;
use box2d_rs::b2_joint::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_shape::*;
use box2d_rs::b2_world::*;
use box2d_rs::b2_world_callbacks::*;
use box2d_rs::shapes::b2_circle_shape::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::{Rc, Weak};

thread_local! {
    /// Set while a call that is expected to be refused runs.
    pub static EXPECT_PANIC: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

/// (fixture id, child index) of both sides, in the contact's own order.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Key {
    pub fa: u32,
    pub ca: i32,
    pub fb: u32,
    pub cb: i32,
}

impl Key {
    /// Order-independent form.
    pub fn norm(self) -> Key {
        if (self.fa, self.ca) <= (self.fb, self.cb) {
            self
        } else {
            Key { fa: self.fb, ca: self.cb, fb: self.fa, cb: self.ca }
        }
    }
}

#[derive(Clone, Debug)]
pub struct PreData {
    pub enabled: bool,
    pub touching: bool,
    pub sensor: bool,
    pub normal: (f32, f32),
    pub points: [(f32, f32); 2],
    pub seps: [f32; 2],
    pub count: usize,
    pub old_count: usize,
    pub friction: f32,
    pub restitution: f32,
    pub threshold: f32,
    pub tangent: f32,
    /// Positions of both bodies' centres at the time.
    pub c: [(f32, f32); 2],
    pub v: [(f32, f32, f32); 2],
    /// Position and rotation (sine, cosine) of both bodies at the time.
    pub xf: [[f32; 4]; 2],
    /// Warm-starting impulses carried by the points.
    pub imp: [(f32, f32); 2],
    pub ids: [[u8; 4]; 2],
    pub old_ids: [[u8; 4]; 2],
    pub old_imp: [(f32, f32); 2],
    /// What callbacks had set on this contact when the call arrived.
    pub over: [Option<f32>; 4],
    /// Friction, restitution and surface speed when the call returned.
    pub out: [f32; 4],
}

#[derive(Clone, Debug)]
pub struct PostData {
    pub n: [f32; 2],
    pub t: [f32; 2],
    pub count: usize,
    /// The manifold as the contact holds it at the time.
    pub points: usize,
    pub ids: [[u8; 4]; 2],
    pub imp: [(f32, f32); 2],
    pub enabled: bool,
    pub touching: bool,
    pub sensor: bool,
    /// Velocities of both bodies when the call arrived.
    pub v: [(f32, f32, f32); 2],
}

#[derive(Clone, Debug)]
pub enum E {
    Begin { k: Key, ba: u32, bb: u32, touching: bool },
    End { k: Key, ba: u32, bb: u32 },
    Pre { k: Key, ba: u32, bb: u32, d: Box<PreData>, disabled: bool },
    Post { k: Key, ba: u32, bb: u32, d: PostData },
    ByeFixture { id: u32, body: u32 },
    ByeJoint { id: u32 },
    Filter { fa: u32, fb: u32, ans: bool },
}

impl E {
    pub fn key(&self) -> Option<Key> {
        match self {
            E::Begin { k, .. } | E::End { k, .. } | E::Pre { k, .. } | E::Post { k, .. } => Some(*k),
            _ => None,
        }
    }
    pub fn code(&self) -> u64 {
        match self {
            E::Begin { .. } => 1,
            E::End { .. } => 2,
            E::Pre { .. } => 3,
            E::Post { .. } => 4,
            E::ByeFixture { .. } => 5,
            E::ByeJoint { .. } => 6,
            E::Filter { .. } => 7,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub ev: Ev,
    pub every: u32,
    pub off: u32,
    pub act: Act,
}

#[derive(Default)]
pub struct Rec {
    pub ev: Vec<E>,
    pub rules: Vec<Rule>,
    pub counts: [u32; 6],
    pub world: Option<Weak<RefCell<B2world<U>>>>,
    pub in_step: bool,
    pub step_no: u32,
    pub faults: BTreeMap<&'static str, u64>,
    pub problems: Vec<(String, String)>,
    /// Last override set from a callback, per contact and quantity.
    pub over: BTreeMap<Key, [Option<f32>; 4]>,
    pub salt: u32,
    /// When false, scripted refused calls are counted but not made (twin runs).
    pub do_refused: bool,
    pub do_reads: bool,
    pub kept_bodies: Vec<BodyPtr<U>>,
    pub kept_fixtures: Vec<FixturePtr<U>>,
    pub filter_salt: u32,
    pub filter_calls: u32,
    /// Detailed recording of pre/post data.
    pub detail: bool,
    pub sink: u64,
    pub post_manifold: bool,
    pub posts_wm: Vec<(Key, (f32, f32), [(f32, f32); 2])>,
}

pub struct Lst(pub Rc<RefCell<Rec>>);
pub struct Flt(pub Rc<RefCell<Rec>>);
pub struct Des(pub Rc<RefCell<Rec>>);

pub fn fid(f: &FixturePtr<U>) -> u32 {
    f.borrow().get_user_data().map(|t| t.0).unwrap_or(0)
}
pub fn bid(b: &BodyPtr<U>) -> u32 {
    b.borrow().get_user_data().map(|t| t.0).unwrap_or(0)
}

pub fn key_of(c: &B2contact<U>) -> Key {
    Key {
        fa: fid(&c.get_fixture_a()),
        ca: c.get_child_index_a(),
        fb: fid(&c.get_fixture_b()),
        cb: c.get_child_index_b(),
    }
}

pub fn p2(v: B2vec2) -> (f32, f32) {
    (v.x, v.y)
}

fn idx(ev: Ev) -> usize {
    match ev {
        Ev::Begin => 0,
        Ev::End => 1,
        Ev::Pre => 2,
        Ev::Post => 3,
        Ev::Filter => 4,
        Ev::Goodbye => 5,
    }
}

fn cfid(m: &B2manifold, i: usize) -> [u8; 4] {
    let c = m.points[i].id.cf;
    [c.index_a, c.index_b, c.type_a, c.type_b]
}

/// Whether the custom filter lets a pair through: a pure function of the pair and the salt.
pub fn filter_rule(salt: u32, a: u32, b: u32) -> bool {
    if salt == 0 {
        return true;
    }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    crate::rng::mix((salt as u64) << 40 ^ (a as u64) << 20 ^ b as u64) % 3 != 0
}

/// The category/mask/group rule, re-stated.
pub fn default_rule(a: (u16, u16, i16), b: (u16, u16, i16)) -> bool {
    if a.2 != 0 && a.2 == b.2 {
        a.2 > 0
    } else {
        a.0 & b.1 != 0 && b.0 & a.1 != 0
    }
}

impl Rec {
    fn due(&mut self, ev: Ev) -> Vec<Act> {
        let i = idx(ev);
        let n = self.counts[i];
        self.counts[i] = n.wrapping_add(1);
        self.rules
            .iter()
            .filter(|r| r.ev == ev && n % r.every.max(1) == r.off % r.every.max(1))
            .map(|r| r.act)
            .collect()
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
    }
    fn problem(&mut self, k: &str, d: String) {
        if self.problems.len() < 10 {
            self.problems.push((k.to_string(), d));
        }
    }

    fn refused(&mut self, k: u8, ba: &BodyPtr<U>, fa: Option<&FixturePtr<U>>) {
        if !self.in_step {
            return;
        }
        self.fault("structural_call_in_callback");
        if !self.do_refused {
            return;
        }
        let world = match self.world.as_ref().and_then(|w| w.upgrade()) {
            Some(w) => w,
            None => return,
        };
        let locked = world.try_borrow_mut().is_err();
        if !locked {
            self.problem("world-not-locked-in-callback", format!("call {k}: the world could be borrowed mutably inside a callback"));
            return;
        }
        EXPECT_PANIC.with(|e| e.set(true));
        let r = catch_unwind(AssertUnwindSafe(|| match k % 9 {
            0 => {
                let d = B2bodyDef::<U>::default();
                B2world::create_body(world.clone(), &d);
            }
            1 => ba.borrow_mut().set_transform(B2vec2::new(77.0, 77.0), 1.0),
            2 => {
                let mut s = B2circleShape::default();
                s.base.m_radius = 0.5;
                let s: ShapeDefPtr = Rc::new(RefCell::new(s));
                B2body::create_fixture_by_shape(ba.clone(), s, 1.0);
            }
            3 => {
                if let Some(f) = fa {
                    B2body::destroy_fixture(ba.clone(), f.clone());
                } else {
                    panic!("skip");
                }
            }
            4 => {
                let t = ba.borrow().get_type();
                let n = if t == B2bodyType::B2StaticBody { B2bodyType::B2DynamicBody } else { B2bodyType::B2StaticBody };
                B2body::set_type(ba.clone(), n);
            }
            5 => {
                let on = ba.borrow().is_enabled();
                B2body::set_enabled(ba.clone(), !on);
            }
            6 => {
                let md = B2massData { mass: 123.0, center: B2vec2::new(0.5, 0.5), i: 500.0 };
                ba.borrow_mut().set_mass_data(&md);
            }
            7 => world.borrow_mut().destroy_body(ba.clone()),
            _ => world.borrow().shift_origin(B2vec2::new(5.0, 5.0)),
        }));
        EXPECT_PANIC.with(|e| e.set(false));
        if r.is_ok() {
            self.problem("structural-call-accepted-in-callback", format!("structural call {} went through inside a callback", k % 9));
        }
    }

    fn read_all(&mut self, c: &B2contact<U>) {
        self.fault("read_all_in_callback");
        if !self.do_reads {
            return;
        }
        let mut h = crate::rng::Hash::default();
        for f in [c.get_fixture_a(), c.get_fixture_b()] {
            let f = f.borrow();
            h.f(f.get_friction());
            h.f(f.get_restitution());
            h.f(f.get_density());
            h.u(f.is_sensor() as u64);
            h.u(f.get_filter_data().mask_bits as u64);
            let mut md = B2massData::default();
            f.get_mass_data(&mut md);
            h.f(md.mass);
            h.u(f.get_shape().get_child_count() as u64);
            let b = f.get_body();
            h.u(f.test_point(b.borrow().get_position()) as u64);
            let b = b.borrow();
            h.f(b.get_position().x);
            h.f(b.get_angle());
            h.f(b.get_linear_velocity().x);
            h.f(b.get_angular_velocity());
            h.f(b.get_mass());
            h.f(b.get_inertia());
            h.f(b.get_world_center().x);
            h.u(b.is_awake() as u64);
            h.u(b.is_bullet() as u64);
            h.u(b.get_fixture_list().iter().count() as u64);
            h.u(b.get_joint_list().iter().count() as u64);
            h.f(b.get_world_point(B2vec2::new(1.0, 0.0)).x);
            h.f(b.get_linear_velocity_from_world_point(B2vec2::new(1.0, 0.0)).x);
        }
        let mut wm = B2worldManifold::default();
        c.get_world_manifold(&mut wm);
        h.f(wm.normal.x);
        h.f(c.get_friction());
        h.f(c.get_restitution());
        h.f(c.get_tangent_speed());
        h.u(c.is_touching() as u64);
        self.sink ^= h.0;
    }

    fn act(&mut self, act: Act, ev: Ev, c: &mut dyn B2contactDynTrait<U>, k: Key) -> bool {
        let mut disabled = false;
        match act {
            Act::Disable => {
                if ev == Ev::Pre {
                    // The same contact is always treated the same way within one step.
                    let n = k.norm();
                    let h = crate::rng::mix(
                        (n.fa as u64) << 32 ^ (n.fb as u64) << 8 ^ (n.ca as u64) << 50 ^ (n.cb as u64) << 58 ^ (self.step_no as u64) << 20,
                    );
                    if h % 3 == 0 {
                        c.get_base_mut().set_enabled(false);
                        disabled = true;
                        self.fault("contact_disabled_in_pre_solve");
                    }
                }
            }
            Act::Friction(v) => {
                c.get_base_mut().set_friction(v);
                self.over.entry(k.norm()).or_default()[0] = Some(v);
                self.fault("friction_override_in_callback");
            }
            Act::Restitution(v) => {
                c.get_base_mut().set_restitution(v);
                self.over.entry(k.norm()).or_default()[1] = Some(v);
                self.fault("restitution_override_in_callback");
            }
            Act::Tangent(v) => {
                c.get_base_mut().set_tangent_speed(v);
                self.over.entry(k.norm()).or_default()[2] = Some(v);
                self.fault("tangent_speed_in_callback");
            }
            Act::Threshold(v) => {
                c.get_base_mut().set_restitution_threshold(v);
                self.over.entry(k.norm()).or_default()[3] = Some(v);
                self.fault("restitution_threshold_in_callback");
            }
            Act::ResetMix => {
                c.get_base_mut().reset_friction();
                c.get_base_mut().reset_restitution();
                c.get_base_mut().reset_restitution_threshold();
                let o = self.over.entry(k.norm()).or_default();
                o[0] = None;
                o[1] = None;
                o[3] = None;
                self.fault("reset_mix_in_callback");
            }
            Act::Kick(x, y, w) => {
                let b = c.get_base().get_fixture_a().borrow().get_body();
                let b2 = c.get_base().get_fixture_b().borrow().get_body();
                b.borrow_mut().set_linear_velocity(B2vec2::new(x, y));
                b2.borrow_mut().set_linear_velocity(B2vec2::new(-x, -y));
                b2.borrow_mut().set_angular_velocity(w);
                self.fault("velocity_change_in_callback");
            }
            Act::Force(x, y) => {
                let b = c.get_base().get_fixture_a().borrow().get_body();
                let b2 = c.get_base().get_fixture_b().borrow().get_body();
                let p = b.borrow().get_world_center();
                b.borrow_mut().apply_force(B2vec2::new(x, y), p, true);
                b2.borrow_mut().apply_force_to_center(B2vec2::new(-x, y), true);
                b2.borrow_mut().apply_torque(x, true);
                self.fault("force_in_callback");
            }
            Act::Impulse(x, y) => {
                let b = c.get_base().get_fixture_b().borrow().get_body();
                b.borrow_mut().apply_linear_impulse_to_center(B2vec2::new(x, y), true);
                b.borrow_mut().apply_angular_impulse(x, true);
                self.fault("impulse_in_callback");
            }
            Act::ReadAll => self.read_all(c.get_base()),
            Act::Refused(n) => {
                let f = c.get_base().get_fixture_a();
                let b = f.borrow().get_body();
                self.refused(n, &b, Some(&f));
            }
            Act::Clock(ns) => {
                crate::clock::jump(ns);
                self.fault("clock_jump_in_callback");
            }
            Act::KeepHandles => {
                let f = c.get_base().get_fixture_a();
                let b = f.borrow().get_body();
                if self.kept_bodies.len() < 64 {
                    self.kept_bodies.push(b);
                    self.kept_fixtures.push(f);
                }
                self.fault("handle_kept_in_callback");
            }
        }
        disabled
    }
}

fn sides(c: &B2contact<U>) -> (u32, u32, bool) {
    let (fa, fb) = (c.get_fixture_a(), c.get_fixture_b());
    let ba = bid(&fa.borrow().get_body());
    let bb = bid(&fb.borrow().get_body());
    let sensor = fa.borrow().is_sensor() || fb.borrow().is_sensor();
    (ba, bb, sensor)
}

impl B2contactListener<U> for Lst {
    fn begin_contact(&mut self, contact: &mut dyn B2contactDynTrait<U>) {
        let mut r = self.0.borrow_mut();
        let k = key_of(contact.get_base());
        let (ba, bb, _) = sides(contact.get_base());
        let touching = contact.get_base().is_touching();
        r.ev.push(E::Begin { k, ba, bb, touching });
        for a in r.due(Ev::Begin) {
            r.act(a, Ev::Begin, contact, k);
        }
    }
    fn end_contact(&mut self, contact: &mut dyn B2contactDynTrait<U>) {
        let mut r = self.0.borrow_mut();
        let k = key_of(contact.get_base());
        let (ba, bb, _) = sides(contact.get_base());
        r.ev.push(E::End { k, ba, bb });
        for a in r.due(Ev::End) {
            r.act(a, Ev::End, contact, k);
        }
    }
    fn pre_solve(&mut self, contact: &mut dyn B2contactDynTrait<U>, old: &B2manifold) {
        let mut r = self.0.borrow_mut();
        let k = key_of(contact.get_base());
        let (ba, bb, sensor) = sides(contact.get_base());
        let d = {
            let c = contact.get_base();
            let mut wm = B2worldManifold::default();
            c.get_world_manifold(&mut wm);
            let m = c.get_manifold();
            let cen = |f: &FixturePtr<U>| {
                let b = f.borrow().get_body();
                let b = b.borrow();
                (p2(b.get_world_center()), (b.get_linear_velocity().x, b.get_linear_velocity().y, b.get_angular_velocity()))
            };
            let place = |f: &FixturePtr<U>| {
                let t = f.borrow().get_body().borrow().get_transform();
                [t.p.x, t.p.y, t.q.s, t.q.c]
            };
            let (ca, va) = cen(&c.get_fixture_a());
            let (cb, vb) = cen(&c.get_fixture_b());
            PreData {
                enabled: c.is_enabled(),
                touching: c.is_touching(),
                sensor,
                normal: p2(wm.normal),
                points: [p2(wm.points[0]), p2(wm.points[1])],
                seps: wm.separations,
                count: m.point_count,
                old_count: old.point_count,
                friction: c.get_friction(),
                restitution: c.get_restitution(),
                threshold: c.get_restitution_threshold(),
                tangent: c.get_tangent_speed(),
                c: [ca, cb],
                v: [va, vb],
                xf: [place(&c.get_fixture_a()), place(&c.get_fixture_b())],
                imp: [
                    (m.points[0].normal_impulse, m.points[0].tangent_impulse),
                    (m.points[1].normal_impulse, m.points[1].tangent_impulse),
                ],
                ids: [cfid(m, 0), cfid(m, 1)],
                old_ids: [cfid(old, 0), cfid(old, 1)],
                old_imp: [
                    (old.points[0].normal_impulse, old.points[0].tangent_impulse),
                    (old.points[1].normal_impulse, old.points[1].tangent_impulse),
                ],
                over: r.over.get(&k.norm()).copied().unwrap_or_default(),
                out: [0.0; 4],
            }
        };
        let mut d = d;
        let mut disabled = false;
        for a in r.due(Ev::Pre) {
            disabled |= r.act(a, Ev::Pre, contact, k);
        }
        let c = contact.get_base();
        d.out = [c.get_friction(), c.get_restitution(), c.get_tangent_speed(), c.get_restitution_threshold()];
        r.ev.push(E::Pre { k, ba, bb, d: Box::new(d), disabled });
    }
    fn post_solve(&mut self, contact: &mut dyn B2contactDynTrait<U>, impulse: &B2contactImpulse) {
        let mut r = self.0.borrow_mut();
        let k = key_of(contact.get_base());
        let (ba, bb, sensor) = sides(contact.get_base());
        let m = contact.get_base().get_manifold();
        let vel = |f: FixturePtr<U>| {
            let b = f.borrow().get_body();
            let b = b.borrow();
            (b.get_linear_velocity().x, b.get_linear_velocity().y, b.get_angular_velocity())
        };
        let d = PostData {
            n: impulse.normal_impulses,
            t: impulse.tangent_impulses,
            count: impulse.count as usize,
            points: m.point_count,
            ids: [cfid(m, 0), cfid(m, 1)],
            imp: [
                (m.points[0].normal_impulse, m.points[0].tangent_impulse),
                (m.points[1].normal_impulse, m.points[1].tangent_impulse),
            ],
            enabled: contact.get_base().is_enabled(),
            touching: contact.get_base().is_touching(),
            sensor,
            v: [vel(contact.get_base().get_fixture_a()), vel(contact.get_base().get_fixture_b())],
        };
        r.ev.push(E::Post { k, ba, bb, d });
        for a in r.due(Ev::Post) {
            r.act(a, Ev::Post, contact, k);
        }
    }
}

impl B2contactFilter<U> for Flt {
    fn should_collide(&self, fixture_a: FixturePtr<U>, fixture_b: FixturePtr<U>) -> bool {
        let mut r = self.0.borrow_mut();
        let (a, b) = (fid(&fixture_a), fid(&fixture_b));
        let fd = |f: &FixturePtr<U>| {
            let d = f.borrow().get_filter_data();
            (d.category_bits, d.mask_bits, d.group_index)
        };
        let ans = default_rule(fd(&fixture_a), fd(&fixture_b)) && filter_rule(r.filter_salt, a, b);
        r.ev.push(E::Filter { fa: a, fb: b, ans });
        r.filter_calls += 1;
        ans
    }
}

impl B2destructionListener<U> for Des {
    fn say_goodbye_joint(&mut self, joint: B2jointPtr<U>) {
        let mut r = self.0.borrow_mut();
        let id = joint.borrow().get_base().get_user_data().map(|t| t.0).unwrap_or(0);
        r.ev.push(E::ByeJoint { id });
    }
    fn say_goodbye_fixture(&mut self, fixture: FixturePtr<U>) {
        let mut r = self.0.borrow_mut();
        let id = fid(&fixture);
        let body = bid(&fixture.borrow().get_body());
        r.ev.push(E::ByeFixture { id, body });
    }
}
