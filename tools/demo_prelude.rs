#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
use box2d_rs::b2_body::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_contact::*;
use box2d_rs::b2_fixture::*;
use box2d_rs::b2_joint::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_shape::*;
use box2d_rs::b2_world::*;
use box2d_rs::b2_world_callbacks::*;
use box2d_rs::b2rs_common::UserDataType;
use box2d_rs::joints::b2_distance_joint::*;
use box2d_rs::joints::b2_friction_joint::*;
use box2d_rs::joints::b2_gear_joint::*;
use box2d_rs::joints::b2_motor_joint::*;
use box2d_rs::joints::b2_mouse_joint::*;
use box2d_rs::joints::b2_prismatic_joint::*;
use box2d_rs::joints::b2_pulley_joint::*;
use box2d_rs::joints::b2_revolute_joint::*;
use box2d_rs::joints::b2_weld_joint::*;
use box2d_rs::joints::b2_wheel_joint::*;
use box2d_rs::shapes::b2_chain_shape::*;
use box2d_rs::shapes::b2_circle_shape::*;
use box2d_rs::shapes::b2_edge_shape::*;
use box2d_rs::shapes::b2_polygon_shape::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Default, Copy, Clone, Debug, PartialEq)]
//SERDE #[derive(serde::Serialize, serde::Deserialize)]
pub struct U;
impl UserDataType for U {
    type Fixture = i32;
    type Body = i32;
    type Joint = i32;
}
pub type W = B2worldPtr<U>;
pub type B = BodyPtr<U>;
pub type F = FixturePtr<U>;

pub fn v(x: f32, y: f32) -> B2vec2 {
    B2vec2::new(x, y)
}
pub fn world(gx: f32, gy: f32) -> W {
    B2world::<U>::new(v(gx, gy))
}
/// t: 0 static, 1 kinematic, 2 dynamic
pub fn body(w: &W, t: u8, x: f32, y: f32) -> B {
    let mut d = B2bodyDef::<U>::default();
    d.body_type = match t {
        0 => B2bodyType::B2StaticBody,
        1 => B2bodyType::B2KinematicBody,
        _ => B2bodyType::B2DynamicBody,
    };
    d.position = v(x, y);
    B2world::create_body(w.clone(), &d)
}
pub fn circle_shape(r: f32) -> ShapeDefPtr {
    let mut c = B2circleShape::default();
    c.base.m_radius = r;
    Rc::new(RefCell::new(c))
}
pub fn box_shape(hx: f32, hy: f32) -> ShapeDefPtr {
    let mut p = B2polygonShape::default();
    p.set_as_box(hx, hy);
    Rc::new(RefCell::new(p))
}
pub fn edge_shape(x1: f32, y1: f32, x2: f32, y2: f32) -> ShapeDefPtr {
    let mut p = B2edgeShape::default();
    p.set_two_sided(v(x1, y1), v(x2, y2));
    Rc::new(RefCell::new(p))
}
pub fn fix(b: &B, s: ShapeDefPtr, d: f32) -> F {
    B2body::create_fixture_by_shape(b.clone(), s, d)
}
pub fn fix_with(b: &B, s: ShapeDefPtr, d: f32, mu: f32, e: f32) -> F {
    let mut fd = B2fixtureDef::<U>::default();
    fd.shape = Some(s);
    fd.density = d;
    fd.friction = mu;
    fd.restitution = e;
    B2body::create_fixture(b.clone(), &fd)
}
pub fn step(w: &W, n: usize) {
    for _ in 0..n {
        w.borrow_mut().step(1.0 / 60.0, 8, 3);
    }
}
#[derive(Default)]
pub struct Log {
    pub begins: i32,
    pub ends: i32,
    pub pres: i32,
    pub posts: i32,
    pub normal: f32,
    pub disable: bool,
    pub hook: Option<Box<dyn FnMut(&mut dyn B2contactDynTrait<U>)>>,
}
impl B2contactListener<U> for Log {
    fn begin_contact(&mut self, _c: &mut dyn B2contactDynTrait<U>) {
        self.begins += 1;
    }
    fn end_contact(&mut self, _c: &mut dyn B2contactDynTrait<U>) {
        self.ends += 1;
    }
    fn pre_solve(&mut self, c: &mut dyn B2contactDynTrait<U>, _o: &B2manifold) {
        self.pres += 1;
        if self.disable {
            c.get_base_mut().set_enabled(false);
        }
        if let Some(h) = self.hook.as_mut() {
            h(c);
        }
    }
    fn post_solve(&mut self, _c: &mut dyn B2contactDynTrait<U>, i: &B2contactImpulse) {
        self.posts += 1;
        for k in 0..i.count as usize {
            self.normal += i.normal_impulses[k];
        }
    }
}
pub fn listen(w: &W) -> Rc<RefCell<Log>> {
    let l = Rc::new(RefCell::new(Log::default()));
    w.borrow_mut().set_contact_listener(l.clone());
    l
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {what}");
        std::process::exit(1);
    }
}
