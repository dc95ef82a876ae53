//! One module per property: how its cases are generated and how a run is judged.

use crate::case::*;
use crate::exec::*;
use crate::geom::{self, Xf};
use crate::listener::*;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(u64, bool) -> Case,
    pub run: fn(&Case, &mut Ctx) -> Res,
    pub quick: u64,
    pub thorough: u64,
    /// What makes a run count as non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    /// Fixed scenarios of known findings: (signature in known-findings.txt, description) when they
    /// still fail.
    pub known: Option<fn() -> Vec<(String, String)>>,
}

pub const REAL: &[&str] = &["the whole box2d-rs crate: world, bodies, fixtures, joints, broad phase, narrow phase, solvers, time of impact"];
pub const STUB: &[&str] = &["profiling clock (simulated)", "contact listener, contact filter and destruction listener (scripted)"];
pub const BASE_ASSUMPTIONS: &[&str] = &[
    "single-threaded use, as the crate's handles require",
    "finite inputs within the ranges of the generator",
    "callbacks do not panic",
];

pub fn all() -> &'static [&'static Prop] {
    &[&c01::PROP, &c02::PROP, &c03::PROP, &c04::PROP, &c05::PROP, &c06::PROP, &c07::PROP, &c08::PROP, &c09::PROP, &c10::PROP, &c11::PROP, &c12::PROP, &c13::PROP, &c14::PROP, &c15::PROP, &c16::PROP, &c17::PROP, &c18::PROP, &c19::PROP, &c20::PROP, &c21::PROP, &c22::PROP, &c23::PROP, &c24::PROP, &c25::PROP, &c26::PROP]
}

pub fn find(id: &str) -> Option<&'static Prop> {
    all().iter().find(|p| p.id == id).copied()
}

/// A contact as the world reports it.
#[derive(Clone, Debug)]
pub struct CI {
    pub k: Key,
    pub ba: u32,
    pub bb: u32,
    pub touching: bool,
    pub enabled: bool,
    pub points: usize,
    pub sensor: bool,
}

pub fn contacts(sim: &Sim) -> Vec<CI> {
    let w = sim.world.borrow();
    w.get_contact_list()
        .iter()
        .map(|c| {
            let c = c.borrow();
            let c = c.get_base();
            let (fa, fb) = (c.get_fixture_a(), c.get_fixture_b());
            let ba = bid(&fa.borrow().get_body());
            let bb = bid(&fb.borrow().get_body());
            let sensor = fa.borrow().is_sensor() || fb.borrow().is_sensor();
            CI { k: key_of(c), ba, bb, touching: c.is_touching(), enabled: c.is_enabled(), points: c.get_manifold().point_count, sensor }
        })
        .collect()
}

pub fn xf_of(b: &MB) -> Xf {
    let t = b.ptr.borrow().get_transform();
    Xf { p: (t.p.x as f64, t.p.y as f64), s: t.q.s as f64, c: t.q.c as f64 }
}

pub fn prims(b: &MB, f: &MF) -> Vec<geom::Prim> {
    let xf = xf_of(b);
    (0..f.f.shape.children()).map(|i| geom::world_prim(&f.f.shape, i, &xf)).collect()
}

/// Whether two fixtures may collide, restated from the documented rules.
pub fn eligible(sim: &Sim, ba: &MB, fa: &MF, bb: &MB, fb: &MF) -> bool {
    if ba.id == bb.id || !ba.s.enabled || !bb.s.enabled || (ba.s.t != 2 && bb.s.t != 2) {
        return false;
    }
    if sim.joints.iter().any(|j| !j.s.collide && ((j.a == ba.id && j.b == bb.id) || (j.a == bb.id && j.b == ba.id))) {
        return false;
    }
    let fl = |f: &MF| (f.f.cat, f.f.mask, f.f.group);
    if !default_rule(fl(fa), fl(fb)) {
        return false;
    }
    !sim.custom_filter || filter_rule(sim.rec.borrow().filter_salt, fa.id, fb.id)
}

/// The usual world switches, drawn per run.
pub fn swarm_flags(r: &mut crate::rng::Rng, c: &mut Case) {
    for (k, p) in [("no_warm", 0.2), ("no_toi", 0.3), ("no_sleep", 0.2), ("substep", 0.15), ("no_autoclear", 0.15), ("hold", 0.3)] {
        if r.chance(p) {
            c.set(k, 1.0);
        }
    }
    if r.chance(0.3) {
        c.set("custom_filter", 1.0);
        let s = r.u32() % 1000;
        c.set("filter_salt", s as f64);
    }
}
