//! Lists, counts and links stay mutually consistent.

use super::*;
use crate::gen::*;
use crate::rng::Rng;
use box2d_rs::b2_collision::B2AABB;
use box2d_rs::b2_fixture::FixturePtr;
use crate::user::U;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C02",
    gen,
    run,
    quick: 24000,
    thorough: 1_200_000,
    rule: "a run counts when at least one body, fixture or joint was destroyed, disabled or re-typed while the world held contacts or joints",
    assumptions: BASE_ASSUMPTIONS,
    real: REAL,
    stub: STUB,
    known: None,
};

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C02", seed);
    swarm_flags(&mut r, &mut c);
    let mut p = Profile::default();
    p.arena = *r.pick(&[2.5, 4.0, 6.0]);
    p.arms.push("refused");
    p.arms.push("keep");
    if thorough {
        p.ops = (30, 200);
        p.bodies = (3, 16);
    }
    p.w.push(("shift", 0.3));
    p.w.push(("hold", 0.5));
    let mut g = Gen::new(r, p);
    g.schedule(&mut c);
    c
}

struct M;

pub fn check_structure(sim: &Sim, ctx: &mut Ctx) -> Res {
    let w = sim.world.borrow();
    ctx.st.evals += 1;
    if w.is_locked() {
        return viol("locked-between-steps", "the world is locked between operations".into());
    }
    // Bodies.
    let mut seen = BTreeSet::new();
    let mut listed = 0usize;
    for b in w.get_body_list().iter() {
        listed += 1;
        if listed > sim.bodies.len() + 4 {
            return viol("body-list", format!("more than {} bodies reachable", sim.bodies.len()));
        }
        let id = bid(&b);
        match sim.body(id) {
            None => return viol("body-list", format!("body {id} is listed but was destroyed or never created")),
            Some(m) => {
                if !Rc::ptr_eq(&m.ptr, &b) {
                    return viol("body-list", format!("the listed body {id} is another object than the created one"));
                }
            }
        }
        if !seen.insert(id) {
            return viol("body-list", format!("body {id} is listed twice"));
        }
    }
    if listed != sim.bodies.len() || w.get_body_count() != sim.bodies.len() {
        return viol(
            "body-count",
            format!("{} bodies exist, {} listed, count {}", sim.bodies.len(), listed, w.get_body_count()),
        );
    }
    // Joints.
    let mut jseen = BTreeSet::new();
    let mut jlisted = 0usize;
    for j in w.get_joint_list().iter() {
        jlisted += 1;
        if jlisted > sim.joints.len() + 4 {
            return viol("joint-list", "more joints reachable than exist".into());
        }
        let (id, a, b) = {
            let j = j.borrow();
            let base = j.get_base();
            (base.get_user_data().map(|t| t.0).unwrap_or(0), bid(&base.get_body_a()), bid(&base.get_body_b()))
        };
        match sim.joint(id) {
            None => return viol("joint-list", format!("joint {id} is listed but was destroyed or never created")),
            Some(m) => {
                if !Rc::ptr_eq(&m.ptr, &j) {
                    return viol("joint-list", format!("the listed joint {id} is another object than the created one"));
                }
                if (m.a, m.b) != (a, b) {
                    return viol("joint-bodies", format!("joint {id} connects {a},{b} instead of {},{}", m.a, m.b));
                }
            }
        }
        if !jseen.insert(id) {
            return viol("joint-list", format!("joint {id} is listed twice"));
        }
    }
    if jlisted != sim.joints.len() || w.get_joint_count() != sim.joints.len() {
        return viol(
            "joint-count",
            format!("{} joints exist, {} listed, count {}", sim.joints.len(), jlisted, w.get_joint_count()),
        );
    }
    // Fixtures, joint edges, proxies.
    let mut proxies = 0usize;
    let mut owner: BTreeMap<u32, u32> = BTreeMap::new();
    for m in &sim.bodies {
        let b = m.ptr.borrow();
        if type_code(b.get_type()) != m.s.t || b.is_enabled() != m.s.enabled {
            return viol("body-flags", format!("body {} reports type/enabled {}/{}", m.id, type_code(b.get_type()), b.is_enabled()));
        }
        let mut fs = BTreeSet::new();
        let mut n = 0;
        for f in b.get_fixture_list().iter() {
            n += 1;
            if n > m.fix.len() + 4 {
                return viol("fixture-list", format!("body {} reaches more fixtures than it has", m.id));
            }
            let id = fid(&f);
            let mf = match m.fix.iter().find(|x| x.id == id) {
                None => return viol("fixture-list", format!("body {} lists fixture {id} that it does not own", m.id)),
                Some(x) => x,
            };
            if !Rc::ptr_eq(&mf.ptr, &f) {
                return viol("fixture-list", format!("fixture {id} is another object than the created one"));
            }
            if !fs.insert(id) {
                return viol("fixture-list", format!("fixture {id} is listed twice"));
            }
            if !Rc::ptr_eq(&f.borrow().get_body(), &m.ptr) {
                return viol("fixture-owner", format!("fixture {id} does not point back to body {}", m.id));
            }
            owner.insert(id, m.id);
        }
        if n != m.fix.len() {
            return viol("fixture-list", format!("body {} has {} fixtures, {} listed", m.id, m.fix.len(), n));
        }
        let edges = b.get_joint_list().iter().count();
        let want = sim.joints.iter().map(|j| (j.a == m.id) as usize + (j.b == m.id) as usize).sum::<usize>();
        if edges != want {
            return viol("joint-edges", format!("body {} lists {edges} joints, {want} are attached", m.id));
        }
        if m.s.enabled {
            proxies += m.fix.iter().map(|f| f.f.shape.children()).sum::<usize>();
        }
        ctx.st.evals += 1;
    }
    if w.get_proxy_count() as usize != proxies {
        return viol("proxy-count", format!("{} proxies reported, {} expected", w.get_proxy_count(), proxies));
    }
    // Every proxy is reachable through a query of the whole plane, once per child.
    let mut per: BTreeMap<u32, usize> = BTreeMap::new();
    let big = B2AABB { lower_bound: v2(-1e18, -1e18), upper_bound: v2(1e18, 1e18) };
    w.query_aabb(
        |f: FixturePtr<U>| {
            *per.entry(fid(&f)).or_insert(0) += 1;
            true
        },
        big,
    );
    for m in &sim.bodies {
        for f in &m.fix {
            let want = if m.s.enabled { f.f.shape.children() } else { 0 };
            let got = per.remove(&f.id).unwrap_or(0);
            if want != got {
                return viol("proxy-reach", format!("fixture {} answers {got} times in a full query instead of {want}", f.id));
            }
        }
    }
    if let Some((id, n)) = per.iter().next() {
        return viol("proxy-reach", format!("a full query returns fixture {id} {n} times though it does not exist"));
    }
    // Contacts and contact edges.
    let mut keys = BTreeSet::new();
    let mut ends: BTreeMap<u32, Vec<(Key, u32)>> = BTreeMap::new();
    let mut n = 0;
    for c in w.get_contact_list().iter() {
        n += 1;
        if n > 20000 {
            return viol("contact-list", "the contact list does not end".into());
        }
        let c = c.borrow();
        let c = c.get_base();
        let k = key_of(c);
        let (oa, ob) = (owner.get(&k.fa), owner.get(&k.fb));
        let (oa, ob) = match (oa, ob) {
            (Some(a), Some(b)) => (*a, *b),
            _ => return viol("contact-dead", format!("contact {k:?} involves a fixture that no longer exists")),
        };
        let (na, nb) = {
            let f = |id: u32| sim.body_of_fix(id).map(|x| x.1.f.shape.children() as i32).unwrap_or(0);
            (f(k.fa), f(k.fb))
        };
        if k.ca < 0 || k.ca >= na || k.cb < 0 || k.cb >= nb {
            return viol("contact-child", format!("contact {k:?} names a child that does not exist"));
        }
        if !keys.insert(k.norm()) {
            return viol("contact-twice", format!("two contacts for {k:?}"));
        }
        for b in [oa, ob] {
            if !sim.body(b).unwrap().s.enabled {
                return viol("contact-disabled-body", format!("contact {k:?} with disabled body {b}"));
            }
        }
        ends.entry(oa).or_default().push((k, ob));
        ends.entry(ob).or_default().push((k, oa));
    }
    if w.get_contact_count() != n {
        return viol("contact-count", format!("{n} contacts listed, count {}", w.get_contact_count()));
    }
    for m in &sim.bodies {
        let mut got: Vec<(Key, u32)> = vec![];
        let mut steps = 0;
        for e in m.ptr.borrow().get_contact_list().iter() {
            steps += 1;
            if steps > 20000 {
                return viol("contact-edges", format!("the contact list of body {} does not end", m.id));
            }
            let e = e.borrow();
            let (c, o) = match (e.contact.upgrade(), e.other.upgrade()) {
                (Some(c), Some(o)) => (c, o),
                _ => return viol("contact-edges", format!("body {} lists a contact that is gone", m.id)),
            };
            let k = key_of(c.borrow().get_base());
            got.push((k, bid(&o)));
        }
        let mut want = ends.remove(&m.id).unwrap_or_default();
        got.sort();
        want.sort();
        if got != want {
            return viol("contact-edges", format!("body {} lists contacts {got:?}, attached are {want:?}", m.id));
        }
    }
    ctx.st.evals += keys.len() as u64;
    ctx.max("contacts", keys.len() as f64);
    ctx.max("bodies", sim.bodies.len() as f64);
    ctx.max("joints", sim.joints.len() as f64);
    Ok(())
}

impl Monitor for M {
    fn before(&mut self, sim: &mut Sim, op: &Op, ctx: &mut Ctx) {
        if matches!(op, Op::DelBody { .. } | Op::DelFixture { .. } | Op::DelJoint { .. } | Op::Enable { .. } | Op::Type { .. })
            && (sim.world.borrow().get_contact_count() > 0 || !sim.joints.is_empty())
        {
            ctx.reached = true;
        }
    }
    fn after(&mut self, sim: &mut Sim, _op: &Op, _info: &Info, ctx: &mut Ctx) -> Res {
        check_structure(sim, ctx)
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    drive(case, ctx, &mut M)
}
