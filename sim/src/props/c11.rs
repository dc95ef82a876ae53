//! Failed saves and damaged snapshots are reported, never half-applied.

use super::*;
use crate::disk::*;
use crate::gen::*;
use crate::rng::{mix, Hash, Rng};
use crate::snap::*;
use crate::user::*;
use box2d_rs::b2_world::*;
// Keeps the order of the fields, unlike the JSON value.
use serde_yaml::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const PROP: Prop = Prop {
    id: "C11",
    gen,
    run,
    quick: 25000,
    thorough: 300_000,
    rule: "a run counts when a save failed part-way and a restore met a truncated, unreadable or damaged document, in a world with at least two fixtures and one joint",
    assumptions: &[
        "numbers inside a document are not altered (a changed number is another valid document or an invalid definition)",
        "a YAML document cut inside its last lines can still be complete; it must be rejected or give a well-formed world",
        "damage to binary documents is limited to truncation and failing reads",
    ],
    real: &["the whole box2d-rs crate including its serde code", "serde_json, serde_yaml and bincode"],
    stub: &["disk (two files in memory behind faulty writers and readers)", "profiling clock (simulated)", "listeners (scripted)"],
    known: None,
};

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C11", seed);
    swarm_flags(&mut r, &mut c);
    c.cfg.remove("custom_filter");
    let mut p = c10::profile(&mut r, thorough);
    p.bodies = (1, 5);
    p.ops = if thorough { (10, 60) } else { (5, 30) };
    let mut g = Gen::new(r.fork(), p);
    g.schedule(&mut c);
    let mut ops = vec![];
    for o in std::mem::take(&mut c.ops) {
        match o {
            Op::Save { fmt, .. } => {
                let (fault, at) = (*r.pick(&[0u8, 1, 1, 2, 3, 4]), r.u32());
                ops.push(Op::Save { fmt, file: r.below(2) as u8, fault, at });
                while r.chance(0.6) {
                    ops.push(Op::Restore { fmt: r.below(2) as u8, fault: r.below(7) as u8, at: r.u32(), v: r.u32() });
                }
            }
            Op::Crash { fmt } => {
                // The process dies in the middle of writing and starts again from what is on disk.
                ops.push(Op::Save { fmt, file: r.below(2) as u8, fault: 5, at: r.u32() });
                ops.push(Op::Crash { fmt: 0 });
            }
            o => ops.push(o),
        }
    }
    ops.push(Op::Save { fmt: r.u32() as u8, file: 1, fault: *r.pick(&[1, 2]), at: r.u32() });
    ops.push(Op::Save { fmt: r.u32() as u8, file: 0, fault: 0, at: 0 });
    for fault in 1..7 {
        ops.push(Op::Restore { fmt: 0, fault, at: r.u32(), v: r.u32() });
    }
    ops.push(Op::Restore { fmt: 1, fault: 0, at: 0, v: 0 });
    c.ops = ops;
    c
}

#[derive(Default)]
struct File {
    fmt: u8,
    bytes: Vec<u8>,
    /// Bytes of a complete document.
    full: usize,
    dump: Option<Dump>,
    /// Position in the history of saves; 0 when empty.
    at: u64,
    mouse: bool,
    ids: (Vec<u32>, Vec<u32>),
}

#[derive(Default)]
struct M {
    files: [File; 2],
    saves: u64,
    failed: bool,
    bad: bool,
}

fn digest(sim: &Sim) -> u64 {
    let mut h = Hash::default();
    sim.digest(&mut h);
    h.0
}

/// Every node of a document, as a path.
fn nodes(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(path.clone());
    match v {
        Value::Mapping(m) => {
            for (k, x) in m {
                path.push(k.as_str().unwrap_or("").to_string());
                nodes(x, path, out);
                path.pop();
            }
        }
        Value::Sequence(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                nodes(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, path: &[String]) -> &'a mut Value {
    let mut v = v;
    for k in path {
        v = match v {
            Value::Mapping(m) => m.get_mut(k.as_str()).unwrap(),
            Value::Sequence(a) => &mut a[k.parse::<usize>().unwrap()],
            _ => unreachable!(),
        };
    }
    v
}

/// Damage one place of the document; says what was done and whether it must be rejected.
fn damage(doc: &mut Value, at_: u32, v: u32) -> (String, bool) {
    let mut all = vec![];
    nodes(doc, &mut vec![], &mut all);
    let h = mix(at_ as u64 ^ (v as u64) << 32) as usize;
    let is_ref = |p: &[String]| p.last().map_or(false, |k| ["body_a", "body_b", "joint1", "joint2"].contains(&k.as_str()));
    let is_tag = |p: &[String]| p.last().map_or(false, |k| ["jtype", "m_shape_type"].contains(&k.as_str()));
    let mut pick = |f: &dyn Fn(&[String]) -> bool| -> Option<Vec<String>> {
        let c: Vec<&Vec<String>> = all.iter().filter(|p| f(p)).collect();
        if c.is_empty() {
            None
        } else {
            Some(c[h % c.len()].clone())
        }
    };
    match v % 7 {
        // Gears need bodies that move together; with gears another body is not a valid definition.
        6 if doc["m_gear_joints_list"].as_sequence().map_or(false, |g| g.is_empty()) => {
            if let Some(p) = pick(&|p| is_ref(p)) {
                let x = h / 7 % 6;
                *at(doc, &p) = (x as u64).into();
                return (format!("reference {} set to {x}", p.join("/")), false);
            }
        }
        0 => {
            if let Some(p) = pick(&|p| is_ref(p)) {
                let x = [-1i64, 1_000_000, i32::MAX as i64, i32::MIN as i64][h / 7 % 4];
                *at(doc, &p) = x.into();
                return (format!("reference {} set to {x}", p.join("/")), true);
            }
        }
        1 => {
            if let Some(p) = pick(&|p| is_tag(p)) {
                let x = ["EUnknown", "ETypeCount", ""][h / 7 % 3];
                *at(doc, &p) = x.into();
                return (format!("kind {} set to {x:?}", p.join("/")), true);
            }
        }
        2 => {
            let parts = ["m_gravity", "m_bodies_list", "m_joints_list", "m_gear_joints_list"];
            let k = parts[h % 4];
            doc.as_mapping_mut().unwrap().shift_remove(k);
            return (format!("part {k} removed"), true);
        }
        3 => {
            // A compound value replaced by one of another shape.
            if let Some(p) = pick(&|p| !p.is_empty()) {
                let n = at(doc, &p);
                if n.is_mapping() || n.is_sequence() {
                    *n = "damaged".into();
                    return (format!("{} replaced by a string", p.join("/")), true);
                }
            }
        }
        4 => {
            // A field removed somewhere inside.
            if let Some(p) = pick(&|p| p.len() > 1) {
                let (k, up) = p.split_last().unwrap();
                match at(doc, up) {
                    Value::Mapping(m) => {
                        m.shift_remove(k.as_str());
                    }
                    Value::Sequence(a) => {
                        a.remove(k.parse::<usize>().unwrap());
                    }
                    _ => {}
                }
                return (format!("{} removed", p.join("/")), false);
            }
        }
        _ => {
            if let Some(p) = pick(&|p| p.len() > 1) {
                *at(doc, &p) = Value::Null;
                return (format!("{} replaced by null", p.join("/")), false);
            }
        }
    }
    let p = ["m_bodies_list", "m_joints_list"][h % 2];
    doc[p] = 17.into();
    (format!("{p} replaced by a number"), true)
}

/// How many bodies, fixtures and joints a document lists, as far as it does.
fn listed(doc: &Value) -> [Option<usize>; 3] {
    let n = |v: &Value, k: &str| v.get(k).and_then(|l| l.as_sequence()).map(|l| l.len());
    let fx = doc.get("m_bodies_list").and_then(|l| l.as_sequence()).and_then(|l| l.iter().map(|b| n(b, "m_fixture_list")).sum());
    [n(doc, "m_bodies_list"), fx, n(doc, "m_joints_list").zip(n(doc, "m_gear_joints_list")).map(|(a, b)| a + b)]
}

/// A world out of a damaged document must still hang together.
fn well_formed(w: &B2worldPtr<U>, what: &str) -> Res {
    let (nb, nj, bodies, joints) = {
        let w = w.borrow();
        (w.get_body_count(), w.get_joint_count(), w.get_body_list().iter().collect::<Vec<_>>(), w.get_joint_list().iter().collect::<Vec<_>>())
    };
    if nb as usize != bodies.len() || nj as usize != joints.len() {
        return viol("ill-formed", format!("{what}: the world counts {nb} bodies and {nj} joints but lists {} and {}", bodies.len(), joints.len()));
    }
    for b in &bodies {
        for f in b.borrow().get_fixture_list().iter() {
            if !std::rc::Rc::ptr_eq(&f.borrow().get_body(), b) {
                return viol("ill-formed", format!("{what}: a fixture belongs to another body than the one that lists it"));
            }
        }
    }
    for j in &joints {
        let j = j.borrow();
        for b in [j.get_base().get_body_a(), j.get_base().get_body_b()] {
            if !bodies.iter().any(|x| std::rc::Rc::ptr_eq(x, &b)) {
                return viol("ill-formed", format!("{what}: a joint is attached to a body that is not in the world"));
            }
        }
    }
    match catch_unwind(AssertUnwindSafe(|| {
        for _ in 0..2 {
            w.borrow_mut().step(1.0 / 60.0, 4, 2);
        }
    })) {
        Ok(()) => Ok(()),
        Err(_) => viol("ill-formed", format!("{what}: the world that was restored cannot be stepped: {}", crate::runner::last_panic())),
    }
}

impl M {
    fn save(&mut self, sim: &mut Sim, fmt: u8, file: u8, fault: u8, k: u32, ctx: &mut Ctx) -> Res {
        let fmt = fmt % 3;
        let name = FORMATS[fmt as usize];
        let whole = match save(&sim.world, fmt) {
            Ok(d) => d,
            Err(e) => return viol("save-failed", format!("saving as {name} to sound storage failed: {e}")),
        };
        let (a, h, cd) = (dump(&sim.world), digest(sim), contacts_dump(sim));
        let k = k as usize % whole.len();
        let mut out = vec![];
        let mut wr = FaultyWriter { out: &mut out, fault, at: k, n: 0, fired: false };
        let res = match catch_unwind(AssertUnwindSafe(|| save_to(&sim.world, fmt, &mut wr))) {
            Ok(r) => r,
            Err(_) => return viol("save-panicked", format!("saving as {name} panicked instead of returning an error (fault {fault} at byte {k})")),
        };
        let fired = wr.fired;
        ctx.st.evals += 3;
        let kind = ["none", "write_error", "disk_full", "interrupted_write", "short_write", "crash_while_writing"][fault as usize];
        if fired {
            ctx.fault(kind);
        }
        match (fault, &res) {
            (1 | 2 | 5, Ok(())) => {
                return viol("save-error-lost", format!("the storage failed after {k} of {} bytes ({kind}), but saving as {name} returned success", whole.len()));
            }
            (0 | 3 | 4, Err(e)) => return viol("save-failed", format!("saving as {name} failed although the storage only had {kind}: {e}")),
            _ => {}
        }
        if res.is_ok() && out != whole {
            return viol("save-wrote-other", format!("saving as {name} with {kind} wrote {} bytes other than the {} of the document", out.len(), whole.len()));
        }
        if !whole.starts_with(&out) {
            return viol("save-wrote-other", format!("a failed save as {name} left {} bytes that are no prefix of the document", out.len()));
        }
        if diff(&a, &dump(&sim.world), true).is_some() || h != digest(sim) || cd != contacts_dump(sim) {
            return viol("save-changed-world", format!("a save as {name} with {kind} at byte {k} changed the world"));
        }
        if res.is_err() {
            self.failed = true;
        }
        self.saves += 1;
        let f = &mut self.files[file as usize % 2];
        *f = File {
            fmt,
            full: whole.len(),
            bytes: out,
            at: self.saves,
            mouse: sim.joints.iter().any(|j| j.s.k == JK::Mouse),
            dump: if res.is_ok() { Some(a) } else { None },
            ids: (sim.bodies.iter().map(|b| b.id).collect(), sim.joints.iter().map(|j| j.id).collect()),
        };
        Ok(())
    }

    /// Try to read a file the way a program does after a start.
    fn restore(&mut self, sim: &Sim, file: u8, fault: u8, k: u32, v: u32, ctx: &mut Ctx) -> Res {
        let f = &self.files[file as usize % 2];
        if f.at == 0 || f.bytes.is_empty() {
            return Ok(());
        }
        let name = FORMATS[f.fmt as usize];
        let cut = k as usize % f.bytes.len();
        let complete = f.dump.is_some();
        let before: Vec<i64> = f.ids.0.iter().chain(&f.ids.1).map(|i| live(*i)).collect();
        let (mut what, mut must_fail, mut fired) = (String::new(), false, true);
        let mut want = [None; 3];
        let res = if fault >= 5 && f.fmt < 2 && complete {
            let mut doc: Value = if f.fmt == 0 { serde_json::from_slice(&f.bytes).unwrap() } else { serde_yaml::from_slice(&f.bytes).unwrap() };
            let (w, m) = damage(&mut doc, k, v);
            what = w;
            must_fail = m;
            want = listed(&doc);
            let b = if f.fmt == 0 { serde_json::to_vec(&doc).unwrap() } else { serde_yaml::to_string(&doc).unwrap().into_bytes() };
            ctx.fault(if m { "damaged_document" } else { "document_with_missing_or_null_field" });
            catch_unwind(AssertUnwindSafe(|| load(f.fmt, &b)))
        } else {
            let fault = fault % 5;
            let mut r = FaultyReader { src: &f.bytes, pos: 0, fault, at: cut, n: 0, fired: false };
            let x = catch_unwind(AssertUnwindSafe(|| load_from(f.fmt, &mut r)));
            fired = r.fired;
            match fault {
                1 | 2 => {
                    what = format!("{} after {cut} of {} bytes", if fault == 1 { "end of file" } else { "read error" }, f.full);
                    must_fail = f.fmt != 1 || fault == 2;
                    if fired {
                        ctx.fault(if fault == 1 { "truncated_snapshot" } else { "read_error" });
                    }
                }
                _ => {
                    if !complete {
                        what = format!("torn write, {} of {} bytes on disk", f.bytes.len(), f.full);
                        must_fail = f.fmt != 1;
                        ctx.fault("torn_snapshot_read");
                    } else if fault > 0 && fired {
                        ctx.fault(if fault == 3 { "interrupted_read" } else { "short_read" });
                    }
                }
            }
            x
        };
        ctx.st.evals += 1;
        let _ = fired;
        match res {
            Err(_) => return viol("restore-panicked", format!("restoring a {name} snapshot panicked: {what}: {}", crate::runner::last_panic())),
            Ok(Ok(w)) => {
                if must_fail {
                    return viol("damage-accepted", format!("a {name} snapshot was restored without an error although: {what}"));
                }
                if what.is_empty() {
                    if let Some(d) = diff(f.dump.as_ref().unwrap(), &dump(&w), false) {
                        return viol("restored-differs", format!("after restoring a {name} snapshot: {d}"));
                    }
                    ctx.probe("restored from a complete snapshot");
                } else {
                    ctx.probe("damaged snapshot gave a world");
                }
                {
                    let w = w.borrow();
                    let fx = w.get_body_list().iter().map(|b| b.borrow().get_fixture_list().iter().count()).sum::<usize>();
                    let got = [w.get_body_count() as usize, fx, w.get_joint_count() as usize];
                    for (i, n) in ["bodies", "fixtures", "joints"].iter().enumerate() {
                        if want[i].map_or(false, |x| x != got[i]) {
                            return viol("silently-lost", format!("{what}: the {name} document lists {} {n}, the world restored without an error has {}", want[i].unwrap(), got[i]));
                        }
                    }
                }
                well_formed(&w, &what)?;
            }
            Ok(Err(e)) => {
                if what.is_empty() {
                    return viol("restore-failed", format!("a complete {name} snapshot could not be restored: {e}"));
                }
                ctx.probe("damaged snapshot was rejected");
                self.bad = true;
            }
        }
        for (i, n) in f.ids.0.iter().chain(&f.ids.1).zip(&before) {
            if live(*i) != *n {
                return viol("half-applied", format!("after a restore from {name} ({what}) was dropped, {} more copies of the user data of object {i} live on", live(*i) - n));
            }
        }
        let fx: usize = sim.bodies.iter().map(|b| b.fix.len()).sum();
        if self.failed && self.bad && fx >= 2 && sim.joints.iter().any(|j| j.s.k != JK::Mouse) {
            ctx.reached = true;
        }
        Ok(())
    }
}

impl Monitor for M {
    fn after(&mut self, sim: &mut Sim, op: &Op, _info: &Info, ctx: &mut Ctx) -> Res {
        match *op {
            Op::Save { fmt, file, fault, at } => self.save(sim, fmt, file, fault, at, ctx),
            Op::Restore { fmt, fault, at, v } => self.restore(sim, fmt, fault, at, v, ctx),
            Op::Crash { .. } => {
                ctx.fault("crash_and_restart_from_disk");
                // Every file is tried; what is complete restores, what is torn is rejected.
                self.restore(sim, 0, 0, 0, 0, ctx)?;
                self.restore(sim, 1, 0, 0, 0, ctx)?;
                let ids = (sim.bodies.iter().map(|b| b.id).collect::<Vec<_>>(), sim.joints.iter().map(|j| j.id).collect::<Vec<_>>());
                // The history continues from the newest complete snapshot when it has the objects
                // the schedule knows about; otherwise the old process is taken to live on.
                let best = self.files.iter().filter(|f| f.dump.is_some()).max_by_key(|f| f.at);
                if let Some(f) = best {
                    if f.ids == ids && fixtures_match(sim, f) {
                        match load(f.fmt, &f.bytes) {
                            Ok(w) => {
                                sim.adopt(w);
                                ctx.probe("history continued from disk");
                                return c02::check_structure(sim, ctx);
                            }
                            Err(e) => return viol("restore-failed", format!("the last complete snapshot could not be restored: {e}")),
                        }
                    }
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }
}

/// The snapshot has exactly the objects and settings the harness has on record.
fn fixtures_match(sim: &Sim, f: &File) -> bool {
    let now = dump(&sim.world);
    let then = f.dump.as_ref().unwrap();
    let moving = |k: &str| [".position", ".angle", ".cos", ".sin", ".velocity", ".spin", ".centre", ".awake", ".anchor"].iter().any(|m| k.contains(m));
    now.len() == then.len() && now.iter().all(|(k, v)| moving(k) || then.get(k) == Some(v)) && !f.mouse
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    drive(case, ctx, &mut M::default())
}
