//! A case is one exactly repeatable execution: numeric knobs plus the schedule of operations and
//! faults.  Operations name entities by index modulo the live count, so any sub-list of a
//! schedule is itself a valid schedule; that is what the minimiser relies on.

use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub cfg: BTreeMap<String, f64>,
    pub ops: Vec<Op>,
}

impl Case {
    pub fn new(prop: &str, seed: u64) -> Case {
        Case { prop: prop.to_string(), seed, cfg: BTreeMap::new(), ops: vec![] }
    }
    pub fn get(&self, k: &str) -> f64 {
        *self.cfg.get(k).unwrap_or(&0.0)
    }
    pub fn on(&self, k: &str) -> bool {
        self.get(k) != 0.0
    }
    pub fn u(&self, k: &str) -> usize {
        self.get(k) as usize
    }
    pub fn set(&mut self, k: &str, v: f64) {
        self.cfg.insert(k.to_string(), v);
    }
}

pub type P = (f32, f32);

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Shape {
    Circle { r: f32, x: f32, y: f32 },
    Box { hx: f32, hy: f32, x: f32, y: f32, a: f32 },
    Poly { pts: Vec<P> },
    Edge { a: P, b: P },
    Edge1 { v: [P; 4] },
    Chain { pts: Vec<P>, prev: P, next: P },
    Loop { pts: Vec<P> },
}

impl Shape {
    pub fn children(&self) -> usize {
        match self {
            Shape::Chain { pts, .. } => pts.len() - 1,
            Shape::Loop { pts } => pts.len(),
            _ => 1,
        }
    }
    pub fn has_area(&self) -> bool {
        matches!(self, Shape::Circle { .. } | Shape::Box { .. } | Shape::Poly { .. })
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Fix {
    pub shape: Shape,
    pub d: f32,
    pub mu: f32,
    pub e: f32,
    pub th: f32,
    pub sensor: bool,
    pub cat: u16,
    pub mask: u16,
    pub group: i16,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct BodySpec {
    /// 0 static, 1 kinematic, 2 dynamic
    pub t: u8,
    pub x: f32,
    pub y: f32,
    pub a: f32,
    pub vx: f32,
    pub vy: f32,
    pub w: f32,
    pub ld: f32,
    pub ad: f32,
    pub gs: f32,
    pub bullet: bool,
    pub fixed: bool,
    pub sleep: bool,
    pub awake: bool,
    pub enabled: bool,
    pub fix: Vec<Fix>,
}

impl Default for BodySpec {
    fn default() -> Self {
        BodySpec {
            t: 2,
            x: 0.0,
            y: 0.0,
            a: 0.0,
            vx: 0.0,
            vy: 0.0,
            w: 0.0,
            ld: 0.0,
            ad: 0.0,
            gs: 1.0,
            bullet: false,
            fixed: false,
            sleep: true,
            awake: true,
            enabled: true,
            fix: vec![],
        }
    }
}

impl Fix {
    pub fn of(shape: Shape) -> Fix {
        Fix { shape, d: 1.0, mu: 0.2, e: 0.0, th: 1.0, sensor: false, cat: 1, mask: 0xffff, group: 0 }
    }
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum JK {
    Distance,
    Friction,
    Gear,
    Mouse,
    Motor,
    Pulley,
    Revolute,
    Prismatic,
    Weld,
    Wheel,
}

pub const ALL_JK: [JK; 10] = [
    JK::Distance,
    JK::Friction,
    JK::Gear,
    JK::Mouse,
    JK::Motor,
    JK::Pulley,
    JK::Revolute,
    JK::Prismatic,
    JK::Weld,
    JK::Wheel,
];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct JointSpec {
    pub k: JK,
    /// Body indices (joint indices for gears).
    pub a: u32,
    pub b: u32,
    /// Anchor, relative to the first body's position.
    pub x: f32,
    pub y: f32,
    /// Axis / second direction angle.
    pub ang: f32,
    pub p: [f32; 4],
    pub limit: bool,
    pub motor: bool,
    pub collide: bool,
}

/// What a listener does from inside a callback.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Act {
    /// Turn the contact off for this step (pre-solve only).
    Disable,
    Friction(f32),
    Restitution(f32),
    Tangent(f32),
    Threshold(f32),
    ResetMix,
    /// Set the velocity of both bodies.
    Kick(f32, f32, f32),
    Force(f32, f32),
    Impulse(f32, f32),
    /// Read everything reachable.
    ReadAll,
    /// A structural call that must be refused.
    Refused(u8),
    /// Jump of the simulated clock while the callback runs (stall or step back).
    Clock(i64),
    /// Keep or drop handles.
    KeepHandles,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev {
    Begin,
    End,
    Pre,
    Post,
    Filter,
    Goodbye,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Body(BodySpec),
    Fixture { b: u32, f: Fix },
    DelFixture { b: u32, f: u32 },
    DelBody { b: u32 },
    Joint(JointSpec),
    DelJoint { j: u32 },
    JointSet { j: u32, w: u8, v: f32, v2: f32 },
    Step { dt: f32, vi: u8, pi: u8 },
    Transform { b: u32, x: f32, y: f32, a: f32 },
    Vel { b: u32, x: f32, y: f32, w: f32 },
    /// Force at an offset from the centre; `k`: 0 point, 1 centre, 2 torque.
    Force { b: u32, k: u8, x: f32, y: f32, ox: f32, oy: f32, wake: bool },
    Impulse { b: u32, k: u8, x: f32, y: f32, ox: f32, oy: f32, wake: bool },
    Type { b: u32, t: u8 },
    Enable { b: u32, on: bool },
    Awake { b: u32, on: bool },
    FixedRot { b: u32, on: bool },
    Bullet { b: u32, on: bool },
    SleepOk { b: u32, on: bool },
    Damp { b: u32, l: f32, a: f32 },
    GScale { b: u32, v: f32 },
    Filter { b: u32, f: u32, cat: u16, mask: u16, group: i16 },
    Sensor { b: u32, f: u32, on: bool },
    Surface { b: u32, f: u32, mu: f32, e: f32 },
    Density { b: u32, f: u32, d: f32 },
    MassData { b: u32, m: f32, x: f32, y: f32, i: f32 },
    ResetMass { b: u32 },
    Flag { w: u8, on: bool },
    Gravity { x: f32, y: f32 },
    ClearForces,
    Query { x: f32, y: f32, hx: f32, hy: f32, stop: u32 },
    Ray { x1: f32, y1: f32, x2: f32, y2: f32, proto: u64 },
    Point { b: u32, x: f32, y: f32 },
    Shift { x: f32, y: f32 },
    Draw { flags: u8 },
    Stats { k: u8 },
    /// Arm a listener rule: on every `every`-th event of kind `ev` (offset `off`), do `act`.
    Arm { ev: Ev, every: u32, off: u32, act: Act },
    Disarm,
    /// Swap the answers of the custom contact filter, re-filtering every fixture.
    FilterRule { salt: u32 },
    /// Save to a simulated file and continue from the restored world. fmt: 0 json 1 yaml 2 bincode.
    Save { fmt: u8, file: u8, fault: u8, at: u32 },
    /// Kill the process: the in-memory world is lost, the last good snapshot is restored.
    Crash { fmt: u8 },
    Restore { fmt: u8, fault: u8, at: u32, v: u32 },
    ClockJump { ns: i64 },
    /// Re-build the world from scratch (drop everything).
    DropWorld { keep: bool },
    Hold { on: bool },
    /// Continue with another world.
    Switch { w: u32 },
    Nop,
    // -- stand-alone spatial index
    TCreate { x: f32, y: f32, hx: f32, hy: f32 },
    TDestroy { i: u32 },
    TMove { i: u32, x: f32, y: f32, hx: f32, hy: f32, dx: f32, dy: f32 },
    TTouch { i: u32 },
    TQuery { x: f32, y: f32, hx: f32, hy: f32, stop: u32 },
    TRay { x1: f32, y1: f32, x2: f32, y2: f32, proto: u64 },
    TPairs,
    TRebuild,
    TShift { x: f32, y: f32 },
    // -- rope
    RStep { dt: f32, it: u8, x: f32, y: f32 },
    RReset { x: f32, y: f32 },
    RTune { seed: u64 },
    RCreate { seed: u64 },
}

impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Body(_) => "body",
            Op::Fixture { .. } => "fixture",
            Op::DelFixture { .. } => "del_fixture",
            Op::DelBody { .. } => "del_body",
            Op::Joint(_) => "joint",
            Op::DelJoint { .. } => "del_joint",
            Op::JointSet { .. } => "joint_set",
            Op::Step { .. } => "step",
            Op::Transform { .. } => "transform",
            Op::Vel { .. } => "vel",
            Op::Force { .. } => "force",
            Op::Impulse { .. } => "impulse",
            Op::Type { .. } => "type",
            Op::Enable { .. } => "enable",
            Op::Awake { .. } => "awake",
            Op::FixedRot { .. } => "fixed_rot",
            Op::Bullet { .. } => "bullet",
            Op::SleepOk { .. } => "sleep_ok",
            Op::Damp { .. } => "damp",
            Op::GScale { .. } => "gscale",
            Op::Filter { .. } => "filter",
            Op::Sensor { .. } => "sensor",
            Op::Surface { .. } => "surface",
            Op::Density { .. } => "density",
            Op::MassData { .. } => "mass_data",
            Op::ResetMass { .. } => "reset_mass",
            Op::Flag { .. } => "flag",
            Op::Gravity { .. } => "gravity",
            Op::ClearForces => "clear_forces",
            Op::Query { .. } => "query",
            Op::Ray { .. } => "ray",
            Op::Point { .. } => "point",
            Op::Shift { .. } => "shift",
            Op::Draw { .. } => "draw",
            Op::Stats { .. } => "stats",
            Op::Arm { .. } => "arm",
            Op::Disarm => "disarm",
            Op::FilterRule { .. } => "filter_rule",
            Op::Save { .. } => "save",
            Op::Crash { .. } => "crash",
            Op::Restore { .. } => "restore",
            Op::ClockJump { .. } => "clock_jump",
            Op::DropWorld { .. } => "drop_world",
            Op::Hold { .. } => "hold",
            Op::Switch { .. } => "switch",
            Op::Nop => "nop",
            Op::TCreate { .. } => "t_create",
            Op::TDestroy { .. } => "t_destroy",
            Op::TMove { .. } => "t_move",
            Op::TTouch { .. } => "t_touch",
            Op::TQuery { .. } => "t_query",
            Op::TRay { .. } => "t_ray",
            Op::TPairs => "t_pairs",
            Op::TRebuild => "t_rebuild",
            Op::TShift { .. } => "t_shift",
            Op::RStep { .. } => "r_step",
            Op::RReset { .. } => "r_reset",
            Op::RTune { .. } => "r_tune",
            Op::RCreate { .. } => "r_create",
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Violation {
    pub kind: String,
    pub detail: String,
    pub at: usize,
}

pub type Res = Result<(), Violation>;

pub fn viol<T>(kind: &str, detail: String) -> Result<T, Violation> {
    Err(Violation { kind: kind.to_string(), detail, at: 0 })
}

/// What one run (or, merged, one worker) measured.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Stats {
    pub runs: u64,
    pub ops: u64,
    pub steps: u64,
    pub sim_s: f64,
    /// Individual oracle decisions.
    pub evals: u64,
    pub nontrivial: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub op_kinds: BTreeMap<String, u64>,
    pub sigs: BTreeSet<u64>,
    pub maxima: BTreeMap<String, f64>,
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.ops += o.ops;
        self.steps += o.steps;
        self.sim_s += o.sim_s;
        self.evals += o.evals;
        self.nontrivial += o.nontrivial;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.op_kinds {
            *self.op_kinds.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_insert(f64::MIN);
            if v > *e {
                *e = v
            }
        }
        self.sigs.extend(o.sigs);
    }
}

/// Per-run context: counters plus the run's signature.
pub struct Ctx {
    pub st: Stats,
    pub sig: crate::rng::Hash,
    /// Digest of every observed state; equal digests = equal executions.
    pub digest: crate::rng::Hash,
    /// Set when the run exercised what the property is about.
    pub reached: bool,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { st: Stats::default(), sig: Default::default(), digest: Default::default(), reached: false }
    }
    pub fn fault(&mut self, k: &str) {
        *self.st.faults.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn probe(&mut self, k: &str) {
        *self.st.probes.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn probe_n(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.st.probes.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.st.maxima.entry(k.to_string()).or_insert(f64::MIN);
        if v > *e {
            *e = v
        }
    }
}
