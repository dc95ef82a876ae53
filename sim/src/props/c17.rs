//! The tree and the pair finder behave like a plain set of boxes.

use super::*;
use crate::rng::Rng;
use box2d_rs::b2_broad_phase::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_dynamic_tree::*;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C17",
    gen,
    run,
    quick: 24000,
    thorough: 2_000_000,
    rule: "a run counts when entries were removed and inserted again, a query reported a proper subset of the entries and (pair finder) pairs were reported",
    assumptions: &[
        "boxes are finite and not inverted",
        "the height bound is not judged after a bottom-up rebuild, which gives no balance guarantee",
        "ray hits on boxes within 1 mm of the ray's path or end are not judged",
    ],
    real: &["the dynamic tree and the broad phase, stand-alone"],
    stub: &["callers of the index (queries, rays, pair callbacks)"],
    known: None,
};

pub fn gen(seed: u64, thorough: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut c = Case::new("C17", seed);
    if r.chance(0.4) {
        c.set("tree", 1.0);
    }
    let n = match r.below(6) {
        0 => r.int(5, 20),
        1..=3 => r.int(20, 120),
        _ => r.int(120, if thorough { 800 } else { 400 }),
    };
    let arena = *r.pick(&[2.0f32, 6.0, 20.0, 100.0]);
    let size = *r.pick(&[0.05f32, 0.5, 2.0]);
    let sorted = r.chance(0.25);
    let grid = r.chance(0.2);
    let dup = r.chance(0.15);
    let fill = r.int(0, n / 2);
    let wt: Vec<f64> = [8.0, 6.0, 10.0, 2.0, 5.0, 4.0, 4.0, 0.5, 0.5]
        .iter()
        .map(|w| match r.below(4) {
            0 => w * 0.1,
            1 => w * 3.0,
            _ => *w,
        })
        .collect();
    for i in 0..n {
        let k = if i < fill { 0 } else { r.weighted(&wt) };
        let (mut x, mut y) = (r.f(-arena, arena), r.f(-arena, arena));
        let (mut hx, mut hy) = (r.logf(0.01, 1.0) * size, r.logf(0.01, 1.0) * size);
        if sorted && k == 0 {
            x = i as f32 * size;
            y = 0.0;
        }
        if grid {
            x = x.round();
            y = y.round();
            hx = *r.pick(&[0.0, 0.4, 0.5, 0.9]);
            hy = hx;
        }
        if dup && r.chance(0.5) {
            x = 1.0;
            y = 1.0;
            hx = 0.5;
            hy = 0.5;
        }
        let e = r.u32() % 4096;
        let o = match k {
            0 => Op::TCreate { x, y, hx, hy },
            1 => Op::TDestroy { i: e },
            2 => {
                let (dx, dy) = match r.below(4) {
                    0 => (0.0, 0.0),
                    1 => (r.f(-0.05, 0.05), r.f(-0.05, 0.05)),
                    2 => (r.f(-1.0, 1.0), r.f(-1.0, 1.0)),
                    _ => (r.f(-8.0, 8.0), r.f(-8.0, 8.0)),
                };
                // A move by exactly the displacement most of the time.
                if r.chance(0.7) {
                    Op::TMove { i: e, x: f32::NAN, y: 0.0, hx, hy, dx, dy }
                } else {
                    Op::TMove { i: e, x, y, hx, hy, dx, dy }
                }
            }
            3 => Op::TTouch { i: e },
            4 => {
                let s = *r.pick(&[0.1f32, 0.5, 1.0]);
                let f = |r: &mut Rng| r.logf(0.01, 1.0) * arena * s;
                Op::TQuery { x, y, hx: f(&mut r), hy: f(&mut r), stop: if r.chance(0.6) { 0 } else { 1 + r.u32() % 5 } }
            }
            5 => {
                let (x2, y2) = match r.below(4) {
                    0 => (x, r.f(-arena, arena) + 0.013),
                    1 => (r.f(-arena, arena) + 0.013, y),
                    _ => (r.f(-arena, arena) + 0.013, r.f(-arena, arena)),
                };
                Op::TRay { x1: x, y1: y, x2, y2, proto: r.u64() >> 12 }
            }
            6 => Op::TPairs,
            7 => Op::TRebuild,
            _ => Op::TShift { x: r.f(-50.0, 50.0), y: r.f(-50.0, 50.0) },
        };
        // NaN cannot be stored in a replay file: a relative move is marked by a huge x instead.
        let o = match o {
            Op::TMove { i, x, y, hx, hy, dx, dy } if x.is_nan() => Op::TMove { i, x: 1e30, y, hx, hy, dx, dy },
            o => o,
        };
        c.ops.push(o);
    }
    c
}

enum Idx {
    Tree(B2dynamicTree<i32>),
    Bp(B2broadPhase<i32>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Bx {
    lo: (f32, f32),
    hi: (f32, f32),
}

impl Bx {
    fn of(a: &B2AABB) -> Bx {
        Bx { lo: (a.lower_bound.x, a.lower_bound.y), hi: (a.upper_bound.x, a.upper_bound.y) }
    }
    fn aabb(&self) -> B2AABB {
        B2AABB { lower_bound: v2(self.lo.0, self.lo.1), upper_bound: v2(self.hi.0, self.hi.1) }
    }
    fn overlaps(&self, o: &Bx) -> bool {
        self.lo.0 <= o.hi.0 && self.lo.1 <= o.hi.1 && o.lo.0 <= self.hi.0 && o.lo.1 <= self.hi.1
    }
    fn contains(&self, o: &Bx) -> bool {
        self.lo.0 <= o.lo.0 && self.lo.1 <= o.lo.1 && o.hi.0 <= self.hi.0 && o.hi.1 <= self.hi.1
    }
}

struct Ent {
    id: i32,
    data: i32,
    tight: Bx,
    fat: Bx,
    /// Changes since the last pair update: insertions/moves and touches.
    moves: u32,
    touches: u32,
}

struct M {
    ix: Idx,
    ents: Vec<Ent>,
    next: i32,
    removed: bool,
    rebuilt: bool,
    reused: bool,
    subset: bool,
    pairs: u64,
    used: std::collections::BTreeSet<i32>,
}

struct Pairs(Vec<(Option<i32>, Option<i32>)>);
impl AddPairTrait<i32> for Pairs {
    fn add_pair(&mut self, a: Option<i32>, b: Option<i32>) {
        self.0.push((a, b));
    }
}

/// Fractions at which the ray passes through the box grown by `g`, or None.
fn clip(b: &Bx, p: (f64, f64), d: (f64, f64), g: f64) -> Option<(f64, f64)> {
    let (mut lo, mut hi) = (0.0f64, 1.0f64);
    for (p, d, l, h) in [(p.0, d.0, b.lo.0 as f64 - g, b.hi.0 as f64 + g), (p.1, d.1, b.lo.1 as f64 - g, b.hi.1 as f64 + g)] {
        if l > h {
            return None;
        }
        if d == 0.0 {
            if p < l || p > h {
                return None;
            }
        } else {
            let (a, b) = ((l - p) / d, (h - p) / d);
            lo = lo.max(a.min(b));
            hi = hi.min(a.max(b));
        }
    }
    if lo <= hi {
        Some((lo, hi))
    } else {
        None
    }
}

impl M {
    fn fat(&self, id: i32) -> Bx {
        Bx::of(&match &self.ix {
            Idx::Tree(t) => t.get_fat_aabb(id),
            Idx::Bp(b) => b.get_fat_aabb(id),
        })
    }
    fn data(&self, id: i32) -> Option<i32> {
        match &self.ix {
            Idx::Tree(t) => t.get_user_data(id),
            Idx::Bp(b) => b.get_user_data(id),
        }
    }
    fn by_id(&self, id: i32) -> Option<&Ent> {
        self.ents.iter().find(|e| e.id == id)
    }

    fn all(&self, ctx: &mut Ctx) -> Res {
        for e in &self.ents {
            ctx.st.evals += 1;
            if self.data(e.id) != Some(e.data) {
                return viol("data-lost", format!("entry {} carries {:?} instead of {}", e.id, self.data(e.id), e.data));
            }
            let f = self.fat(e.id);
            if f != e.fat {
                return viol("box-changed", format!("the stored box of an untouched entry {} changed from {:?} to {f:?}", e.id, e.fat));
            }
            if let Idx::Tree(t) = &self.ix {
                if t.was_moved(e.id) != (e.moves > 0) {
                    return viol("moved-flag", format!("entry {}: moved flag is {}, {} moves since it was cleared", e.id, t.was_moved(e.id), e.moves));
                }
            }
        }
        match &self.ix {
            Idx::Tree(t) => t.validate(),
            Idx::Bp(b) => {
                if b.get_proxy_count() as usize != self.ents.len() {
                    return viol("proxy-count", format!("{} proxies counted, {} exist", b.get_proxy_count(), self.ents.len()));
                }
            }
        }
        let h = match &self.ix {
            Idx::Tree(t) => t.get_height(),
            Idx::Bp(b) => b.get_tree_height(),
        };
        let n = self.ents.len();
        if n == 0 && h != 0 {
            return viol("height-of-empty", format!("an empty index has height {h}"));
        }
        if n > 0 && (h as f64) < (n as f64).log2() - 1e-9 {
            return viol("height-too-small", format!("{n} entries do not fit in a tree of height {h}"));
        }
        if !self.rebuilt && n > 0 {
            let lim = 2.0 * (n as f64 + 1.0).log2() + 2.0;
            ctx.max("height over log2(n+1)", h as f64 / (n as f64 + 1.0).log2());
            if h as f64 > lim {
                return viol("not-balanced", format!("{n} entries in a tree of height {h}"));
            }
        }
        Ok(())
    }

    fn query(&mut self, q: &Bx, stop: u32, ctx: &mut Ctx) -> Res {
        let stop_at = if stop == 0 { usize::MAX } else { stop as usize };
        let mut got: Vec<i32> = vec![];
        let mut late = false;
        {
            let cb = |id: i32| {
                if got.len() >= stop_at {
                    late = true;
                }
                got.push(id);
                got.len() < stop_at
            };
            match &self.ix {
                Idx::Tree(t) => t.query(cb, q.aabb()),
                Idx::Bp(b) => b.query(cb, q.aabb()),
            }
        }
        ctx.st.evals += self.ents.len() as u64;
        if late {
            return viol("query-not-stopped", format!("the query went on after being told to stop at {stop}"));
        }
        if stop > 0 {
            ctx.fault("query_stopped_early");
        }
        let want: Vec<i32> = self.ents.iter().filter(|e| e.fat.overlaps(q)).map(|e| e.id).collect();
        let mut seen = std::collections::BTreeSet::new();
        for id in &got {
            if !want.contains(id) {
                return viol("query-extra", format!("query reports {id}, which does not overlap or is not live"));
            }
            if !seen.insert(*id) {
                return viol("query-twice", format!("query reports {id} twice"));
            }
        }
        if got.len() != want.len().min(stop_at) {
            return viol("query-missing", format!("query reports {} of {} overlapping entries (stop {stop})", got.len(), want.len()));
        }
        if !want.is_empty() && want.len() < self.ents.len() {
            self.subset = true;
        }
        Ok(())
    }

    fn ray(&mut self, p1: (f32, f32), p2: (f32, f32), proto: u64, ctx: &mut Ctx) -> Res {
        let input = B2rayCastInput { p1: v2(p1.0, p1.1), p2: v2(p2.0, p2.1), max_fraction: 1.0 };
        let mut calls: Vec<(i32, f32)> = vec![];
        let mut cur = 1.0f32;
        let mut stopped = false;
        let mut bad: Option<String> = None;
        {
            let cb = |si: &B2rayCastInput, id: i32| -> f32 {
                if stopped {
                    bad = Some("the ray went on after being stopped".into());
                }
                if si.max_fraction != cur {
                    bad = Some(format!("the ray was clipped to {cur} but continues with {}", si.max_fraction));
                }
                if (si.p1.x, si.p1.y, si.p2.x, si.p2.y) != (p1.0, p1.1, p2.0, p2.1) {
                    bad = Some("the ray handed to the callback is not the one cast".into());
                }
                calls.push((id, cur));
                let h = crate::rng::mix(proto ^ (id as u64) << 20) % 16;
                match if proto % 3 == 0 { 0 } else { h } {
                    0..=7 => si.max_fraction,
                    8..=11 => -1.0,
                    12..=14 => {
                        cur *= 0.8;
                        cur
                    }
                    _ => {
                        stopped = true;
                        0.0
                    }
                }
            };
            match &self.ix {
                Idx::Tree(t) => t.ray_cast(cb, &input),
                Idx::Bp(b) => b.ray_cast(cb, &input),
            }
        }
        if let Some(b) = bad {
            return viol("ray-protocol", b);
        }
        if stopped {
            ctx.fault("ray_stopped_early");
        }
        if cur < 1.0 {
            ctx.fault("ray_clipped");
        }
        let p = (p1.0 as f64, p1.1 as f64);
        let d = (p2.0 as f64 - p.0, p2.1 as f64 - p.1);
        let len = d.0.hypot(d.1);
        let scale = 1e-3 + 1e-5 * (p.0.abs() + p.1.abs() + len);
        let mut seen = std::collections::BTreeSet::new();
        for (id, at) in &calls {
            ctx.st.evals += 1;
            let e = match self.by_id(*id) {
                Some(e) => e,
                None => return viol("ray-dead", format!("the ray reports {id}, which is not live")),
            };
            if !seen.insert(*id) {
                return viol("ray-twice", format!("the ray reports {id} twice"));
            }
            // The box of the clipped ray is what is promised, so compare with that.
            let c = *at as f64;
            let seg = Bx {
                lo: (p.0.min(p.0 + c * d.0) as f32 - scale as f32, p.1.min(p.1 + c * d.1) as f32 - scale as f32),
                hi: (p.0.max(p.0 + c * d.0) as f32 + scale as f32, p.1.max(p.1 + c * d.1) as f32 + scale as f32),
            };
            let far = (d.0 * 1e6, d.1 * 1e6);
            let line = clip(&e.fat, (p.0 - far.0, p.1 - far.1), (2.0 * far.0, 2.0 * far.1), scale).is_some();
            if !seg.overlaps(&e.fat) || !line {
                return viol("ray-extra", format!("the ray reports {id}, whose box {:?} it does not reach", e.fat));
            }
        }
        if !stopped {
            for e in &self.ents {
                ctx.st.evals += 1;
                if let Some((lo, _)) = clip(&e.fat, p, d, -scale) {
                    if lo * len < cur as f64 * len - scale && !seen.contains(&e.id) {
                        return viol("ray-missing", format!("the ray passes through the box {:?} of {} without reporting it", e.fat, e.id));
                    }
                }
            }
        }
        Ok(())
    }

    fn update_pairs(&mut self, ctx: &mut Ctx) -> Res {
        let bp = match &mut self.ix {
            Idx::Tree(t) => {
                for (i, e) in self.ents.iter_mut().enumerate() {
                    if i % 2 == 0 {
                        t.clear_moved(e.id);
                        e.moves = 0;
                    }
                }
                return Ok(());
            }
            Idx::Bp(b) => b,
        };
        let mut got = Pairs(vec![]);
        bp.update_pairs(&mut got);
        let mut count: BTreeMap<(i32, i32), u32> = BTreeMap::new();
        for (a, b) in &got.0 {
            let (a, b) = match (a, b) {
                (Some(a), Some(b)) => (*a.min(b), *a.max(b)),
                _ => return viol("pair-without-data", format!("a pair without data is reported: {a:?} {b:?}")),
            };
            *count.entry((a, b)).or_insert(0) += 1;
        }
        let by: BTreeMap<i32, &Ent> = self.ents.iter().map(|e| (e.data, e)).collect();
        for ((a, b), _) in &count {
            ctx.st.evals += 1;
            let (ea, eb) = match (by.get(a), by.get(b)) {
                (Some(x), Some(y)) => (x, y),
                _ => return viol("pair-dead", format!("pair ({a},{b}) names an entry that is not live")),
            };
            if a == b {
                return viol("pair-self", format!("entry {a} is paired with itself"));
            }
            if !ea.fat.overlaps(&eb.fat) {
                return viol("pair-apart", format!("pair ({a},{b}) does not overlap"));
            }
            if ea.moves + ea.touches + eb.moves + eb.touches == 0 {
                return viol("pair-unchanged", format!("pair ({a},{b}) is reported though neither changed"));
            }
        }
        self.pairs += count.len() as u64;
        for i in 0..self.ents.len() {
            for j in i + 1..self.ents.len() {
                let (a, b) = (&self.ents[i], &self.ents[j]);
                if a.moves + a.touches + b.moves + b.touches == 0 || !a.fat.overlaps(&b.fat) {
                    continue;
                }
                ctx.st.evals += 1;
                let k = (a.data.min(b.data), a.data.max(b.data));
                let n = count.get(&k).copied().unwrap_or(0);
                if n == 0 {
                    return viol("pair-missing", format!("pair {k:?} overlaps and changed but is not reported"));
                }
                if a.touches + b.touches == 0 && a.moves <= 1 && b.moves <= 1 && n != 1 {
                    return viol("pair-twice", format!("pair {k:?} is reported {n} times"));
                }
            }
        }
        for e in self.ents.iter_mut() {
            e.moves = 0;
            e.touches = 0;
        }
        Ok(())
    }

    fn apply(&mut self, op: &Op, ctx: &mut Ctx) -> Result<bool, Violation> {
        let n = self.ents.len();
        let pick = |i: u32| if n == 0 { None } else { Some(i as usize % n) };
        match op {
            Op::TCreate { x, y, hx, hy } => {
                let tight = Bx { lo: (x - hx, y - hy), hi: (x + hx, y + hy) };
                let data = self.next;
                self.next += 1;
                let id = match &mut self.ix {
                    Idx::Tree(t) => t.create_proxy(tight.aabb(), &data),
                    Idx::Bp(b) => b.create_proxy(tight.aabb(), &data),
                };
                if let Some(o) = self.by_id(id) {
                    return viol("id-in-use", format!("the new entry got id {id}, which entry {} holds", o.data)).map(|_: ()| true);
                }
                if !self.used.insert(id) {
                    self.reused = true;
                    ctx.fault("identifier_reused");
                }
                let fat = self.fat(id);
                if !fat.contains(&tight) {
                    return viol("not-enclosing", format!("the stored box {fat:?} does not enclose {tight:?}")).map(|_: ()| true);
                }
                self.ents.push(Ent { id, data, tight, fat, moves: 1, touches: 0 });
            }
            Op::TDestroy { i } => {
                let Some(k) = pick(*i) else { return Ok(false) };
                let e = self.ents.remove(k);
                match &mut self.ix {
                    Idx::Tree(t) => t.destroy_proxy(e.id),
                    Idx::Bp(b) => b.destroy_proxy(e.id),
                }
                self.removed = true;
                ctx.fault("entry_removed");
                if e.moves + e.touches > 1 {
                    ctx.fault("entry_removed_with_several_pending_changes");
                }
            }
            Op::TMove { i, x, y, hx, hy, dx, dy } => {
                let Some(k) = pick(*i) else { return Ok(false) };
                let id = self.ents[k].id;
                let old = self.ents[k].tight;
                let tight = if *x > 1e29 {
                    Bx { lo: (old.lo.0 + dx, old.lo.1 + dy), hi: (old.hi.0 + dx, old.hi.1 + dy) }
                } else {
                    Bx { lo: (x - hx, y - hy), hi: (x + hx, y + hy) }
                };
                let d = v2(*dx, *dy);
                let before = self.ents[k].fat;
                let moved = match &mut self.ix {
                    Idx::Tree(t) => Some(t.move_proxy(id, tight.aabb(), d)),
                    Idx::Bp(b) => {
                        b.move_proxy(id, tight.aabb(), d);
                        None
                    }
                };
                let fat = self.fat(id);
                if !fat.contains(&tight) {
                    return viol("not-enclosing", format!("after a move the stored box {fat:?} does not enclose {tight:?}")).map(|_: ()| true);
                }
                if moved == Some(false) && fat != before {
                    return viol("move-report", "a move that reports no change changed the stored box".to_string()).map(|_: ()| true);
                }
                let changed = moved.unwrap_or(fat != before);
                let e = &mut self.ents[k];
                e.tight = tight;
                e.fat = fat;
                if changed {
                    e.moves += 1;
                } else {
                    ctx.probe("move_within_stored_box");
                }
            }
            Op::TTouch { i } => {
                let Some(k) = pick(*i) else { return Ok(false) };
                let id = self.ents[k].id;
                match &mut self.ix {
                    Idx::Tree(_) => return Ok(false),
                    Idx::Bp(b) => b.touch_proxy(id),
                }
                self.ents[k].touches += 1;
            }
            Op::TQuery { x, y, hx, hy, stop } => {
                let q = Bx { lo: (x - hx, y - hy), hi: (x + hx, y + hy) };
                self.query(&q, *stop, ctx)?;
            }
            Op::TRay { x1, y1, x2, y2, proto } => {
                if (x1 - x2).hypot(y1 - y2) < 1e-3 {
                    return Ok(false);
                }
                self.ray((*x1, *y1), (*x2, *y2), *proto, ctx)?;
            }
            Op::TPairs => self.update_pairs(ctx)?,
            Op::TRebuild => {
                match &mut self.ix {
                    Idx::Tree(t) => t.rebuild_bottom_up(),
                    Idx::Bp(b) => b.get_tree_mut().rebuild_bottom_up(),
                }
                self.rebuilt = true;
                ctx.fault("rebuild_bottom_up");
            }
            Op::TShift { x, y } => {
                match &mut self.ix {
                    Idx::Tree(t) => t.shift_origin(v2(*x, *y)),
                    Idx::Bp(b) => b.shift_origin(v2(*x, *y)),
                }
                ctx.fault("origin_shift");
                for e in self.ents.iter_mut() {
                    let sh = |b: &Bx| Bx { lo: (b.lo.0 - x, b.lo.1 - y), hi: (b.hi.0 - x, b.hi.1 - y) };
                    e.tight = sh(&e.tight);
                    e.fat = sh(&e.fat);
                }
            }
            _ => return Ok(false),
        }
        Ok(true)
    }
}

pub fn run(case: &Case, ctx: &mut Ctx) -> Res {
    let ix = if case.on("tree") { Idx::Tree(B2dynamicTree::new()) } else { Idx::Bp(B2broadPhase::new()) };
    let tree = case.on("tree");
    let mut m = M {
        ix,
        ents: vec![],
        next: 100,
        removed: false,
        rebuilt: false,
        reused: false,
        subset: false,
        pairs: 0,
        used: Default::default(),
    };
    for (i, op) in case.ops.iter().enumerate() {
        let at = |mut v: Violation| {
            v.at = i;
            v
        };
        let done = m.apply(op, ctx).map_err(at)?;
        ctx.st.ops += 1;
        *ctx.st.op_kinds.entry(op.kind().to_string()).or_insert(0) += 1;
        if done {
            ctx.sig.s(op.kind());
        }
        // A full comparison after changes that could disturb others, else now and then.
        if matches!(op, Op::TDestroy { .. } | Op::TRebuild | Op::TShift { .. }) || i % 8 == 7 || i + 1 == case.ops.len() {
            m.all(ctx).map_err(at)?;
        }
        for e in &m.ents {
            ctx.digest.u(e.id as u64);
            ctx.digest.f(e.fat.lo.0);
        }
    }
    ctx.sig.u(m.ents.len() as u64);
    ctx.sig.u(m.pairs);
    if m.removed && m.reused && m.subset && (tree || m.pairs > 0) {
        ctx.reached = true;
    }
    Ok(())
}
