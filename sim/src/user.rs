//! User data attached to every body, fixture and joint.  Each value knows its identity and is
//! counted while alive, so the harness sees exactly when the engine lets go of it.

use box2d_rs::b2rs_common::UserDataType;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cell::RefCell;

/// Ids up to this are counted in a table; larger ones come only from damaged snapshots.
const TABLE: usize = 1 << 16;

thread_local! {
    static LIVE: RefCell<Vec<i64>> = RefCell::new(vec![]);
}

fn bump(id: u32, d: i64) {
    if id as usize >= TABLE {
        return;
    }
    let _ = LIVE.try_with(|l| {
        let mut l = l.borrow_mut();
        if l.is_empty() {
            l.resize(TABLE, 0);
        }
        l[id as usize] += d;
    });
}

/// Number of live copies of the tag `id` on this thread.
pub fn live(id: u32) -> i64 {
    LIVE.with(|l| l.borrow().get(id as usize).copied().unwrap_or(0))
}

pub fn reset_live() {
    LIVE.with(|l| l.borrow_mut().iter_mut().for_each(|c| *c = 0));
}

#[derive(Debug)]
pub struct Tag(pub u32);

impl Tag {
    pub fn new(id: u32) -> Tag {
        bump(id, 1);
        Tag(id)
    }
}
impl Default for Tag {
    fn default() -> Self {
        Tag::new(0)
    }
}
impl Clone for Tag {
    fn clone(&self) -> Self {
        Tag::new(self.0)
    }
}
impl Drop for Tag {
    fn drop(&mut self) {
        bump(self.0, -1);
    }
}
impl Serialize for Tag {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(self.0)
    }
}
impl<'de> Deserialize<'de> for Tag {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Tag::new(u32::deserialize(d)?))
    }
}

#[derive(Default, Clone, Debug, Serialize, Deserialize)]
pub struct U;

impl UserDataType for U {
    type Fixture = Tag;
    type Body = Tag;
    type Joint = Tag;
}
