From 208123b37d743ef8ff7ff215004e77b5d378fdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:14 +0000
Subject: [PATCH 01/24] fix: allow changing filter data of a fixture that has
 contacts

Re-filtering compared fixtures by borrowing them while the fixture being
changed was already mutably borrowed, which panicked as soon as its body
had a contact.
---
 src/private/dynamics/b2_fixture.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/private/dynamics/b2_fixture.rs b/src/private/dynamics/b2_fixture.rs
index 6c118cf..654e494 100644
--- a/src/private/dynamics/b2_fixture.rs
+++ b/src/private/dynamics/b2_fixture.rs
@@ -193,7 +193,8 @@ pub fn b2_fixture_refilter<T:UserDataType>(self_: &mut B2fixture<T>) {
 		let mut contact = contact.borrow_mut();
 		let fixture_a = contact.get_base().get_fixture_a();
 		let fixture_b = contact.get_base().get_fixture_b();
-		if ptr::eq(&*fixture_a.borrow(),self_) || ptr::eq(&*fixture_b.borrow(),self_)
+		// Compare addresses only: this fixture is already mutably borrowed by the caller.
+		if ptr::eq(fixture_a.as_ptr(), self_) || ptr::eq(fixture_b.as_ptr(), self_)
 		{
 			contact.get_base_mut().flag_for_filtering();
 		}
-- 
2.43.0


From 831d0dc059a674cca1007bfc77c6a8bb73c40970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:14 +0000
Subject: [PATCH 02/24] fix: make enabling an already enabled body a no-op

Proxies were created a second time, which tripped an assertion.
---
 src/private/dynamics/b2_body.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/private/dynamics/b2_body.rs b/src/private/dynamics/b2_body.rs
index 27ea53b..3bbf151 100644
--- a/src/private/dynamics/b2_body.rs
+++ b/src/private/dynamics/b2_body.rs
@@ -493,6 +493,10 @@ pub fn set_enabled<D: UserDataType>(self_: BodyPtr<D>, flag: bool) {
 			return;
 		}
 
+		if flag == self_.is_enabled() {
+			return;
+		}
+
 		self_.m_flags.set(BodyFlags::E_ENABLED_FLAG, flag);
 		m_fixture_list = self_.m_fixture_list.clone();
 		m_xf = self_.m_xf;
-- 
2.43.0


From d4ca8f76a6e663fe8e999741676b17502147e412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:14 +0000
Subject: [PATCH 03/24] fix: respect the island capacity when solving time of
 impact

A body touching more than 63 other bodies at its time of impact indexed
past the end of the island's position array.
---
 src/private/dynamics/b2_world.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/private/dynamics/b2_world.rs b/src/private/dynamics/b2_world.rs
index 87add4b..e2c6e3c 100644
--- a/src/private/dynamics/b2_world.rs
+++ b/src/private/dynamics/b2_world.rs
@@ -745,15 +745,15 @@ pub(crate) fn solve_toi<D: UserDataType>(self_: &mut B2world<D>, step: B2timeSte
 			if body.borrow().m_type == B2bodyType::B2DynamicBody {
 				let contact_list = body.borrow().m_contact_list.clone();
 				for ce in contact_list.iter() {
-					// if island.m_body_count == island.m_body_capacity
-					// {
-					// 	break;
-					// }
-
-					// if island.m_contact_count == island.m_contact_capacity
-					// {
-					// 	break;
-					// }
+					if island.m_bodies.len() == 2 * B2_MAX_TOICONTACTS
+					{
+						break;
+					}
+
+					if island.m_contacts.len() == B2_MAX_TOICONTACTS
+					{
+						break;
+					}
 
 					let contact_ptr = ce.borrow().contact.upgrade().unwrap();
 					let mut contact = contact_ptr.borrow_mut();
-- 
2.43.0


From 74a8a34b5aab71099d552a6f246428730b5da2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:14 +0000
Subject: [PATCH 04/24] fix: accept an empty dynamic tree in rebuild and
 validate

Both indexed the missing root node and panicked.
---
 src/private/collision/b2_dynamic_tree.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/private/collision/b2_dynamic_tree.rs b/src/private/collision/b2_dynamic_tree.rs
index 55619a4..e3420a7 100644
--- a/src/private/collision/b2_dynamic_tree.rs
+++ b/src/private/collision/b2_dynamic_tree.rs
@@ -537,6 +537,10 @@ pub fn compute_height_by_node<T: Clone + Default>(
 }
 
 pub fn compute_height<T: Clone + Default>(self_: &B2dynamicTree<T>) -> i32 {
+	if self_.m_root == B2_NULL_NODE {
+		return 0;
+	}
+
 	let height: i32 = compute_height_by_node(self_, self_.m_root);
 	return height;
 }
@@ -654,6 +658,10 @@ pub fn get_max_balance<T: Clone + Default>(self_: &B2dynamicTree<T>) -> i32 {
 }
 
 pub fn rebuild_bottom_up<T: Clone + Default>(self_: &mut B2dynamicTree<T>) {
+	if self_.m_root == B2_NULL_NODE {
+		return;
+	}
+
 	let mut nodes = Vec::<i32>::new();
 	nodes.resize(self_.m_node_count as usize, -1);
 	let mut count: i32 = 0;
-- 
2.43.0


From 5d7150739e71e85e78ce097b4f3f690b369da4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:10 +0000
Subject: [PATCH 05/24] fix: keep order and references of bodies, fixtures and
 joints on restore

Objects are pushed to the front of their lists, so restoring in document
order reversed the lists while joints referred to bodies (and gears to
joints) by list position: joints came back attached to the wrong bodies.
Write the oldest first and resolve references in document order.
---
 src/b2rs_double_linked_list.rs      |  8 +++++---
 src/b2rs_linked_list.rs             |  8 +++++---
 src/serialize/serialize_b2_world.rs | 28 ++++++++++++++++++++++------
 3 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/b2rs_double_linked_list.rs b/src/b2rs_double_linked_list.rs
index 95d3ac1..f623a24 100644
--- a/src/b2rs_double_linked_list.rs
+++ b/src/b2rs_double_linked_list.rs
@@ -60,9 +60,11 @@ where
     where
         S: Serializer,
     {
-        let len = self.iter().count();
-        let mut state = serializer.serialize_seq(Some(len))?;
-        for jn_ in self.iter() {
+        // Nodes are pushed to the front: write the oldest first so that
+        // re-creating them in document order restores the order of the list.
+        let nodes = self.iter().collect::<Vec<_>>();
+        let mut state = serializer.serialize_seq(Some(nodes.len()))?;
+        for jn_ in nodes.iter().rev() {
             state.serialize_element(&*jn_.borrow())?;
         }
         state.end()
diff --git a/src/b2rs_linked_list.rs b/src/b2rs_linked_list.rs
index 48b0f63..6704f2d 100644
--- a/src/b2rs_linked_list.rs
+++ b/src/b2rs_linked_list.rs
@@ -40,9 +40,11 @@ where
     where
         S: Serializer,
     {
-        let len = self.iter().count();
-        let mut state = serializer.serialize_seq(Some(len))?;
-        for jn_ in self.iter() {
+        // Nodes are pushed to the front: write the oldest first so that
+        // re-creating them in document order restores the order of the list.
+        let nodes = self.iter().collect::<Vec<_>>();
+        let mut state = serializer.serialize_seq(Some(nodes.len()))?;
+        for jn_ in nodes.iter().rev() {
             state.serialize_element(&*jn_.borrow())?;
         }
         state.end()
diff --git a/src/serialize/serialize_b2_world.rs b/src/serialize/serialize_b2_world.rs
index 827e142..83854f7 100644
--- a/src/serialize/serialize_b2_world.rs
+++ b/src/serialize/serialize_b2_world.rs
@@ -8,6 +8,7 @@ use std::marker::PhantomData;
 use std::rc::Rc;
 use std::cell::RefCell;
 
+use crate::b2_body::*;
 use crate::b2_joint::*;
 use crate::b2_math::*;
 use crate::b2rs_common::UserDataType;
@@ -138,7 +139,9 @@ impl<D: UserDataType> Serialize for B2world<D> {
 
         state.serialize_field("m_gravity", &self.m_gravity)?;
         state.serialize_field("m_bodies_list", &self.m_body_list)?;
-        for (i, ref mut b) in self.m_body_list.iter().enumerate() {
+        // Bodies and joints are referred to by their position in the document (oldest first).
+        let bodies = self.m_body_list.iter().collect::<Vec<_>>();
+        for (i, b) in bodies.iter().rev().enumerate() {
             b.borrow_mut().m_island_index = i as i32;
         }
 
@@ -146,7 +149,8 @@ impl<D: UserDataType> Serialize for B2world<D> {
         let mut not_gear_joint = Vec::new();
         let mut gear_joint = Vec::new();
 
-        for ref b in self.m_joint_list.iter(){
+        let joints = self.m_joint_list.iter().collect::<Vec<_>>();
+        for b in joints.iter().rev() {
             let mut j = b.borrow_mut();
             j.get_base_mut().m_index = -1;
             if j.get_base().m_type!=B2jointType::EGearJoint
@@ -177,6 +181,18 @@ impl<D: UserDataType> Serialize for B2world<D> {
     }
 }
 
+fn bodies_in_document_order<D: UserDataType>(world: &B2worldPtr<D>) -> Vec<BodyPtr<D>> {
+    let mut bodies = world.borrow().m_body_list.iter().collect::<Vec<_>>();
+    bodies.reverse();
+    bodies
+}
+
+fn joints_in_document_order<D: UserDataType>(world: &B2worldPtr<D>) -> Vec<B2jointPtr<D>> {
+    let mut joints = world.borrow().m_joint_list.iter().collect::<Vec<_>>();
+    joints.reverse();
+    joints
+}
+
 pub struct B2worldDeserializeResult<U: UserDataType> {
     pub world: B2worldPtr<U>,
 }
@@ -224,7 +240,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
 
                 let m_body_array;
                 {
-                    m_body_array = Rc::new(RefCell::new(world.borrow().m_body_list.iter().collect::<Vec<_>>()));
+                    m_body_array = Rc::new(RefCell::new(bodies_in_document_order(&world)));
                 }  
 
                 seq.next_element_seed(B2jointListContext {
@@ -236,7 +252,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
 
                 let m_all_joints;
                 {
-                    m_all_joints = Rc::new(RefCell::new(world.borrow().m_joint_list.iter().collect::<Vec<_>>()));
+                    m_all_joints = Rc::new(RefCell::new(joints_in_document_order(&world)));
                 }  
 
                 seq.next_element_seed(B2jointListContext {
@@ -268,7 +284,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
                                 m_world: world.clone().unwrap(),
                             })?;
 
-                            m_body_array = Some(Rc::new(RefCell::new(world.as_ref().unwrap().borrow().m_body_list.iter().collect::<Vec<_>>())));
+                            m_body_array = Some(Rc::new(RefCell::new(bodies_in_document_order(world.as_ref().unwrap()))));
                         }
                         Field::m_joints_list => {                          
  
@@ -278,7 +294,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
                                 m_all_joints: Rc::default()
                             })?;
 
-                            m_all_joints = Some(Rc::new(RefCell::new(world.as_ref().unwrap().borrow().m_joint_list.iter().collect::<Vec<_>>())));
+                            m_all_joints = Some(Rc::new(RefCell::new(joints_in_document_order(world.as_ref().unwrap()))));
                         }
                         Field::m_gear_joints_list => {                          
 
-- 
2.43.0


From 905bb01e19f0fc43bf5e2df44150bccc88497bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:10 +0000
Subject: [PATCH 06/24] fix: leave mouse joints out of the saved joint list
 completely

They were skipped but still counted in the list length and in the joint
positions used by gears, which corrupted binary snapshots and could bind a
gear to the wrong joint.
---
 src/serialize/serialize_b2_world.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/serialize/serialize_b2_world.rs b/src/serialize/serialize_b2_world.rs
index 83854f7..90dd09e 100644
--- a/src/serialize/serialize_b2_world.rs
+++ b/src/serialize/serialize_b2_world.rs
@@ -153,6 +153,11 @@ impl<D: UserDataType> Serialize for B2world<D> {
         for b in joints.iter().rev() {
             let mut j = b.borrow_mut();
             j.get_base_mut().m_index = -1;
+            if j.get_base().m_type==B2jointType::EMouseJoint
+            {
+                // Mouse joints are not saved, so they must not take up a position either.
+                continue;
+            }
             if j.get_base().m_type!=B2jointType::EGearJoint
             {
                 not_gear_joint.push(b.clone());
-- 
2.43.0


From 5a1e1bf35de71c6e4276667863c8501961870f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:23 +0000
Subject: [PATCH 07/24] fix: restore the velocity of rotating bodies unchanged

The saved velocity belongs to the center of mass. Re-adding the fixtures
moved the center of mass and shifted the velocity of every rotating body
whose center is not at its origin.
---
 src/serialize/serialize_b2_body.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/serialize/serialize_b2_body.rs b/src/serialize/serialize_b2_body.rs
index a80c628..598aaf9 100644
--- a/src/serialize/serialize_b2_body.rs
+++ b/src/serialize/serialize_b2_body.rs
@@ -69,6 +69,14 @@ impl<D: UserDataType> Serialize for B2body<D> {
     }
 }
 
+/// The saved velocity is that of the center of mass, while adding fixtures
+/// treats it as the velocity of the body origin and converts it.
+fn restore_velocity<D: UserDataType>(body: &BodyPtr<D>, def: &B2bodyDef<D>) {
+    let mut body = body.borrow_mut();
+    body.m_linear_velocity = def.linear_velocity;
+    body.m_angular_velocity = def.angular_velocity;
+}
+
 #[derive(Clone)]
 pub(crate) struct B2bodyDefinitionVisitorContext<D: UserDataType> {
     pub(crate) m_world: B2worldPtr<D>,
@@ -108,13 +116,15 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2bodyDefinitionVisitorConte
                 let def: B2bodyDef<U> = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(0, &self))?;
-                let body = Some(B2world::create_body(world.clone(), &def));
+                let body = B2world::create_body(world.clone(), &def);
 
                 seq.next_element_seed(B2fixtureListVisitorContext {
-                    body: Rc::downgrade(&body.clone().unwrap()),
+                    body: Rc::downgrade(&body),
                 })?
                 .ok_or_else(|| de::Error::invalid_length(0, &self))?;
 
+                restore_velocity(&body, &def);
+
                 Ok(())
             }
 
@@ -128,12 +138,15 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2bodyDefinitionVisitorConte
                     match key {
                         Field::m_definition => {
                             let def: B2bodyDef<U> = map.next_value()?;
-                            body = Some(B2world::create_body(world.clone(), &def));
+                            body = Some((B2world::create_body(world.clone(), &def), def));
                         }
                         Field::m_fixture_list => {
+                            let (body, def) = body.as_ref().unwrap();
                             map.next_value_seed(B2fixtureListVisitorContext {
-                                body: Rc::downgrade(&body.clone().unwrap()),
+                                body: Rc::downgrade(body),
                             })?;
+
+                            restore_velocity(body, def);
                         }
                     }
                 }
-- 
2.43.0


From 1598d3aa4bf0181f4b289ad81e8d683508f5044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:05 +0000
Subject: [PATCH 08/24] fix: keep the user data of fixtures in saved worlds

Body and joint user data were saved, fixture user data was silently lost.
---
 src/serialize/serialize_b2_fixture.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/serialize/serialize_b2_fixture.rs b/src/serialize/serialize_b2_fixture.rs
index 2b43560..793bd02 100644
--- a/src/serialize/serialize_b2_fixture.rs
+++ b/src/serialize/serialize_b2_fixture.rs
@@ -25,7 +25,8 @@ impl<D: UserDataType> Serialize for B2fixture<D> {
 	where
 		S: Serializer,
 	{
-		let mut state = serializer.serialize_struct("B2fixture", 7)?;
+		let mut state = serializer.serialize_struct("B2fixture", 9)?;
+		state.serialize_field("m_user_data", &self.m_user_data)?;
 		state.serialize_field("m_friction", &self.m_friction)?;
 		state.serialize_field("m_restitution", &self.m_restitution)?;
 		state.serialize_field("m_restitution_threshold", &self.m_restitution_threshold)?;
@@ -67,6 +68,7 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2fixtureVisitorContext<U> {
 		#[derive(EnumVariantNames)]
         #[allow(non_camel_case_types)]
 		enum Field {
+			m_user_data,
 			m_friction,
 			m_restitution,
 			m_restitution_threshold,
@@ -92,6 +94,10 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2fixtureVisitorContext<U> {
 				let body = self.0.body.upgrade().unwrap();
 				let mut definition = B2fixtureDef::<U>::default();
 
+				definition.user_data = seq
+					.next_element()?
+					.ok_or_else(|| de::Error::invalid_length(0, &self))?;
+
 				definition.friction = seq
 					.next_element()?
 					.ok_or_else(|| de::Error::invalid_length(0, &self))?;
@@ -160,6 +166,9 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2fixtureVisitorContext<U> {
 				let mut shape_type = B2ShapeType::EChain;
 				while let Some(key) = map.next_key()? {
 					match key {
+						Field::m_user_data => {
+							definition.user_data = map.next_value()?;
+						}
 						Field::m_friction => {
 							definition.friction = map.next_value()?;
 						}
-- 
2.43.0


From b58afee67bb42ec002a647f74fa6475308d099ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:50 +0000
Subject: [PATCH 09/24] fix: reject damaged snapshots with an error instead of
 panicking

References to missing bodies or joints, unknown joint and shape kinds,
missing parts and oversized polygons made deserialization panic.
---
 .../serialize/serialize_b2_gear_joint.rs      |  19 +++-
 src/serialize/serialize_b2_body.rs            | 101 +++++++++++++-----
 src/serialize/serialize_b2_fixture.rs         |   7 +-
 src/serialize/serialize_b2_joint.rs           |  19 +++-
 src/serialize/serialize_b2_world.rs           |  19 ++--
 src/shapes/serialize_b2_polygon_shape.rs      |  24 ++++-
 6 files changed, 142 insertions(+), 47 deletions(-)

diff --git a/src/joints/serialize/serialize_b2_gear_joint.rs b/src/joints/serialize/serialize_b2_gear_joint.rs
index 69fcbd2..171abc3 100644
--- a/src/joints/serialize/serialize_b2_gear_joint.rs
+++ b/src/joints/serialize/serialize_b2_gear_joint.rs
@@ -55,6 +55,17 @@ impl<D: UserDataType> Serialize for B2gearJointDef<D> {
     }
 }
 
+fn joint_at<D: UserDataType, E: de::Error>(
+    joints: &RefCell<Vec<B2jointPtr<D>>>,
+    index: i32,
+) -> Result<B2jointPtr<D>, E> {
+    joints
+        .borrow()
+        .get(index as usize)
+        .cloned()
+        .ok_or_else(|| E::custom(format_args!("gear refers to missing joint {}", index)))
+}
+
 pub(crate) struct B2gearJointDefContext<D: UserDataType> {
     pub(crate) m_body_array: Rc<RefCell<Vec<BodyPtr<D>>>>,
     pub(crate) m_all_joints: Rc<RefCell<Vec<B2jointPtr<D>>>>,
@@ -104,14 +115,14 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2gearJointDefContext<U> {
                             let joint_index: i32 =  seq
                             .next_element()?
                             .ok_or_else(|| de::Error::invalid_length(0, &self))?;
-                            Some(all_joints.borrow()[joint_index as usize].clone())
+                            Some(joint_at(all_joints, joint_index)?)
                         },
 
                         joint2: {
                             let joint_index: i32 =  seq
                             .next_element()?
                             .ok_or_else(|| de::Error::invalid_length(0, &self))?;
-                            Some(all_joints.borrow()[joint_index as usize].clone())
+                            Some(joint_at(all_joints, joint_index)?)
                         },
 
                         ratio: seq
@@ -137,11 +148,11 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2gearJointDefContext<U> {
                         }
                         Field::joint1 => {
                             let joint_index: i32 = map.next_value()?;
-                            joint_def.joint1 = Some(all_joints.borrow()[joint_index as usize].clone());
+                            joint_def.joint1 = Some(joint_at(all_joints, joint_index)?);
                         }
                         Field::joint2 => {
                             let joint_index: i32 = map.next_value()?;
-                            joint_def.joint2 = Some(all_joints.borrow()[joint_index as usize].clone());
+                            joint_def.joint2 = Some(joint_at(all_joints, joint_index)?);
                         }
                         Field::ratio => {
                             joint_def.ratio = map.next_value()?;
diff --git a/src/serialize/serialize_b2_body.rs b/src/serialize/serialize_b2_body.rs
index 598aaf9..c4a3efb 100644
--- a/src/serialize/serialize_b2_body.rs
+++ b/src/serialize/serialize_b2_body.rs
@@ -133,6 +133,7 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2bodyDefinitionVisitorConte
                 V: MapAccess<'de>,
             {
                 let mut body = None;
+                let mut has_fixtures = false;
                 let world = self.0.m_world;
                 while let Some(key) = map.next_key()? {
                     match key {
@@ -141,7 +142,10 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2bodyDefinitionVisitorConte
                             body = Some((B2world::create_body(world.clone(), &def), def));
                         }
                         Field::m_fixture_list => {
-                            let (body, def) = body.as_ref().unwrap();
+                            let (body, def) = body
+                                .as_ref()
+                                .ok_or_else(|| de::Error::missing_field("m_definition"))?;
+                            has_fixtures = true;
                             map.next_value_seed(B2fixtureListVisitorContext {
                                 body: Rc::downgrade(body),
                             })?;
@@ -150,6 +154,9 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2bodyDefinitionVisitorConte
                         }
                     }
                 }
+                if !has_fixtures {
+                    return Err(de::Error::missing_field("m_fixture_list"));
+                }
                 Ok(())
             }
         }
@@ -195,6 +202,41 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2bodyListContext<U> {
 }
 
 
+fn create_joint<D: UserDataType, E: de::Error>(
+    world: &B2worldPtr<D>,
+    def: B2JointDefEnum<D>,
+) -> Result<B2jointPtr<D>, E> {
+    let base = match &def {
+        B2JointDefEnum::DistanceJoint(def) => &def.base,
+        B2JointDefEnum::FrictionJoint(def) => &def.base,
+        B2JointDefEnum::GearJoint(def) => {
+            for joint in [&def.joint1, &def.joint2].iter() {
+                let joint = joint
+                    .as_ref()
+                    .ok_or_else(|| E::custom("a gear joint needs two joints"))?;
+                let joint_type = joint.borrow().get_base().get_type();
+                if joint_type != B2jointType::ERevoluteJoint
+                    && joint_type != B2jointType::EPrismaticJoint
+                {
+                    return Err(E::custom("a gear joint needs revolute or prismatic joints"));
+                }
+            }
+            &def.base
+        }
+        B2JointDefEnum::MouseJoint(def) => &def.base,
+        B2JointDefEnum::MotorJoint(def) => &def.base,
+        B2JointDefEnum::PulleyJoint(def) => &def.base,
+        B2JointDefEnum::RevoluteJoint(def) => &def.base,
+        B2JointDefEnum::PrismaticJoint(def) => &def.base,
+        B2JointDefEnum::WeldJoint(def) => &def.base,
+        B2JointDefEnum::WheelJoint(def) => &def.base,
+    };
+    if base.body_a.is_none() || base.body_b.is_none() {
+        return Err(E::missing_field("base"));
+    }
+    Ok(world.borrow_mut().create_joint(&def))
+}
+
 #[derive(Clone)]
 pub(crate) struct B2jointDefinitionVisitorContext<D: UserDataType> {
     pub(crate) m_world: B2worldPtr<D>,
@@ -238,8 +280,8 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2jointDefinitionVisitorCont
                     .ok_or_else(|| de::Error::invalid_length(0, &self))?;
 
                 match jtype {
-                    B2jointType::EUnknownJoint =>{
-                        panic!();
+                    B2jointType::EUnknownJoint => {
+                        return Err(de::Error::custom("unknown joint type"));
                     }
                     B2jointType::EDistanceJoint => {
                         let def = seq.next_element_seed(B2distanceJointDefContext {
@@ -247,7 +289,7 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2jointDefinitionVisitorCont
                         })?
                         .ok_or_else(|| de::Error::invalid_length(0, &self))?;
 
-                        world.borrow_mut().create_joint(&B2JointDefEnum::DistanceJoint(def));
+                        create_joint(&world, B2JointDefEnum::DistanceJoint(def))?;
                     }
                     B2jointType::EFrictionJoint => {
                         let def = seq.next_element_seed(B2frictionJointDefContext {
@@ -255,7 +297,7 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2jointDefinitionVisitorCont
                         })?
                         .ok_or_else(|| de::Error::invalid_length(0, &self))?;
 
-                        world.borrow_mut().create_joint(&B2JointDefEnum::FrictionJoint(def));
+                        create_joint(&world, B2JointDefEnum::FrictionJoint(def))?;
                     }
                     B2jointType::EGearJoint => {
                         let all_joints = self.0.m_all_joints.clone();
@@ -265,10 +307,10 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2jointDefinitionVisitorCont
                         })?
                         .ok_or_else(|| de::Error::invalid_length(0, &self))?;
 
-                        world.borrow_mut().create_joint(&B2JointDefEnum::GearJoint(def));
+                        create_joint(&world, B2JointDefEnum::GearJoint(def))?;
                     }
                     B2jointType::EMouseJoint => {
-                        panic!();
+                        return Err(de::Error::custom("mouse joints are not saved"));
                     }
                     B2jointType::EMotorJoint => {
                         let def = seq.next_element_seed(B2motorJointDefContext {
@@ -276,7 +318,7 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2jointDefinitionVisitorCont
                         })?
                         .ok_or_else(|| de::Error::invalid_length(0, &self))?;
 
-                        world.borrow_mut().create_joint(&B2JointDefEnum::MotorJoint(def));
+                        create_joint(&world, B2JointDefEnum::MotorJoint(def))?;
                     }
                     B2jointType::EPulleyJoint => {
                         let def = seq.next_element_seed(B2pulleyJointDefContext {
@@ -284,7 +326,7 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2jointDefinitionVisitorCont
                         })?
                         .ok_or_else(|| de::Error::invalid_length(0, &self))?;
 
-                        world.borrow_mut().create_joint(&B2JointDefEnum::PulleyJoint(def));
+                        create_joint(&world, B2JointDefEnum::PulleyJoint(def))?;
                     }
                     B2jointType::ERevoluteJoint => {
                         let def = seq.next_element_seed(B2revoluteJointDefContext {
@@ -292,7 +334,7 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2jointDefinitionVisitorCont
                         })?
                         .ok_or_else(|| de::Error::invalid_length(0, &self))?;
 
-                        world.borrow_mut().create_joint(&B2JointDefEnum::RevoluteJoint(def));
+                        create_joint(&world, B2JointDefEnum::RevoluteJoint(def))?;
                     }
                     B2jointType::EPrismaticJoint => {
                         let def = seq.next_element_seed(B2prismaticJointDefContext {
@@ -300,7 +342,7 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2jointDefinitionVisitorCont
                         })?
                         .ok_or_else(|| de::Error::invalid_length(0, &self))?;
 
-                        world.borrow_mut().create_joint(&B2JointDefEnum::PrismaticJoint(def));
+                        create_joint(&world, B2JointDefEnum::PrismaticJoint(def))?;
                     }
                     B2jointType::EWeldJoint => {
                         let def = seq.next_element_seed(B2weldJointDefContext {
@@ -308,7 +350,7 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2jointDefinitionVisitorCont
                         })?
                         .ok_or_else(|| de::Error::invalid_length(0, &self))?;
 
-                        world.borrow_mut().create_joint(&B2JointDefEnum::WeldJoint(def));
+                        create_joint(&world, B2JointDefEnum::WeldJoint(def))?;
                     }
                     B2jointType::EWheelJoint => {
                         let def = seq.next_element_seed(B2wheelJointDefContext {
@@ -316,7 +358,7 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2jointDefinitionVisitorCont
                         })?
                         .ok_or_else(|| de::Error::invalid_length(0, &self))?;
 
-                        world.borrow_mut().create_joint(&B2JointDefEnum::WheelJoint(def));
+                        create_joint(&world, B2JointDefEnum::WheelJoint(def))?;
                     }
                 }
 
@@ -329,27 +371,29 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2jointDefinitionVisitorCont
             {
                 let world = self.0.m_world;
                 let mut jtype: Option<B2jointType> = None;
+                let mut has_joint = false;
                 while let Some(key) = map.next_key()? {
                     match key {
                         Field::jtype => {
                             jtype = Some(map.next_value()?);
                         }
                         Field::joint_def => {
-                            match jtype.unwrap() {
-                                B2jointType::EUnknownJoint =>{
-                                    panic!();
+                            has_joint = true;
+                            match jtype.ok_or_else(|| de::Error::missing_field("jtype"))? {
+                                B2jointType::EUnknownJoint => {
+                                    return Err(de::Error::custom("unknown joint type"));
                                 }
                                 B2jointType::EDistanceJoint => {
                                     let def = map.next_value_seed(B2distanceJointDefContext {
                                         m_body_array: self.0.m_body_array.clone(),
                                     })?;
-                                    world.borrow_mut().create_joint(&B2JointDefEnum::DistanceJoint(def));
+                                    create_joint(&world, B2JointDefEnum::DistanceJoint(def))?;
                                 }
                                 B2jointType::EFrictionJoint => {
                                     let def = map.next_value_seed(B2frictionJointDefContext {
                                         m_body_array: self.0.m_body_array.clone(),
                                     })?;
-                                    world.borrow_mut().create_joint(&B2JointDefEnum::FrictionJoint(def));
+                                    create_joint(&world, B2JointDefEnum::FrictionJoint(def))?;
                                 }
                                 B2jointType::EGearJoint => {
                                     let all_joints = self.0.m_all_joints.clone();
@@ -358,45 +402,47 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2jointDefinitionVisitorCont
                                         m_all_joints: all_joints.clone(),
                                     })?;
 
-                                    let gear_joint = world.borrow_mut().create_joint(&B2JointDefEnum::GearJoint(def));
+                                    let gear_joint = create_joint(&world, B2JointDefEnum::GearJoint(def))?;
                                     all_joints.borrow_mut().push(gear_joint);
                                 }
-                                B2jointType::EMouseJoint => {}
+                                B2jointType::EMouseJoint => {
+                                    return Err(de::Error::custom("mouse joints are not saved"));
+                                }
                                 B2jointType::EMotorJoint => {
                                     let def = map.next_value_seed(B2motorJointDefContext {
                                         m_body_array: self.0.m_body_array.clone(),
                                     })?;
-                                    world.borrow_mut().create_joint(&B2JointDefEnum::MotorJoint(def));
+                                    create_joint(&world, B2JointDefEnum::MotorJoint(def))?;
                                 }
                                 B2jointType::EPulleyJoint => {
                                     let def = map.next_value_seed(B2pulleyJointDefContext {
                                         m_body_array: self.0.m_body_array.clone(),
                                     })?;
-                                    world.borrow_mut().create_joint(&B2JointDefEnum::PulleyJoint(def));
+                                    create_joint(&world, B2JointDefEnum::PulleyJoint(def))?;
                                 }
                                 B2jointType::ERevoluteJoint => {
                                     let def = map.next_value_seed(B2revoluteJointDefContext {
                                         m_body_array: self.0.m_body_array.clone(),
                                     })?;
-                                    world.borrow_mut().create_joint(&B2JointDefEnum::RevoluteJoint(def));
+                                    create_joint(&world, B2JointDefEnum::RevoluteJoint(def))?;
                                 }
                                 B2jointType::EPrismaticJoint => {
                                     let def = map.next_value_seed(B2prismaticJointDefContext {
                                         m_body_array: self.0.m_body_array.clone(),
                                     })?;
-                                    world.borrow_mut().create_joint(&B2JointDefEnum::PrismaticJoint(def));
+                                    create_joint(&world, B2JointDefEnum::PrismaticJoint(def))?;
                                 }
                                 B2jointType::EWeldJoint => {
                                     let def = map.next_value_seed(B2weldJointDefContext {
                                         m_body_array: self.0.m_body_array.clone(),
                                     })?;
-                                    world.borrow_mut().create_joint(&B2JointDefEnum::WeldJoint(def));
+                                    create_joint(&world, B2JointDefEnum::WeldJoint(def))?;
                                 }
                                 B2jointType::EWheelJoint => {
                                     let def = map.next_value_seed(B2wheelJointDefContext {
                                         m_body_array: self.0.m_body_array.clone(),
                                     })?;
-                                    world.borrow_mut().create_joint(&B2JointDefEnum::WheelJoint(def));
+                                    create_joint(&world, B2JointDefEnum::WheelJoint(def))?;
                                 }
                             }
                             
@@ -404,6 +450,9 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2jointDefinitionVisitorCont
                     }
                 }
                 
+                if !has_joint {
+                    return Err(de::Error::missing_field("joint_def"));
+                }
                 Ok(())
             }
         }
diff --git a/src/serialize/serialize_b2_fixture.rs b/src/serialize/serialize_b2_fixture.rs
index 793bd02..b745bca 100644
--- a/src/serialize/serialize_b2_fixture.rs
+++ b/src/serialize/serialize_b2_fixture.rs
@@ -151,7 +151,7 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2fixtureVisitorContext<U> {
 							.ok_or_else(|| de::Error::invalid_length(0, &self))?;
 						definition.shape = Some(Rc::new(RefCell::new(shape)));
 					}
-					_ => panic!(),
+					_ => return Err(de::Error::custom("unknown shape type")),
 				}
 				B2body::create_fixture(body, &definition);
 				Ok(())
@@ -207,10 +207,13 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2fixtureVisitorContext<U> {
 								let shape: B2polygonShape = map.next_value()?;
 								definition.shape = Some(Rc::new(RefCell::new(shape)));
 							}
-							_ => panic!(),
+							_ => return Err(de::Error::custom("unknown shape type")),
 						},
 					}
 				}
+				if definition.shape.is_none() {
+					return Err(de::Error::missing_field("m_shape"));
+				}
 				B2body::create_fixture(body, &definition);
 				Ok(())
 			}
diff --git a/src/serialize/serialize_b2_joint.rs b/src/serialize/serialize_b2_joint.rs
index da3e1a9..a184736 100644
--- a/src/serialize/serialize_b2_joint.rs
+++ b/src/serialize/serialize_b2_joint.rs
@@ -52,6 +52,17 @@ impl<D: UserDataType> Serialize for B2jointDef<D> {
     }
 }
 
+fn body_at<D: UserDataType, E: de::Error>(
+    bodies: &RefCell<Vec<BodyPtr<D>>>,
+    index: i32,
+) -> Result<BodyPtr<D>, E> {
+    bodies
+        .borrow()
+        .get(index as usize)
+        .cloned()
+        .ok_or_else(|| E::custom(format_args!("joint refers to missing body {}", index)))
+}
+
 #[derive(Clone)]
 pub(crate) struct B2jointDefVisitorContext<D: UserDataType> {
     pub(crate) m_body_array: Rc<RefCell<Vec<BodyPtr<D>>>>,
@@ -102,13 +113,13 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2jointDefVisitorContext<U>
                         let body_index: i32 =  seq
                         .next_element()?
                         .ok_or_else(|| de::Error::invalid_length(0, &self))?;
-                        Some(bodies.borrow()[body_index as usize].clone())
+                        Some(body_at(bodies, body_index)?)
                     },
                     body_b: {
                         let body_index: i32 =  seq
                         .next_element()?
                         .ok_or_else(|| de::Error::invalid_length(0, &self))?;
-                        Some(bodies.borrow()[body_index as usize].clone())
+                        Some(body_at(bodies, body_index)?)
                     },
                     collide_connected: seq
                     .next_element()?
@@ -140,11 +151,11 @@ impl<'de, U: UserDataType> DeserializeSeed<'de> for B2jointDefVisitorContext<U>
                         }
                         Field::body_a => {
                             let body_index: i32 = map.next_value()?;
-                            joint_def.body_a = Some(bodies.borrow()[body_index as usize].clone());
+                            joint_def.body_a = Some(body_at(bodies, body_index)?);
                         }
                         Field::body_b => {
                             let body_index: i32 = map.next_value()?;
-                            joint_def.body_b = Some(bodies.borrow()[body_index as usize].clone());
+                            joint_def.body_b = Some(body_at(bodies, body_index)?);
                         }
                         Field::collide_connected => {
                             joint_def.collide_connected = map.next_value()?;
diff --git a/src/serialize/serialize_b2_world.rs b/src/serialize/serialize_b2_world.rs
index 90dd09e..67d587e 100644
--- a/src/serialize/serialize_b2_world.rs
+++ b/src/serialize/serialize_b2_world.rs
@@ -277,6 +277,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
                 let mut world = None;
                 let mut m_body_array = None;
                 let mut m_all_joints = None;
+                let mut has_gear_joints = false;
 
                 while let Some(key) = map.next_key()? {
                     match key {
@@ -286,7 +287,7 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
                         }
                         Field::m_bodies_list => {                            
                             map.next_value_seed(B2bodyListContext {
-                                m_world: world.clone().unwrap(),
+                                m_world: world.clone().ok_or_else(|| de::Error::missing_field("m_gravity"))?,
                             })?;
 
                             m_body_array = Some(Rc::new(RefCell::new(bodies_in_document_order(world.as_ref().unwrap()))));
@@ -294,8 +295,8 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
                         Field::m_joints_list => {                          
  
                             map.next_value_seed(B2jointListContext {
-                                m_world: world.clone().unwrap(),
-                                m_body_array: m_body_array.clone().unwrap(),
+                                m_world: world.clone().ok_or_else(|| de::Error::missing_field("m_gravity"))?,
+                                m_body_array: m_body_array.clone().ok_or_else(|| de::Error::missing_field("m_bodies_list"))?,
                                 m_all_joints: Rc::default()
                             })?;
 
@@ -304,14 +305,18 @@ impl<'de, U: UserDataType> Deserialize<'de> for B2worldDeserializeResult<U> {
                         Field::m_gear_joints_list => {                          
 
                             map.next_value_seed(B2jointListContext {
-                                m_world: world.clone().unwrap(),
-                                m_body_array: m_body_array.clone().unwrap(),
-                                m_all_joints: m_all_joints.clone().unwrap()
+                                m_world: world.clone().ok_or_else(|| de::Error::missing_field("m_gravity"))?,
+                                m_body_array: m_body_array.clone().ok_or_else(|| de::Error::missing_field("m_bodies_list"))?,
+                                m_all_joints: m_all_joints.clone().ok_or_else(|| de::Error::missing_field("m_joints_list"))?
                             })?;
+                            has_gear_joints = true;
                         }
                     }
                 }
-                Ok(world.unwrap())
+                if !has_gear_joints {
+                    return Err(de::Error::missing_field("m_gear_joints_list"));
+                }
+                world.ok_or_else(|| de::Error::missing_field("m_gravity"))
             }
         }
 
diff --git a/src/shapes/serialize_b2_polygon_shape.rs b/src/shapes/serialize_b2_polygon_shape.rs
index df3baec..19269c2 100644
--- a/src/shapes/serialize_b2_polygon_shape.rs
+++ b/src/shapes/serialize_b2_polygon_shape.rs
@@ -90,6 +90,13 @@ impl Serialize for B2polygonShape
 	}
 }
 
+fn check_counts<E: de::Error>(vertex_count: usize, normal_count: usize) -> Result<(), E> {
+	if vertex_count < 3 || vertex_count != normal_count {
+		return Err(E::custom("a polygon needs at least three vertices and one normal for each"));
+	}
+	Ok(())
+}
+
 impl<'de> Deserialize<'de> for B2polygonShape {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where
@@ -131,6 +138,9 @@ impl<'de> Deserialize<'de> for B2polygonShape {
 						// Visit each element in the inner array and push it onto
 						// the existing vector.
 						while let Some(elem) = seq.next_element()? {
+							if *self.0.count >= B2_MAX_POLYGON_VERTICES {
+								return Err(de::Error::invalid_length(*self.0.count + 1, &self));
+							}
 							self.0.array[*self.0.count]=elem;
 							*self.0.count+=1;
 						}
@@ -165,9 +175,11 @@ impl<'de> Deserialize<'de> for B2polygonShape {
 				result.m_count=0;
 				seq.next_element_seed(VecArray{count: &mut result.m_count, array: &mut result.m_vertices})?
 					.ok_or_else(|| de::Error::invalid_length(0, &self))?;
+				let vertex_count = result.m_count;
 				result.m_count=0;
 				seq.next_element_seed(VecArray{count: &mut result.m_count, array: &mut result.m_normals})?
 					.ok_or_else(|| de::Error::invalid_length(0, &self))?;
+				check_counts(vertex_count, result.m_count)?;
 				Ok(result)
             }
 
@@ -176,6 +188,8 @@ impl<'de> Deserialize<'de> for B2polygonShape {
                 V: MapAccess<'de>,
             {
                 let mut result = B2polygonShape::default();
+                let mut vertex_count = 0;
+                let mut normal_count = 0;
                 while let Some(key) = map.next_key::<Field>()? {
                     match key {
                         Field::base => {
@@ -188,15 +202,17 @@ impl<'de> Deserialize<'de> for B2polygonShape {
                             result.m_count = map.next_value()?;
 						}
 						Field::m_vertices => {
-							result.m_count=0;
-							map.next_value_seed(VecArray{count: &mut result.m_count, array: &mut result.m_vertices})?;
+							vertex_count = 0;
+							map.next_value_seed(VecArray{count: &mut vertex_count, array: &mut result.m_vertices})?;
 						}
 						Field::m_normals => {
-							result.m_count=0;
-							map.next_value_seed(VecArray{count: &mut result.m_count, array: &mut result.m_normals})?;
+							normal_count = 0;
+							map.next_value_seed(VecArray{count: &mut normal_count, array: &mut result.m_normals})?;
 						}
                     }
                 }
+                check_counts(vertex_count, normal_count)?;
+                result.m_count = vertex_count;
                 Ok(result)
             }
         }
-- 
2.43.0


From 6eac34391a6dead56b5430c3b35e67f3ea364e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:24 +0000
Subject: [PATCH 10/24] Add a guarded clock seam for the profiling timer

With the sim_clock feature the timer reads its time from a function
installed by a simulator. The feature is off by default.
---
 Cargo.toml            |  2 ++
 src/b2_timer.rs       |  3 +++
 src/b2rs_sim_clock.rs | 32 ++++++++++++++++++++++++++++++++
 src/lib.rs            |  2 ++
 4 files changed, 39 insertions(+)
 create mode 100644 src/b2rs_sim_clock.rs

diff --git a/Cargo.toml b/Cargo.toml
index 74e4e7e..d4efdb6 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -24,6 +24,8 @@ strum_macros = {version ="0.24.3",  optional = true}
 
 [features]
 serde_support = ["serde", "strum", "strum_macros"]
+# Takes the time for profiling from a function installed by a simulator. Off by default.
+sim_clock = []
 
 [dev-dependencies]
 clipboard = "0.5.0"
diff --git a/src/b2_timer.rs b/src/b2_timer.rs
index b8c6bef..c142244 100644
--- a/src/b2_timer.rs
+++ b/src/b2_timer.rs
@@ -1,4 +1,7 @@
+#[cfg(not(feature = "sim_clock"))]
 use std::time::Instant;
+#[cfg(feature = "sim_clock")]
+use crate::b2rs_sim_clock::Instant;
 
 pub struct B2timer {
 	start: Instant,
diff --git a/src/b2rs_sim_clock.rs b/src/b2rs_sim_clock.rs
new file mode 100644
index 0000000..7586b82
--- /dev/null
+++ b/src/b2rs_sim_clock.rs
@@ -0,0 +1,32 @@
+//! Replacement for the wall clock when the engine runs inside a simulator.
+//! Only compiled with the `sim_clock` feature.
+use std::cell::Cell;
+use std::time::Duration;
+
+fn stopped() -> u64 {
+	0
+}
+
+thread_local! {
+	static SOURCE: Cell<fn() -> u64> = Cell::new(stopped);
+}
+
+/// Install the function that tells the current time in nanoseconds for this thread.
+pub fn set_source(source: fn() -> u64) {
+	SOURCE.with(|s| s.set(source));
+}
+
+#[derive(Clone, Copy)]
+pub(crate) struct Instant {
+	ns: u64,
+}
+
+impl Instant {
+	pub(crate) fn now() -> Self {
+		Instant { ns: SOURCE.with(|s| s.get())() }
+	}
+
+	pub(crate) fn elapsed(&self) -> Duration {
+		Duration::from_nanos(Self::now().ns.saturating_sub(self.ns))
+	}
+}
diff --git a/src/lib.rs b/src/lib.rs
index 4167d07..76b7908 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,6 +6,8 @@ pub mod b2_common;
 pub mod b2rs_common;
 pub mod b2_draw;
 pub mod b2_timer;
+#[cfg(feature = "sim_clock")]
+pub mod b2rs_sim_clock;
 
 pub mod shapes;
 
-- 
2.43.0


From 71dbe3af2dd2a134abb6204da566ea6a215fefc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:35:38 +0000
Subject: [PATCH 11/24] fix: let overlapping edge and chain fixtures coexist
 without a contact

Edges and chains never collide with each other, so no contact type is
registered for such a pair.  When their boxes overlapped and one body was
dynamic, the step panicked while looking up the missing contact type.  Skip
the pair instead.
---
 src/b2_contact.rs                          | 2 +-
 src/private/dynamics/b2_contact.rs         | 9 +++++----
 src/private/dynamics/b2_contact_manager.rs | 5 ++++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/b2_contact.rs b/src/b2_contact.rs
index bbca868..1d4f7f2 100644
--- a/src/b2_contact.rs
+++ b/src/b2_contact.rs
@@ -259,7 +259,7 @@ impl<D: UserDataType> B2contact<D> {
 		index_a: i32,
 		fixture_b: FixturePtr<D>,
 		index_b: i32,
-	) -> ContactPtr<D> {
+	) -> Option<ContactPtr<D>> {
 		return private::b2_contact_create(contact_manager, fixture_a, index_a, fixture_b, index_b);
 	}
 	pub(crate) fn destroy(self_: &dyn B2contactDynTrait<D>) {
diff --git a/src/private/dynamics/b2_contact.rs b/src/private/dynamics/b2_contact.rs
index 2a52dc7..69f1685 100644
--- a/src/private/dynamics/b2_contact.rs
+++ b/src/private/dynamics/b2_contact.rs
@@ -14,19 +14,20 @@ pub fn b2_contact_create<D: UserDataType>(
 	index_a: i32,
 	fixture_b: FixturePtr<D>,
 	index_b: i32,
-) -> ContactPtr<D> {
+) -> Option<ContactPtr<D>> {
 
 	let type1: B2ShapeType = fixture_a.borrow().get_type();
 	let type2: B2ShapeType = fixture_b.borrow().get_type();
 
 	let s_register = &contact_manager.m_registers.s_registers[type1 as usize][type2 as usize];
 
-	let create_fcn = s_register.create_fcn.unwrap();
+	// Some pairs of shape types (edge or chain against edge or chain) never collide.
+	let create_fcn = s_register.create_fcn?;
 
 	if s_register.primary {
-		return create_fcn(fixture_a, index_a, fixture_b, index_b);
+		return Some(create_fcn(fixture_a, index_a, fixture_b, index_b));
 	} else {
-		return create_fcn(fixture_b, index_b, fixture_a, index_a);
+		return Some(create_fcn(fixture_b, index_b, fixture_a, index_a));
 	}
 }
 
diff --git a/src/private/dynamics/b2_contact_manager.rs b/src/private/dynamics/b2_contact_manager.rs
index d9485ef..0b9e941 100644
--- a/src/private/dynamics/b2_contact_manager.rs
+++ b/src/private/dynamics/b2_contact_manager.rs
@@ -253,7 +253,10 @@ pub fn b2_contact_manager_add_pair<D: UserDataType>(
 	}
 
 	// Call the factory.
-	let c = B2contact::create(&*self_, fixture_a, index_a, fixture_b, index_b);
+	let c = match B2contact::create(&*self_, fixture_a, index_a, fixture_b, index_b) {
+		Some(c) => c,
+		None => return,
+	};
 
 	// Contact creation may swap fixtures.
 	let fixture_a = c.borrow().get_base().get_fixture_a();
-- 
2.43.0


From c0640ecc6fbea8107c6010c04c5a9c6cfda26040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:30 +0000
Subject: [PATCH 12/24] fix: skip sensors when picking the earliest cached time
 of impact

With sub-stepping on, a contact can keep its cached time of impact while the
caller turns one of its fixtures into a sensor.  The contact was then handed
to the solver without any contact points and the step panicked.
---
 src/private/dynamics/b2_world.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/private/dynamics/b2_world.rs b/src/private/dynamics/b2_world.rs
index e2c6e3c..d9f72d7 100644
--- a/src/private/dynamics/b2_world.rs
+++ b/src/private/dynamics/b2_world.rs
@@ -579,19 +579,19 @@ pub(crate) fn solve_toi<D: UserDataType>(self_: &mut B2world<D>, step: B2timeSte
 				continue;
 			}
 
+			let f_a = c_base.get_fixture_a();
+			let f_b = c_base.get_fixture_b();
+
+			// Is there a sensor?
+			if f_a.borrow().is_sensor() || f_b.borrow().is_sensor() {
+				continue;
+			}
+
 			let alpha: f32;
 			if c_base.m_flags.contains(ContactFlags::E_TOI_FLAG) {
 				// This contact has a valid cached TOI.
 				alpha = c_base.m_toi;
 			} else {
-				let f_a = c_base.get_fixture_a();
-				let f_b = c_base.get_fixture_b();
-
-				// Is there a sensor?
-				if f_a.borrow().is_sensor() || f_b.borrow().is_sensor() {
-					continue;
-				}
-
 				let b_a = f_a.borrow().get_body();
 				let b_b = f_b.borrow().get_body();
 
-- 
2.43.0


From 3549cfe31419ce83c8b1347f28d6e74a31154767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:37 +0000
Subject: [PATCH 13/24] fix: polygon ray cast ignores hits in the first 3.2% of
 the ray

The lower bound of the clipped ray started at 0.032 instead of 0, so a
ray starting close to a polygon passed through it.
---
 src/private/collision/b2_polygon_shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/collision/b2_polygon_shape.rs b/src/private/collision/b2_polygon_shape.rs
index 5b28678..979ca69 100644
--- a/src/private/collision/b2_polygon_shape.rs
+++ b/src/private/collision/b2_polygon_shape.rs
@@ -237,7 +237,7 @@ pub fn b2_shape_dyn_trait_ray_cast(
 	let p2: B2vec2 = b2_mul_t_rot_by_vec2(xf.q, input.p2 - xf.p);
 	let d: B2vec2 = p2 - p1;
 
-	let (mut lower, mut upper) = (0.032, input.max_fraction);
+	let (mut lower, mut upper) = (0.0, input.max_fraction);
 
 	let mut index: i32 = -1;
 
-- 
2.43.0


From 5656df7dbaa7210095dbb43132429f4900b8cd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:04 +0000
Subject: [PATCH 14/24] fix: a sensor turned solid while asleep reaches the
 solver without contact points

A contact that was touching as a sensor keeps its touching flag until its
next update.  When the fixture became solid and its body went to sleep
before that, an awake neighbour pulled the contact into an island and the
contact solver asserted on its empty manifold.
---
 src/private/dynamics/b2_world.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/private/dynamics/b2_world.rs b/src/private/dynamics/b2_world.rs
index d9f72d7..3e41bed 100644
--- a/src/private/dynamics/b2_world.rs
+++ b/src/private/dynamics/b2_world.rs
@@ -448,6 +448,11 @@ pub(crate) fn solve<D: UserDataType>(self_: &mut B2world<D>, step: B2timeStep) {
 					continue;
 				}
 
+				// A contact that was a sensor and has not been updated since has no points yet.
+				if contact_base.m_manifold.point_count == 0 {
+					continue;
+				}
+
 				island.add_contact(contact.clone());
 				contact_base.m_flags.insert(ContactFlags::E_ISLAND_FLAG);
 
-- 
2.43.0


From d550f304742295f4d258a3c454832660984a49cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:08 +0000
Subject: [PATCH 15/24] fix: finish a sub-stepped step when continuous physics
 is turned off

With sub-stepping on, a step that still has impacts to handle is continued
by the following calls. Turning continuous physics off in between left the
step unfinished for good, and no body moved any more.
---
 src/b2_world.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/b2_world.rs b/src/b2_world.rs
index 9998faa..5688f6c 100644
--- a/src/b2_world.rs
+++ b/src/b2_world.rs
@@ -179,6 +179,10 @@ impl<D: UserDataType> B2world<D> {
 	/// Enable/disable continuous physics. For testing.
 	pub fn set_continuous_physics(&mut self, flag: bool) {
 		self.m_continuous_physics = flag;
+		if flag == false {
+			// A step left unfinished by sub-stepping would otherwise never be completed.
+			self.m_step_complete = true;
+		}
 	}
 	pub fn get_continuous_physics(&self) -> bool {
 		return self.m_continuous_physics;
-- 
2.43.0


From 17e43c2f4dae3c7fe0a5edcf7c3a199e5389aa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:38:26 +0000
Subject: [PATCH 16/24] fix: reset distance joint limit impulses when warm
 starting is off

Without warm starting the accumulated lower and upper limit impulses were
carried over from the step before without being applied. The limits then
started from an impulse the bodies never received, could pull where they may
only push, and the reported reaction force kept growing.
---
 src/private/dynamics/joints/b2_distance_joint.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/dynamics/joints/b2_distance_joint.rs b/src/private/dynamics/joints/b2_distance_joint.rs
index 0675253..da4a78b 100644
--- a/src/private/dynamics/joints/b2_distance_joint.rs
+++ b/src/private/dynamics/joints/b2_distance_joint.rs
@@ -172,6 +172,8 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(
 		w_b += self_.m_inv_ib * b2_cross(self_.m_r_b, p);
 	} else {
 		self_.m_impulse = 0.0;
+		self_.m_lower_impulse = 0.0;
+		self_.m_upper_impulse = 0.0;
 	}
 
 	velocities[self_.m_index_a].v = v_a;
-- 
2.43.0


From 9d19d910581902d89a4582c8aec9d695cede639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:14:16 +0000
Subject: [PATCH 17/24] fix: reject snapshots with invalid joint definitions
 instead of panicking

A text snapshot cut inside a number, or one with a damaged reference, could
give a pulley with ratio zero, a joint between a body and itself, reversed
limits or a gear on a fixed body. Creating such a joint panics.
---
 src/serialize/serialize_b2_body.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/serialize/serialize_b2_body.rs b/src/serialize/serialize_b2_body.rs
index c4a3efb..72efef8 100644
--- a/src/serialize/serialize_b2_body.rs
+++ b/src/serialize/serialize_b2_body.rs
@@ -220,19 +220,38 @@ fn create_joint<D: UserDataType, E: de::Error>(
                 {
                     return Err(E::custom("a gear joint needs revolute or prismatic joints"));
                 }
+                let driven = joint.borrow().get_base().get_body_b();
+                if driven.borrow().get_type() != B2bodyType::B2DynamicBody {
+                    return Err(E::custom("a gear joint needs dynamic bodies"));
+                }
             }
             &def.base
         }
         B2JointDefEnum::MouseJoint(def) => &def.base,
         B2JointDefEnum::MotorJoint(def) => &def.base,
-        B2JointDefEnum::PulleyJoint(def) => &def.base,
+        B2JointDefEnum::PulleyJoint(def) => {
+            if def.ratio == 0.0 {
+                return Err(E::custom("a pulley joint needs a ratio other than zero"));
+            }
+            &def.base
+        }
         B2JointDefEnum::RevoluteJoint(def) => &def.base,
-        B2JointDefEnum::PrismaticJoint(def) => &def.base,
+        B2JointDefEnum::PrismaticJoint(def) => {
+            if def.lower_translation > def.upper_translation {
+                return Err(E::custom("a prismatic joint needs a lower limit below its upper limit"));
+            }
+            &def.base
+        }
         B2JointDefEnum::WeldJoint(def) => &def.base,
         B2JointDefEnum::WheelJoint(def) => &def.base,
     };
-    if base.body_a.is_none() || base.body_b.is_none() {
-        return Err(E::missing_field("base"));
+    match (&base.body_a, &base.body_b) {
+        (Some(body_a), Some(body_b)) => {
+            if Rc::ptr_eq(body_a, body_b) {
+                return Err(E::custom("a joint needs two different bodies"));
+            }
+        }
+        _ => return Err(E::missing_field("base")),
     }
     Ok(world.borrow_mut().create_joint(&def))
 }
-- 
2.43.0


From f41a3b554bedabaed7a5dc9eed0c6350979953e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:10 +0000
Subject: [PATCH 18/24] fix: drop the stale impulse of a distance joint that
 became slack

---
 src/private/dynamics/joints/b2_distance_joint.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/private/dynamics/joints/b2_distance_joint.rs b/src/private/dynamics/joints/b2_distance_joint.rs
index da4a78b..a56089b 100644
--- a/src/private/dynamics/joints/b2_distance_joint.rs
+++ b/src/private/dynamics/joints/b2_distance_joint.rs
@@ -157,6 +157,11 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(
 		self_.m_gamma = 0.0;
 		self_.m_bias = 0.0;
 		self_.m_soft_mass = self_.m_mass;
+
+		if self_.m_min_length < self_.m_max_length {
+			// Only the limits act: drop what a former spring or rigid constraint left behind.
+			self_.m_impulse = 0.0;
+		}
 	}
 
 	if data.step.warm_starting {
-- 
2.43.0


From be66ae421b171e1c9ac6680be2f494f1c527475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:51:19 +0000
Subject: [PATCH 19/24] fix: hold sliding joints with equal limits at the limit
 instead of the origin

---
 src/private/dynamics/joints/b2_prismatic_joint.rs | 4 ++--
 src/private/dynamics/joints/b2_wheel_joint.rs     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/private/dynamics/joints/b2_prismatic_joint.rs b/src/private/dynamics/joints/b2_prismatic_joint.rs
index fcebeba..42ff342 100644
--- a/src/private/dynamics/joints/b2_prismatic_joint.rs
+++ b/src/private/dynamics/joints/b2_prismatic_joint.rs
@@ -382,8 +382,8 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(
 	if self_.m_enable_limit {
 		let translation: f32 = b2_dot(axis, d);
 		if b2_abs(self_.m_upper_translation - self_.m_lower_translation) < 2.0 * B2_LINEAR_SLOP {
-			c2 = translation;
-			linear_error = b2_max(linear_error, b2_abs(translation));
+			c2 = translation - self_.m_lower_translation;
+			linear_error = b2_max(linear_error, b2_abs(c2));
 			active = true;
 		} else if translation <= self_.m_lower_translation {
 			c2 = b2_min(translation - self_.m_lower_translation, 0.0);
diff --git a/src/private/dynamics/joints/b2_wheel_joint.rs b/src/private/dynamics/joints/b2_wheel_joint.rs
index 6caa2b8..bb13b4f 100644
--- a/src/private/dynamics/joints/b2_wheel_joint.rs
+++ b/src/private/dynamics/joints/b2_wheel_joint.rs
@@ -301,7 +301,7 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(
 		let mut c: f32 = 0.0;
 		let translation: f32 = b2_dot(ax, d);
 		if b2_abs(self_.m_upper_translation - self_.m_lower_translation) < 2.0 * B2_LINEAR_SLOP {
-			c = translation;
+			c = translation - self_.m_lower_translation;
 		} else if translation <= self_.m_lower_translation {
 			c = b2_min(translation - self_.m_lower_translation, 0.0);
 		} else if translation >= self_.m_upper_translation {
-- 
2.43.0


From 33a405262e13248791707517a1b7f1c0e96720e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:16 +0000
Subject: [PATCH 20/24] fix: skip rope bending between points that are all
 pinned

Three neighbouring points without mass made the angle and triangle bending
models divide zero by zero, and the points became NaN.
---
 src/private/rope/b2_rope.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/private/rope/b2_rope.rs b/src/private/rope/b2_rope.rs
index 9ebfe3e..4751d9e 100644
--- a/src/private/rope/b2_rope.rs
+++ b/src/private/rope/b2_rope.rs
@@ -382,6 +382,10 @@ pub(crate) fn solve_bend_pbd_angle(_self: &mut B2rope) {
 			sum = c.inv_effective_mass;
 		}
 
+		if sum == 0.0 {
+			continue;
+		}
+
 		let impulse: f32 = -stiffness * angle / sum;
 
 		p1 += (c.inv_mass1 * impulse) * j1;
@@ -635,6 +639,10 @@ fn solve_bend_pbd_triangle(_self: &mut B2rope)
 		let wb1: f32 = c.inv_mass3;
 
 		let w: f32 = wb0 + wb1 + 2.0 * wv;
+		if w == 0.0 {
+			continue;
+		}
+
 		let inv_w: f32 = stiffness / w;
 
 		let d: B2vec2 = v - (1.0 / 3.0) * (b0 + v + b1);
-- 
2.43.0


From faba216684fffcd86a5142825d80c5eb90b29f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:16 +0000
Subject: [PATCH 21/24] fix: treat a rope spring with zero frequency as absent

With the compliant (XPBD) stretching or bending model a frequency of zero,
which is the default for stretching, made the compliance infinite and every
point NaN. Such a spring now applies nothing.
---
 src/private/rope/b2_rope.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/rope/b2_rope.rs b/src/private/rope/b2_rope.rs
index 4751d9e..013d30f 100644
--- a/src/private/rope/b2_rope.rs
+++ b/src/private/rope/b2_rope.rs
@@ -306,7 +306,7 @@ pub(crate) fn solve_stretch_xpbd(_self: &mut B2rope, dt: f32) {
 		let j2: B2vec2 = u;
 
 		let sum: f32 = c.inv_mass1 + c.inv_mass2;
-		if sum == 0.0 {
+		if sum == 0.0 || c.spring == 0.0 {
 			continue;
 		}
 
@@ -449,7 +449,7 @@ pub(crate) fn solve_bend_xpbd_angle(_self: &mut B2rope, dt: f32) {
 				+ c.inv_mass3 * b2_dot(j3, j3);
 		}
 
-		if sum == 0.0 {
+		if sum == 0.0 || c.spring == 0.0 {
 			continue;
 		}
 
-- 
2.43.0


From 0756540f472d1c6ad94651013f68115090598ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:52:51 +0000
Subject: [PATCH 22/24] fix: do not sweep a body put to sleep along its
 previous step again

A sleeping body is not integrated, so its sweep kept the start of the last
step it was awake for. A continuous collision with it then moved it back
along that motion, without updating its boxes.
---
 src/b2_body.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/b2_body.rs b/src/b2_body.rs
index c6212b6..57c6aef 100644
--- a/src/b2_body.rs
+++ b/src/b2_body.rs
@@ -797,6 +797,10 @@ mod inline {
 			self_.m_angular_velocity = 0.0;
 			self_.m_force.set_zero();
 			self_.m_torque = 0.0;
+
+			// A sleeping body is not integrated, so the motion of its last step must not be swept again.
+			self_.m_sweep.c0 = self_.m_sweep.c;
+			self_.m_sweep.a0 = self_.m_sweep.a;
 		}
 	}
 
-- 
2.43.0


From 080ca16180ee76f9f298137f44855c2aa14568fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:51:18 +0000
Subject: [PATCH 23/24] fix: never push a polygon out of the back of a
 one-sided edge

When the centroid of an asymmetric polygon had just passed a one-sided edge
from behind, the axis with the least overlap could point backwards, and the
edge pushed the polygon back instead of letting it through.
---
 src/private/collision/b2_collide_edge.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/private/collision/b2_collide_edge.rs b/src/private/collision/b2_collide_edge.rs
index bd9344f..3713f0a 100644
--- a/src/private/collision/b2_collide_edge.rs
+++ b/src/private/collision/b2_collide_edge.rs
@@ -169,7 +169,12 @@ struct B2referenceFace {
 	side_offset2: f32,
 }
 
-fn b2_compute_edge_separation(polygon_b: B2tempPolygon, v1: B2vec2, normal1: B2vec2) -> B2epaxis {
+fn b2_compute_edge_separation(
+	polygon_b: B2tempPolygon,
+	v1: B2vec2,
+	normal1: B2vec2,
+	one_sided: bool,
+) -> B2epaxis {
 	let mut axis = B2epaxis {
 		axis_type: B2ePAxisType::EEdgeA,
 		index: -1,
@@ -179,8 +184,11 @@ fn b2_compute_edge_separation(polygon_b: B2tempPolygon, v1: B2vec2, normal1: B2v
 
 	let axes: [B2vec2; 2] = [normal1, -normal1];
 
+	// A one-sided edge only pushes towards its front.
+	let axis_count = if one_sided { 1 } else { 2 };
+
 	// Find axis with least overlap (min-max problem)
-	for j in 0..2 {
+	for j in 0..axis_count {
 		let mut sj: f32 = B2_MAX_FLOAT;
 
 		// Find deepest polygon vertex along axis j
@@ -265,7 +273,7 @@ pub fn b2_collide_edge_and_polygon(
 
 	let radius: f32 = polygon_b.base.m_radius + edge_a.base.m_radius;
 
-	let edge_axis: B2epaxis = b2_compute_edge_separation(temp_polygon_b, v1, normal1);
+	let edge_axis: B2epaxis = b2_compute_edge_separation(temp_polygon_b, v1, normal1, one_sided);
 	if edge_axis.separation > radius {
 		return;
 	}
@@ -289,6 +297,11 @@ pub fn b2_collide_edge_and_polygon(
 	}
 
 	if one_sided {
+		// The back of the edge does not push
+		if b2_dot(primary_axis.normal, normal1) < 0.0 {
+			primary_axis = edge_axis;
+		}
+
 		// Smooth collision
 		// See https://box2d.org/posts/2020/06/ghost-collisions/
 
-- 
2.43.0


From 7a606ca502046319b0e07b39602431336bde4843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:42:21 +0000
Subject: [PATCH 24/24] fix: keep a gear's reaction on a body shared by its two
 joints

When both joints of a gear start from the same moving body, the velocity and
position updates for one joint overwrote those for the other, so momentum was
not conserved. The updates are now made in place.
---
 src/private/dynamics/joints/b2_gear_joint.rs | 119 +++++++------------
 1 file changed, 41 insertions(+), 78 deletions(-)

diff --git a/src/private/dynamics/joints/b2_gear_joint.rs b/src/private/dynamics/joints/b2_gear_joint.rs
index 152b11a..544cebb 100644
--- a/src/private/dynamics/joints/b2_gear_joint.rs
+++ b/src/private/dynamics/joints/b2_gear_joint.rs
@@ -209,20 +209,9 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(self_: &mut B2gearJoint
 	self_.m_i_d = m_body_d.m_inv_i;
 
 	let a_a: f32 =positions[self_.m_index_a as usize].a;
-	let mut v_a: B2vec2 =velocities[self_.m_index_a as usize].v;
-	let mut w_a: f32 =velocities[self_.m_index_a as usize].w;
-
 	let a_b: f32 =positions[self_.m_index_b as usize].a;
-	let mut v_b: B2vec2 =velocities[self_.m_index_b as usize].v;
-	let mut w_b: f32 =velocities[self_.m_index_b as usize].w;
-
 	let a_c: f32 =positions[self_.m_index_c as usize].a;
-	let mut v_c: B2vec2 =velocities[self_.m_index_c as usize].v;
-	let mut w_c: f32 =velocities[self_.m_index_c as usize].w;
-
 	let a_d: f32 =positions[self_.m_index_d as usize].a;
-	let mut v_d: B2vec2 =velocities[self_.m_index_d as usize].v;
-	let mut w_d: f32 =velocities[self_.m_index_d as usize].w;
 
 	let (q_a, q_b, q_c, q_d) = (B2Rot::new(a_a),B2Rot::new(a_b),B2Rot::new(a_c),B2Rot::new(a_d));
 
@@ -268,43 +257,35 @@ pub(crate) fn init_velocity_constraints<D: UserDataType>(self_: &mut B2gearJoint
 	// Compute effective mass.
 	self_.m_mass = if self_.m_mass > 0.0 { 1.0 / self_.m_mass } else {0.0};
 
+	// Note: bodies may be shared between the two joints, so the velocities are updated in place.
 	if data.step.warm_starting
 	{
-		v_a += (self_.m_m_a * self_.m_impulse) * self_.m_jv_ac;
-		w_a += self_.m_i_a * self_.m_impulse * self_.m_jw_a;
-		v_b += (self_.m_m_b * self_.m_impulse) * self_.m_jv_bd;
-		w_b += self_.m_i_b * self_.m_impulse * self_.m_jw_b;
-		v_c -= (self_.m_m_c * self_.m_impulse) * self_.m_jv_ac;
-		w_c -= self_.m_i_c * self_.m_impulse * self_.m_jw_c;
-		v_d -= (self_.m_m_d * self_.m_impulse) * self_.m_jv_bd;
-		w_d -= self_.m_i_d * self_.m_impulse * self_.m_jw_d;
+		velocities[self_.m_index_a as usize].v += (self_.m_m_a * self_.m_impulse) * self_.m_jv_ac;
+		velocities[self_.m_index_a as usize].w += self_.m_i_a * self_.m_impulse * self_.m_jw_a;
+		velocities[self_.m_index_b as usize].v += (self_.m_m_b * self_.m_impulse) * self_.m_jv_bd;
+		velocities[self_.m_index_b as usize].w += self_.m_i_b * self_.m_impulse * self_.m_jw_b;
+		velocities[self_.m_index_c as usize].v -= (self_.m_m_c * self_.m_impulse) * self_.m_jv_ac;
+		velocities[self_.m_index_c as usize].w -= self_.m_i_c * self_.m_impulse * self_.m_jw_c;
+		velocities[self_.m_index_d as usize].v -= (self_.m_m_d * self_.m_impulse) * self_.m_jv_bd;
+		velocities[self_.m_index_d as usize].w -= self_.m_i_d * self_.m_impulse * self_.m_jw_d;
 	}
 	else
 	{
 		self_.m_impulse = 0.0;
 	}
-
-	velocities[self_.m_index_a as usize].v = v_a;
-	velocities[self_.m_index_a as usize].w = w_a;
-	velocities[self_.m_index_b as usize].v = v_b;
-	velocities[self_.m_index_b as usize].w = w_b;
-	velocities[self_.m_index_c as usize].v = v_c;
-	velocities[self_.m_index_c as usize].w = w_c;
-	velocities[self_.m_index_d as usize].v = v_d;
-	velocities[self_.m_index_d as usize].w = w_d;
 }
 
 pub(crate) fn solve_velocity_constraints<D: UserDataType>(self_: &mut B2gearJoint<D>, 
 	_data: &B2solverData, velocities: &mut [B2velocity])
 {
-	let mut v_a: B2vec2 =velocities[self_.m_index_a as usize].v;
-	let mut w_a: f32 =velocities[self_.m_index_a as usize].w;
-	let mut v_b: B2vec2 =velocities[self_.m_index_b as usize].v;
-	let mut w_b: f32 =velocities[self_.m_index_b as usize].w;
-	let mut v_c: B2vec2 =velocities[self_.m_index_c as usize].v;
-	let mut w_c: f32 =velocities[self_.m_index_c as usize].w;
-	let mut v_d: B2vec2 =velocities[self_.m_index_d as usize].v;
-	let mut w_d: f32 =velocities[self_.m_index_d as usize].w;
+	let v_a: B2vec2 =velocities[self_.m_index_a as usize].v;
+	let w_a: f32 =velocities[self_.m_index_a as usize].w;
+	let v_b: B2vec2 =velocities[self_.m_index_b as usize].v;
+	let w_b: f32 =velocities[self_.m_index_b as usize].w;
+	let v_c: B2vec2 =velocities[self_.m_index_c as usize].v;
+	let w_c: f32 =velocities[self_.m_index_c as usize].w;
+	let v_d: B2vec2 =velocities[self_.m_index_d as usize].v;
+	let w_d: f32 =velocities[self_.m_index_d as usize].w;
 
 	let mut cdot: f32 =b2_dot(self_.m_jv_ac, v_a - v_c) + b2_dot(self_.m_jv_bd, v_b - v_d);
 	cdot += (self_.m_jw_a * w_a - self_.m_jw_c * w_c) + (self_.m_jw_b * w_b - self_.m_jw_d * w_d);
@@ -312,36 +293,27 @@ pub(crate) fn solve_velocity_constraints<D: UserDataType>(self_: &mut B2gearJoin
 	let impulse: f32 =-self_.m_mass * cdot;
 	self_.m_impulse += impulse;
 
-	v_a += (self_.m_m_a * impulse) * self_.m_jv_ac;
-	w_a += self_.m_i_a * impulse * self_.m_jw_a;
-	v_b += (self_.m_m_b * impulse) * self_.m_jv_bd;
-	w_b += self_.m_i_b * impulse * self_.m_jw_b;
-	v_c -= (self_.m_m_c * impulse) * self_.m_jv_ac;
-	w_c -= self_.m_i_c * impulse * self_.m_jw_c;
-	v_d -= (self_.m_m_d * impulse) * self_.m_jv_bd;
-	w_d -= self_.m_i_d * impulse * self_.m_jw_d;
-
-	velocities[self_.m_index_a as usize].v = v_a;
-	velocities[self_.m_index_a as usize].w = w_a;
-	velocities[self_.m_index_b as usize].v = v_b;
-	velocities[self_.m_index_b as usize].w = w_b;
-	velocities[self_.m_index_c as usize].v = v_c;
-	velocities[self_.m_index_c as usize].w = w_c;
-	velocities[self_.m_index_d as usize].v = v_d;
-	velocities[self_.m_index_d as usize].w = w_d;
+	velocities[self_.m_index_a as usize].v += (self_.m_m_a * impulse) * self_.m_jv_ac;
+	velocities[self_.m_index_a as usize].w += self_.m_i_a * impulse * self_.m_jw_a;
+	velocities[self_.m_index_b as usize].v += (self_.m_m_b * impulse) * self_.m_jv_bd;
+	velocities[self_.m_index_b as usize].w += self_.m_i_b * impulse * self_.m_jw_b;
+	velocities[self_.m_index_c as usize].v -= (self_.m_m_c * impulse) * self_.m_jv_ac;
+	velocities[self_.m_index_c as usize].w -= self_.m_i_c * impulse * self_.m_jw_c;
+	velocities[self_.m_index_d as usize].v -= (self_.m_m_d * impulse) * self_.m_jv_bd;
+	velocities[self_.m_index_d as usize].w -= self_.m_i_d * impulse * self_.m_jw_d;
 }
 
 pub(crate) fn solve_position_constraints<D: UserDataType>(self_: &B2gearJoint<D>,
 	_data: &B2solverData, positions: &mut [B2position])->bool
 {
-	let mut c_a: B2vec2 =positions[self_.m_index_a as usize].c;
-	let mut a_a: f32 =positions[self_.m_index_a as usize].a;
-	let mut c_b: B2vec2 =positions[self_.m_index_b as usize].c;
-	let mut a_b: f32 =positions[self_.m_index_b as usize].a;
-	let mut c_c: B2vec2 =positions[self_.m_index_c as usize].c;
-	let mut a_c: f32 =positions[self_.m_index_c as usize].a;
-	let mut c_d: B2vec2 =positions[self_.m_index_d as usize].c;
-	let mut a_d: f32 =positions[self_.m_index_d as usize].a;
+	let c_a: B2vec2 =positions[self_.m_index_a as usize].c;
+	let a_a: f32 =positions[self_.m_index_a as usize].a;
+	let c_b: B2vec2 =positions[self_.m_index_b as usize].c;
+	let a_b: f32 =positions[self_.m_index_b as usize].a;
+	let c_c: B2vec2 =positions[self_.m_index_c as usize].c;
+	let a_c: f32 =positions[self_.m_index_c as usize].a;
+	let c_d: B2vec2 =positions[self_.m_index_d as usize].c;
+	let a_d: f32 =positions[self_.m_index_d as usize].a;
 
 	let (q_a, q_b, q_c, q_d) = (B2Rot::new(a_a),B2Rot::new(a_b),B2Rot::new(a_c),B2Rot::new(a_d));
 
@@ -414,23 +386,14 @@ pub(crate) fn solve_position_constraints<D: UserDataType>(self_: &B2gearJoint<D>
 		impulse = -c / mass;
 	}
 
-	c_a += self_.m_m_a * impulse * jv_ac;
-	a_a += self_.m_i_a * impulse * jw_a;
-	c_b += self_.m_m_b * impulse * jv_bd;
-	a_b += self_.m_i_b * impulse * jw_b;
-	c_c -= self_.m_m_c * impulse * jv_ac;
-	a_c -= self_.m_i_c * impulse * jw_c;
-	c_d -= self_.m_m_d * impulse * jv_bd;
-	a_d -= self_.m_i_d * impulse * jw_d;
-
-	positions[self_.m_index_a as usize].c = c_a;
-	positions[self_.m_index_a as usize].a = a_a;
-	positions[self_.m_index_b as usize].c = c_b;
-	positions[self_.m_index_b as usize].a = a_b;
-	positions[self_.m_index_c as usize].c = c_c;
-	positions[self_.m_index_c as usize].a = a_c;
-	positions[self_.m_index_d as usize].c = c_d;
-	positions[self_.m_index_d as usize].a = a_d;
+	positions[self_.m_index_a as usize].c += self_.m_m_a * impulse * jv_ac;
+	positions[self_.m_index_a as usize].a += self_.m_i_a * impulse * jw_a;
+	positions[self_.m_index_b as usize].c += self_.m_m_b * impulse * jv_bd;
+	positions[self_.m_index_b as usize].a += self_.m_i_b * impulse * jw_b;
+	positions[self_.m_index_c as usize].c -= self_.m_m_c * impulse * jv_ac;
+	positions[self_.m_index_c as usize].a -= self_.m_i_c * impulse * jw_c;
+	positions[self_.m_index_d as usize].c -= self_.m_m_d * impulse * jv_bd;
+	positions[self_.m_index_d as usize].a -= self_.m_i_d * impulse * jw_d;
 
 	// TODO_ERIN not implemented
 	return linear_error < B2_LINEAR_SLOP;
-- 
2.43.0

