#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line). Kept so that the property text has one source."""
import json, os, re
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Same history, same bits: the simulation is deterministic",
  "Running the same history of calls and time steps on a fresh world always gives bit-identical body states and the identical sequence of callbacks. "
  "The result does not depend on wall-clock time, heap addresses, memory reuse, how often or when statistics are read, or other work done in the process.",
  ["histories", "schedules", "configurations"],
  "every history of creations, changes, destructions, steps with any dt sequence and any clock behaviour (jumps, stalls, backwards)",
  "The suite runs each scenario once and never compares two executions; nondeterminism that enters through addresses, clocks or left-over state needs repeated, perturbed executions.",
  ["src/private/dynamics/b2_world.rs", "src/private/dynamics/b2_contact_manager.rs", "src/private/collision/b2_broad_phase.rs", "src/private/dynamics/b2_island_private.rs", "src/b2_timer.rs"],
  [("pair buffer order in the broad phase", "src/private/collision/b2_broad_phase.rs"), ("island building order", "src/private/dynamics/b2_world.rs"), ("timers are used for profiling only", "src/b2_timer.rs")],
  ["body positions/angles/velocities", "contact listener callbacks", "step()"],
  "clock seam for the profiling timer (guarded)")

p("C02", "Lists, counts and links stay mutually consistent after any history",
  "After any history of calls the reported body, joint, contact and proxy counts equal the number of reachable objects, each live object is reachable exactly once from each list it belongs to, and both ends of each joint and contact list it exactly once. "
  "Destroyed objects are never reachable again, and a fixture owns one proxy per shape child exactly while its body is enabled.",
  ["histories"],
  "every interleaving of create/destroy/enable/type/filter changes, steps and refused calls",
  "The five tests build at most a handful of objects and destroy almost nothing, so list surgery in the middle, at the head and under contacts/joints is not reached.",
  ["src/b2_world.rs", "src/private/dynamics/b2_world.rs", "src/private/dynamics/b2_body.rs", "src/private/dynamics/b2_contact_manager.rs", "src/b2rs_double_linked_list.rs", "src/b2rs_linked_list.rs"],
  [("intrusive list insert/remove", "src/b2rs_double_linked_list.rs"), ("destroy_body cascade", "src/private/dynamics/b2_world.rs"), ("contact creation/destruction", "src/private/dynamics/b2_contact_manager.rs")],
  ["get_body_list/get_joint_list/get_contact_list", "body/fixture/joint/contact edge lists", "get_*_count"])

p("C03", "Begin and end touching are reported exactly once and in pairs",
  "For every contact, begin and end notifications strictly alternate starting with begin. "
  "Between steps the set of contacts begun but not ended is exactly the set of contacts reported as touching, however the contact disappears: separation, destruction of a body or fixture, disabling, type, filter or joint change. "
  "An object is never mentioned in a callback after it was reported destroyed.",
  ["histories", "schedules"],
  "every history of steps (including zero and varying dt, continuous collision on/off, sub-stepping) and structural changes",
  "One test counts a single begin for one falling circle; ends, and every way of losing a contact other than separation, are not exercised.",
  ["src/private/dynamics/b2_contact.rs", "src/private/dynamics/b2_contact_manager.rs", "src/private/dynamics/b2_world.rs", "src/private/dynamics/b2_body.rs"],
  [("touching flag vs. previous manifold in contact update", "src/private/dynamics/b2_contact.rs"), ("end notification on destroy", "src/private/dynamics/b2_contact_manager.rs")],
  ["contact listener", "is_touching()"])

p("C04", "Touching contacts match the geometry, none missing and none invented",
  "When a step completes its collision phase, every pair of fixtures that may collide and whose shapes clearly overlap has a touching contact, and every pair whose shapes are clearly apart has none. "
  "The contact points handed to the listener lie where the two shapes meet, no deeper than the shapes overlap along the normal, and between solid shapes the normal is the way out with the least overlap. "
  "This holds for every shape kind, touching for sensors too, after teleports, type changes and re-enabling, and however the bodies arrived there.",
  ["histories", "inputs"],
  "every history and placement; pairs within a stated tolerance of touching are not judged, nor pairs with no awake moving body",
  "Tests place one circle on one box; missed pairs appear only after particular sequences of movement, sleeping, proxy enlargement, teleport and re-creation.",
  ["src/private/collision/b2_broad_phase.rs", "src/private/collision/b2_dynamic_tree.rs", "src/private/dynamics/b2_contact_manager.rs", "src/private/dynamics/b2_contact.rs", "src/private/collision/b2_collide_polygon.rs", "src/private/collision/b2_collide_edge.rs", "src/private/collision/b2_collide_circle.rs"],
  [("pair discovery from moved proxies", "src/private/collision/b2_broad_phase.rs"), ("narrow phase per shape pair", "src/private/dynamics/contacts/"), ("fat box synchronisation", "src/private/dynamics/b2_fixture.rs")],
  ["contact list", "is_touching()", "get_manifold()"])

p("C05", "Only pairs allowed to collide ever have a contact",
  "No contact exists after a step between fixtures of one body, between two bodies of which neither is dynamic, between bodies linked by a joint that forbids collision, with a disabled body, or against the current filter data or the installed filter callback's answer. "
  "Changes of filter data, joints, body type or enabled state take effect for existing contacts by the next step, and pairs that become allowed again collide again.",
  ["histories"],
  "every order of filter changes, joint creation/destruction, type and enabled changes relative to contacts and steps",
  "No test changes a filter, a type, the enabled flag or adds a joint to touching bodies.",
  ["src/private/dynamics/b2_contact_manager.rs", "src/private/dynamics/b2_fixture.rs", "src/private/dynamics/b2_body.rs", "src/private/dynamics/b2_world_callbacks.rs"],
  [("should_collide on bodies (joint edges)", "src/private/dynamics/b2_body.rs"), ("filter flag and re-filtering in collide", "src/private/dynamics/b2_contact_manager.rs"), ("default filter rule", "src/private/dynamics/b2_world_callbacks.rs")],
  ["contact list after step", "contact filter callback"])

p("C06", "Region and ray queries return what a full scan would return",
  "After any history a region query reports exactly the fixtures whose broad-phase box overlaps the region, each child once, and stops when told to. "
  "A ray cast reports hits that agree with the shapes' true intersections, misses no fixture the ray clearly hits unless the callback clipped it away, and obeys the callback's answer (ignore, stop, clip, continue).",
  ["histories", "inputs"],
  "every world history (moves, teleports, tree rotations, destroy/re-create), every region, ray and callback answer sequence",
  "No test performs a query or ray cast.",
  ["src/private/dynamics/b2_world.rs", "src/private/collision/b2_dynamic_tree.rs", "src/b2_dynamic_tree.rs", "src/private/collision/b2_edge_shape.rs", "src/private/collision/b2_polygon_shape.rs", "src/private/collision/b2_circle_shape.rs"],
  [("tree traversal and clipping", "src/b2_dynamic_tree.rs"), ("shape ray casts", "src/private/collision/"), ("world wrappers", "src/private/dynamics/b2_world.rs")],
  ["query_aabb", "ray_cast"])

p("C07", "Fast bodies do not tunnel through static walls",
  "With continuous collision on, a dynamic body never passes through static solid walls, and never leaves a closed container of them whose walls meet at right or wider angles, whatever its speed and the sequence of complete time steps; bodies that are not round are judged while they turn by less than about twenty degrees per step. "
  "The same holds for a body marked as a bullet against moving bodies it hits.",
  ["schedules", "histories", "inputs"],
  "every time-step schedule (jitter, stalls, rate changes), wall shape kind, speed and shape of the body",
  "Tunnelling depends on the alignment of speed, step size and sleeping/sub-step state; the tests contain no fast body.",
  ["src/private/dynamics/b2_world.rs", "src/private/collision/b2_time_of_impact.rs", "src/private/collision/b2_distance.rs", "src/private/dynamics/b2_island_private.rs"],
  [("time-of-impact phase", "src/private/dynamics/b2_world.rs"), ("sweep advance and TOI island", "src/private/dynamics/b2_island_private.rs")],
  ["body positions over time"])

p("C08", "Sleeping is sound: only resting islands sleep, disturbance wakes them",
  "A sleeping body does not change position or velocity; a body falls asleep only after its whole island has stayed below the sleep speed limits for half a second of simulated time, and bodies that may not sleep, or worlds with sleeping off, never sleep. "
  "A separate body at rest on a flat floor or in free space does fall asleep when left alone. "
  "Any disturbance (velocity, force or impulse with wake requested, removal of a touching or jointed partner, a joint's setting changed, contact by an awake moving body) wakes the body it concerns.",
  ["histories", "schedules"],
  "every history of disturbances and every time-step schedule, including stalls and zero-length steps",
  "No test looks at the awake flag; premature sleep needs specific timing of motion, islands and contact loss.",
  ["src/private/dynamics/b2_island_private.rs", "src/private/dynamics/b2_world.rs", "src/b2_body.rs", "src/private/dynamics/b2_contact.rs", "src/private/dynamics/b2_contact_manager.rs"],
  [("sleep timer over islands", "src/private/dynamics/b2_island_private.rs"), ("wake on contact update/destroy", "src/private/dynamics/b2_contact_manager.rs"), ("set_awake", "src/b2_body.rs")],
  ["is_awake()", "positions and velocities"])

p("C09", "Callbacks can use the objects they are given; forbidden calls change nothing",
  "In every callback made during a step the involved contact, fixtures and bodies can be read, and their velocities, forces and contact settings changed, without failing, and the world counts as locked exactly while a step runs. "
  "A structural call refused from inside a callback has no effect at all: the run continues exactly as if it had not been attempted.",
  ["histories", "fault_sequences"],
  "every callback kind and moment, with misuse injected at arbitrary callback occurrences",
  "The tests' only callback increments a counter.",
  ["src/private/dynamics/b2_world.rs", "src/private/dynamics/b2_contact.rs", "src/private/dynamics/b2_contact_manager.rs", "src/private/dynamics/b2_island_private.rs", "src/b2_world_callbacks.rs"],
  [("lock flag and borrow discipline around callbacks", "src/private/dynamics/b2_world.rs"), ("guards at the head of structural calls", "src/private/dynamics/b2_body.rs")],
  ["listener callbacks", "state after the step"])

p("C10", "A saved world restores to an equivalent world in every format",
  "Saving a world between steps and restoring it gives a world with the same bodies in the same order, fixtures, shapes, filters, joints other than mouse joints (same kinds, attached to the same bodies, same settings), user data, positions, velocities and, for bodies whose mass follows from their fixtures, mass data. "
  "Saving does not change the world, and saving the restored world gives the same document again up to the rounding of joint axes, at every point of every history and for every supported data format.",
  ["histories", "crash_points", "configurations"],
  "every history prefix as save point; text and binary formats; all shape and joint kinds",
  "The suite never serialises anything.",
  ["src/serialize/serialize_b2_world.rs", "src/serialize/serialize_b2_body.rs", "src/serialize/serialize_b2_fixture.rs", "src/serialize/serialize_b2_joint.rs", "src/joints/", "src/shapes/"],
  [("per-object definition capture", "src/b2_body.rs"), ("index tables for cross references", "src/serialize/serialize_b2_world.rs")],
  ["restored world's public state"])

p("C11", "Failed saves and damaged snapshots are reported, never half-applied",
  "If the writer fails at any point, saving returns an error and the live world is unaffected; if reading fails at any point, or a snapshot in a self-delimiting format is truncated, restoring returns an error instead of panicking or yielding a world. "
  "A structurally damaged text document (missing, repeated, renamed or mistyped parts, wrong references) is either rejected with an error or yields a well-formed world, and after a crash the last completely written snapshot still restores.",
  ["fault_sequences", "crash_points"],
  "every position of write error, short write, torn write, truncation, read error and byte corruption in a sequence of saves",
  "No test serialises, and none injects an I/O fault.",
  ["src/serialize/serialize_b2_world.rs", "src/serialize/serialize_b2_body.rs", "src/serialize/serialize_b2_fixture.rs", "src/serialize/serialize_b2_joint.rs", "src/shapes/serialize_b2_polygon_shape.rs"],
  [("Result propagation in visitors", "src/serialize/")],
  ["serialize/deserialize results", "world state after a failed save"])

p("C12", "Worlds are isolated from one another",
  "A world's behaviour depends only on calls made on it and its objects: interleaving the calls of several worlds in any order, or creating, saving, restoring and dropping other worlds at any moment, leaves each world's results bit-identical to running it alone.",
  ["schedules", "histories"],
  "every interleaving of the histories of several worlds living in one process",
  "Every test has one world.",
  ["src/private/dynamics/b2_world.rs", "src/private/dynamics/b2_contact_solver_private.rs", "src/private/collision/b2_distance.rs", "src/private/collision/b2_time_of_impact.rs", "src/private/dynamics/b2_contact_registers.rs"],
  [("no mutable process-wide state that feeds back", "src/private/")],
  ["body states and callbacks of each world"])

p("C13", "Momentum changes are fully accounted for by reported impulses",
  "Over one step the change of each body's momentum equals gravity and applied forces and impulses plus the contact impulses reported to the listener plus the reaction forces reported by its joints, with equal and opposite effect on the two bodies of a contact or joint. "
  "Hence without external input the total linear momentum of free bodies is conserved. "
  "Judged for steps without continuous sub-steps, and for joints that do not share a moving body with contradictory joints.",
  ["histories", "schedules"],
  "every history and time-step schedule, all joint kinds with a two-body reaction, warm starting on and off",
  "One test reads one joint's reaction in one rest state; the accounting identity must hold in every step of every history.",
  ["src/private/dynamics/b2_contact_solver_private.rs", "src/private/dynamics/b2_island_private.rs", "src/private/dynamics/joints/"],
  [("accumulated impulses and reporting", "src/private/dynamics/b2_island_private.rs"), ("joint velocity solvers", "src/private/dynamics/joints/")],
  ["post-solve impulses", "reaction force/torque getters", "velocities"])

p("C14", "Free bodies follow forces, damping and gravity applied exactly once",
  "The motion of a body without contacts or joints follows the documented integration rule for every sequence of time steps: forces and torques accumulate until cleared, are applied exactly once per step, impulses take effect at once, gravity scale, damping, fixed rotation and centre of mass are honoured, and static or kinematic bodies ignore forces. "
  "A zero-length step moves nothing, and a call that finishes a paused step moves no free body again.",
  ["histories", "schedules"],
  "every history of force/impulse/velocity/transform/mass calls interleaved with steps of any length, with automatic force clearing on or off",
  "Tests let one box fall under gravity at fixed rate.",
  ["src/private/dynamics/b2_island_private.rs", "src/b2_body.rs", "src/private/dynamics/b2_body.rs", "src/private/dynamics/b2_world.rs"],
  [("velocity/position integration", "src/private/dynamics/b2_island_private.rs"), ("force accumulation and clearing", "src/b2_body.rs")],
  ["positions, angles, velocities"])

p("C15", "Joints hold their constraint and recover after disturbances",
  "For each joint kind the bodies satisfy the joint's constraint within a small tolerance in quiet operation, whatever the jitter of the time step: anchors coincide, axes align, lengths, ratios, limits, spring laws and motor targets are respected within force limits, and a joint alone with its two bodies leaves no speed against its constraint after a step. "
  "After a disturbance (teleport, stall, impulse) ends, the constraint is satisfied again within bounded simulated time. "
  "This is for trees of joints between bodies of comparable mass, without joints that contradict one another.",
  ["histories", "schedules", "fault_sequences"],
  "every joint kind, parameter change at run time, time-step schedule and disturbance sequence",
  "One test checks one revolute joint's reactions; no test measures constraint error, limits, motors or recovery.",
  ["src/private/dynamics/joints/", "src/joints/"],
  [("velocity and position constraint solvers", "src/private/dynamics/joints/")],
  ["anchors, angles, translations, lengths and speeds read through the API"])

p("C16", "Shifting the origin changes coordinates and nothing else",
  "After shifting the world origin at any point of a history, every position, anchor, target, query result and contact is translated by exactly that shift up to rounding. "
  "The later evolution is the translated evolution, for as long as rounding does not decide it.",
  ["histories", "crash_points"],
  "every point of every history at which the origin is shifted, any number of times, with all joint kinds",
  "No test shifts the origin.",
  ["src/private/dynamics/b2_world.rs", "src/private/collision/b2_dynamic_tree.rs", "src/b2_broad_phase.rs", "src/private/dynamics/b2_joint.rs", "src/private/dynamics/joints/"],
  [("shift_origin on bodies, joints and tree", "src/private/dynamics/b2_world.rs")],
  ["positions, joint anchors, queries after the shift"])

p("C17", "The spatial index behaves like a plain set of boxes",
  "After any sequence of insertions, removals, moves, touches and shifts, the stand-alone tree and pair finder report for every query exactly the live entries whose stored box overlaps, keep each entry's data, and stored boxes always contain the tight boxes. "
  "Updating pairs reports every overlapping pair involving a changed entry and no other, and reports it once when each entry was changed once. "
  "Unless rebuilt bottom-up, the tree stays balanced: its height is logarithmic in the number of entries.",
  ["histories", "inputs"],
  "every operation sequence and box geometry, including rebuilds, early-terminated queries and identifier reuse",
  "No test uses the tree directly.",
  ["src/b2_dynamic_tree.rs", "src/private/collision/b2_dynamic_tree.rs", "src/b2_broad_phase.rs", "src/private/collision/b2_broad_phase.rs"],
  [("insert/remove/balance", "src/private/collision/b2_dynamic_tree.rs"), ("move buffer and pair update", "src/b2_broad_phase.rs")],
  ["tree and broad-phase public API"])

p("C18", "Mass, centre and inertia always follow the fixtures",
  "After any history of adding and removing fixtures, changing density with reset, type changes, fixed-rotation changes and explicit mass data, a body's mass, centre and rotational inertia equal those computed from its current fixtures (or the explicitly set values). "
  "Changing the mass distribution of a dynamic body keeps the velocity of its material points, and bodies that are not dynamic report no mass.",
  ["histories", "inputs"],
  "every history of fixture and type changes interleaved with motion",
  "One test checks the mass of a single polygon as a pure formula.",
  ["src/b2_body.rs", "src/private/dynamics/b2_body.rs", "src/b2_fixture.rs"],
  [("reset_mass_data", "src/private/dynamics/b2_body.rs")],
  ["get_mass/get_inertia/get_mass_data/get_local_center/get_linear_velocity_from_*"])

p("C19", "Destroyed objects are released, announced once, and nothing leaks",
  "Destroying a body releases its fixtures, joints and contacts and announces each implicitly destroyed joint and fixture to the destruction listener exactly once, explicitly destroyed ones never. "
  "User data and memory are released once the owner is destroyed and the caller has dropped its handles to destroyed objects, and dropping the world releases everything, at any point of any history.",
  ["histories", "crash_points"],
  "every history and every point at which the world or an object is dropped, with caller handles held or not",
  "Tests leave release to process exit; leaks through reference cycles are invisible to them.",
  ["src/private/dynamics/b2_world.rs", "src/private/dynamics/b2_body.rs", "src/b2rs_double_linked_list.rs", "src/b2_world.rs"],
  [("destroy_body cascade", "src/private/dynamics/b2_world.rs"), ("weak back references, list teardown", "src/b2rs_double_linked_list.rs")],
  ["destruction listener", "drop of user data"])

p("C20", "Contact impulses are admissible and follow the callback protocol",
  "Reported normal impulses are never negative, friction impulses are zero without friction, a body sliding on a fixed surface is braked by friction times the normal impulse and no more, round bodies in a single contact do not slip while friction stays below that, and bodies in a single contact part at its points as fast as their restitution demands and, where the contact pushes, no faster; contacts that are sensors, disabled for the step or not touching transmit nothing. "
  "Begin precedes pre-solve, and pre-solve precedes post-solve for a contact of a body awake at the start of the step; each reported impulse belongs to a point of the current manifold and is carried over to the matching point of the next step. "
  "Disabling lasts for one step, and friction, restitution and its threshold and surface speed set on a contact stay in force until reset.",
  ["histories", "schedules"],
  "every history, time-step schedule and sequence of contact customisations made in callbacks",
  "No test reads an impulse or customises a contact.",
  ["src/private/dynamics/b2_contact_solver_private.rs", "src/private/dynamics/b2_contact.rs", "src/b2_contact.rs", "src/private/dynamics/b2_island_private.rs"],
  [("clamped accumulated impulses", "src/private/dynamics/b2_contact_solver_private.rs"), ("enabled flag reset in contact update", "src/private/dynamics/b2_contact.rs")],
  ["pre_solve/post_solve callbacks", "velocities"])

p("C21", "Overlaps are pushed out and piles come to rest",
  "Bodies at rest in free space that overlap are pushed apart to within a small tolerance in bounded simulated time without gaining speed; bodies that merely touch are left alone. "
  "Boxes and polygons piled between walls on a floor with friction stay above the floor, come to rest and stay put once disturbances stop, whatever the earlier time-step jitter, as long as no step is several times longer than the one before.",
  ["schedules", "histories", "fault_sequences"],
  "every initial overlap, pile, time-step schedule and burst of stalls before the quiet period",
  "Tests drop one box; recovery after deep overlap or stalls is not reached.",
  ["src/private/dynamics/b2_contact_solver_private.rs", "src/private/dynamics/b2_island_private.rs"],
  [("position constraint solver", "src/private/dynamics/b2_contact_solver_private.rs")],
  ["positions, manifold separations, velocities"])

p("C22", "Ropes stay pinned, finite and at bounded stretch",
  "Whatever the time steps and target movements, pinned rope points sit exactly at their targets, a zero-length step changes nothing and a reset restores the initial layout at the new place; all points stay finite for tunings in which something takes the length back. "
  "Free ropes move as a whole under gravity like a thrown body, keep their shape when laid out straight, and damped bending straightens them. "
  "Once a slow target stops, a rope with full stretch stiffness and enough iterations returns to about its rest length in bounded simulated time.",
  ["schedules", "histories"],
  "every time-step schedule, tuning and target trajectory",
  "No test touches ropes.",
  ["src/b2_rope.rs", "src/private/rope/b2_rope.rs"],
  [("stretch/bend solvers", "src/private/rope/b2_rope.rs")],
  ["rope drawing callback"])

p("C23", "Debug drawing shows the current state and never disturbs it",
  "At any point of a history, debug drawing emits exactly the fixtures' current shapes at their current transforms, the joints, boxes and centres selected by the flags, and uses one style per class of body (disabled, static, kinematic, asleep, awake), different for each class. "
  "Drawing any number of times does not influence the simulation.",
  ["histories", "configurations"],
  "every point of every history and every flag combination",
  "No test draws.",
  ["src/private/dynamics/b2_world.rs", "src/b2_draw.rs", "src/b2_joint.rs"],
  [("debug_draw traversal", "src/private/dynamics/b2_world.rs")],
  ["drawing callbacks"])

p("C24", "State stays finite and motion per step is bounded",
  "Whatever the time step, speeds and stalls, no step produces a non-finite position, angle or velocity or panics (joints that share a moving body excepted), and with continuous collision off no step moves a body's centre by more than the documented maximum translation or turns it by more than the documented maximum rotation. "
  "Broad-phase boxes always enclose the shapes after a complete step.",
  ["schedules", "fault_sequences", "inputs"],
  "every time-step schedule from zero through very large stalls, extreme yet finite velocities, forces, masses and overlapping placements",
  "Tests use a fixed 1/60 s step and moderate values.",
  ["src/private/dynamics/b2_island_private.rs", "src/private/dynamics/b2_contact_solver_private.rs", "src/private/dynamics/joints/", "src/private/dynamics/b2_world.rs"],
  [("translation/rotation clamps", "src/private/dynamics/b2_island_private.rs"), ("degenerate-mass guards in solvers", "src/private/dynamics/")],
  ["body state after each step"])

p("C25", "Collisions and friction never create energy",
  "Without gravity, motors or applied forces, the kinetic energy of round bodies colliding one pair at a time never grows beyond a small tolerance, for every restitution up to one and every friction, and likewise for bodies of any shape that do not bounce, whatever the time-step jitter. "
  "A round body, or a box that does not turn, rebounds from a flat surface, fixed or moving, and from another round body with the approach speed scaled by the larger of the two restitutions, and does not bounce when approaching below the smaller of the two thresholds.",
  ["schedules", "histories", "inputs"],
  "every collision history, mass ratio and time-step schedule within the stated ranges",
  "No test has a bouncing or sliding collision.",
  ["src/private/dynamics/b2_contact_solver_private.rs", "src/b2_contact.rs"],
  [("velocity bias and clamping", "src/private/dynamics/b2_contact_solver_private.rs"), ("mixing rules", "src/b2_contact.rs")],
  ["velocities"])

p("C26", "Bodies slide smoothly along chains and respect one-sided edges",
  "A body sliding along a straight run of connected chain segments, lying flat or round, does not catch or jump at interior vertices, and without friction keeps its speed, for steps of up to a twentieth of a second. "
  "One-sided edges and chains stop bodies arriving from their solid side; a body arriving from behind keeps its velocity and is not touched before its centre is through.",
  ["schedules", "inputs"],
  "every segment spacing, body shape, speed and time-step schedule",
  "No test uses chains or one-sided edges.",
  ["src/private/collision/b2_collide_edge.rs", "src/private/collision/b2_collide_circle.rs", "src/private/collision/b2_chain_shape.rs", "src/shapes/b2_chain_shape.rs"],
  [("ghost-vertex handling", "src/private/collision/b2_collide_edge.rs")],
  ["velocities and heights along the slide"])

p("N01", "Closest distance between two convex shapes is exact",
  "The stand-alone distance function returns the true closest distance and witness points for every pair of convex proxies and transforms.",
  ["inputs"], "every pair of shapes and transforms",
  "Only a few fixed inputs could be tested.",
  ["src/b2_distance.rs", "src/private/collision/b2_distance.rs"],
  [("GJK iteration", "src/private/collision/b2_distance.rs")], ["b2_distance_fn"])

p("N02", "The stand-alone time-of-impact function is conservative",
  "The stand-alone time-of-impact function never returns a time after the first contact of two swept convex shapes.",
  ["inputs"], "every pair of shapes and sweeps",
  "Only fixed inputs are testable.",
  ["src/b2_time_of_impact.rs", "src/private/collision/b2_time_of_impact.rs"],
  [("conservative advancement", "src/private/collision/b2_time_of_impact.rs")], ["b2_time_of_impact"])

p("N03", "Polygon construction yields a correct convex hull and mass",
  "Building a polygon from points yields the counter-clockwise convex hull with unit outward normals, and its area, centroid and inertia formulas are exact.",
  ["inputs"], "every point set of three to eight points",
  "One fixed polygon is tested.",
  ["src/private/collision/b2_polygon_shape.rs"],
  [("gift wrapping and mass integration", "src/private/collision/b2_polygon_shape.rs")], ["set", "compute_mass"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
