From faed08c26364962acdf869adba9b91f643a090d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 01/83] fix: index the linear units of a command by linear port
 count

---
 tket/src/circuit/command.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tket/src/circuit/command.rs b/tket/src/circuit/command.rs
index a75ca10..ad4b8e3 100644
--- a/tket/src/circuit/command.rs
+++ b/tket/src/circuit/command.rs
@@ -166,12 +166,14 @@ impl<'circ, T: HugrView<Node = Node>> Command<'circ, T> {
 
 impl<T: HugrView<Node = Node>> UnitLabeller<Node> for &Command<'_, T> {
     #[inline]
-    fn assign_linear(&self, _: Node, port: Port, _linear_count: usize) -> LinearUnit {
+    fn assign_linear(&self, _: Node, port: Port, linear_count: usize) -> LinearUnit {
+        // The unit lists only contain the linear ports, so they are indexed by
+        // the number of linear ports seen rather than by the port offset.
         let units = match port.direction() {
             Direction::Incoming => &self.input_linear_units,
             Direction::Outgoing => &self.output_linear_units,
         };
-        *units.get(port.index()).unwrap_or_else(|| {
+        *units.get(linear_count).unwrap_or_else(|| {
             panic!(
                 "Could not assign a linear unit to port {port:?} of node {:?}",
                 self.node
-- 
2.43.0


From 5af0de970514ff8c803c1770b3a74a2d038283ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 02/83] fix: never reuse the index of a live linear unit in the
 command iterator

---
 tket/src/circuit/command.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tket/src/circuit/command.rs b/tket/src/circuit/command.rs
index ad4b8e3..ed14ee0 100644
--- a/tket/src/circuit/command.rs
+++ b/tket/src/circuit/command.rs
@@ -254,6 +254,10 @@ pub struct CommandIterator<'circ, T: HugrView> {
     nodes: NodeWalker<'circ, T>,
     /// Last wire for each [`LinearUnit`] in the circuit.
     wire_unit: HashMap<Wire, usize>,
+    /// The next free [`LinearUnit`] index.
+    ///
+    /// Indices are never reused, even after a unit has been terminated.
+    next_linear_unit: usize,
     /// Maximum number of remaining commands, not counting I/O nodes nor root nodes.
     max_remaining: usize,
     /// Delayed output of constant and load const nodes. Contains nodes that
@@ -283,7 +287,7 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
         // ports.
         //
         // TODO: `with_wires` combinator for `Units`?
-        let wire_unit = circ
+        let wire_unit: HashMap<Wire, usize> = circ
             .linear_units()
             .map(|(linear_unit, port, _)| (Wire::new(circ.input_node(), port), linear_unit.index()))
             .collect();
@@ -296,6 +300,7 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
             region,
             region_node_map,
             nodes,
+            next_linear_unit: wire_unit.len(),
             wire_unit,
             // Ignore the input and output nodes, and the root.
             max_remaining: node_count - 2,
@@ -427,7 +432,8 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
 
             match ports {
                 EitherOrBoth::Right((_, out_port, _)) => {
-                    let new_id = self.wire_unit.len();
+                    let new_id = self.next_linear_unit;
+                    self.next_linear_unit += 1;
                     register_output(new_id, out_port, &mut self.wire_unit);
                 }
                 EitherOrBoth::Left((_, in_port, _)) => {
-- 
2.43.0


From 120a38ee62f5fcec67f2fe78793c2b59fc73dea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 03/83] fix: include constants and functions defined outside
 the region in the circuit hash

---
 tket/src/circuit/hash.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/tket/src/circuit/hash.rs b/tket/src/circuit/hash.rs
index 5112670..23ea24b 100644
--- a/tket/src/circuit/hash.rs
+++ b/tket/src/circuit/hash.rs
@@ -136,7 +136,9 @@ fn hash_node(
         let input_hash = circ
             .linked_ports(node, input)
             .map(|(pred_node, pred_port)| {
-                let pred_node_hash = state.node_hash(pred_node);
+                let pred_node_hash = state
+                    .node_hash(pred_node)
+                    .or_else(|| hash_static_def(circ, pred_node));
                 fxhash::hash64(&(pred_node_hash, pred_port, input))
             })
             .fold(0, |total, hash| hash ^ total);
@@ -145,6 +147,23 @@ fn hash_node(
     Ok(hasher.finish())
 }
 
+/// Compute the hash of a static definition (a constant or a function) that is
+/// defined outside of the region being hashed.
+///
+/// Constants get the same hash as if they were defined inside the region.
+/// Functions are identified by their name, as their definition may be recursive.
+fn hash_static_def(circ: &impl HugrView<Node = Node>, node: Node) -> Option<u64> {
+    let op = circ.get_optype(node);
+    let mut hasher = FxHasher64::default();
+    match op {
+        OpType::Const(_) => hashable_op(op).hash(&mut hasher),
+        OpType::FuncDefn(func) => func.func_name().hash(&mut hasher),
+        OpType::FuncDecl(func) => func.func_name().hash(&mut hasher),
+        _ => return None,
+    }
+    Some(hasher.finish())
+}
+
 /// Errors that can occur while hashing a hugr.
 #[derive(Debug, Display, Clone, PartialEq, Eq, Error)]
 #[non_exhaustive]
-- 
2.43.0


From 79e1d63dc5f8e630a566849d7377e3766fd0affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 04/83] fix: include tags, instantiations and extension ids in
 the circuit hash

---
 tket/src/circuit/hash.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tket/src/circuit/hash.rs b/tket/src/circuit/hash.rs
index 23ea24b..78f0f89 100644
--- a/tket/src/circuit/hash.rs
+++ b/tket/src/circuit/hash.rs
@@ -91,7 +91,7 @@ fn hashable_op(op: &OpType) -> impl Hash {
             // TODO: Require hashing for TypeParams?
             format!(
                 "{}[{}]",
-                op.def().name(),
+                op.qualified_id(),
                 serde_json::to_string(op.args()).unwrap()
             )
         }
@@ -102,6 +102,14 @@ fn hashable_op(op: &OpType) -> impl Hash {
                 serde_json::to_string(op.args()).unwrap()
             )
         }
+        // The names of these operations do not mention their parameters.
+        OpType::Tag(tag) => format!("{op}[{}]", tag.tag),
+        OpType::Call(call) => {
+            format!("{op}[{}]", serde_json::to_string(&call.type_args).unwrap())
+        }
+        OpType::LoadFunction(load) => {
+            format!("{op}[{}]", serde_json::to_string(&load.type_args).unwrap())
+        }
         _ => op.to_string(),
     }
 }
-- 
2.43.0


From f93703fe472e76b58750cbe83e4c62926df0981b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 05/83] fix: dividing a zero cost gives zero

---
 tket/src/circuit/cost.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tket/src/circuit/cost.rs b/tket/src/circuit/cost.rs
index c03e983..4adf15a 100644
--- a/tket/src/circuit/cost.rs
+++ b/tket/src/circuit/cost.rs
@@ -152,7 +152,7 @@ impl<const N: usize> CircuitCost for LexicographicCost<usize, N> {
     fn div_cost(&self, n: NonZeroUsize) -> Self {
         let mut ret = [0; N];
         for (div, &a) in ret.iter_mut().zip(&self.0) {
-            *div = (a.saturating_sub(1)) / n.get() + 1;
+            *div = a.div_ceil(n.get());
         }
         Self(ret)
     }
@@ -185,7 +185,7 @@ impl CircuitCost for usize {
 
     #[inline]
     fn div_cost(&self, n: NonZeroUsize) -> Self {
-        (self.saturating_sub(1)) / n.get() + 1
+        self.div_ceil(n.get())
     }
 }
 
-- 
2.43.0


From 78130c5be6bce6efd74b44020c78175f00abc4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 06/83] fix: respect allocations, non-gate commands and
 classical dependencies in greedy commutation

---
 tket/src/passes/commutation.rs | 91 ++++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 32 deletions(-)

diff --git a/tket/src/passes/commutation.rs b/tket/src/passes/commutation.rs
index 053a0cd..9cfecb1 100644
--- a/tket/src/passes/commutation.rs
+++ b/tket/src/passes/commutation.rs
@@ -26,6 +26,11 @@ struct ComCommand {
     // We'll need something more complex if `follow_linear_port` stops being a
     // direct map from input to output.
     inputs: Vec<CircuitUnit>,
+    /// The linear units of the node's output ports.
+    outputs: Vec<Qb>,
+    /// The first slice after all the commands that this command depends on
+    /// through anything other than linear values.
+    earliest_slice: usize,
 }
 
 impl<'c, T: HugrView<Node = Node>> From<Command<'c, T>> for ComCommand {
@@ -33,6 +38,8 @@ impl<'c, T: HugrView<Node = Node>> From<Command<'c, T>> for ComCommand {
         ComCommand {
             node: com.node(),
             inputs: com.inputs().map(|(c, _, _)| c).collect(),
+            outputs: com.linear_outputs().map(|(c, _, _)| c).collect(),
+            earliest_slice: 0,
         }
     }
 }
@@ -41,12 +48,16 @@ impl ComCommand {
         self.node
     }
     fn qubits(&self) -> impl Iterator<Item = Qb> + '_ {
-        self.inputs.iter().filter_map(|u| {
-            let CircuitUnit::Linear(i) = u else {
-                return None;
-            };
-            Some(Qb::new(*i))
-        })
+        self.inputs
+            .iter()
+            .filter_map(|u| {
+                let CircuitUnit::Linear(i) = u else {
+                    return None;
+                };
+                Some(Qb::new(*i))
+            })
+            .chain(self.outputs.iter().copied())
+            .unique()
     }
     fn port_of_qb(&self, qb: Qb, direction: Direction) -> Option<Port> {
         self.inputs
@@ -68,42 +79,58 @@ fn add_to_slice(slice: &mut Slice, com: Rc<ComCommand>) {
     }
 }
 
+/// Arrange all the commands that act on linear values in slices.
+///
+/// Each command is placed in the first slice after all the commands it depends on.
 fn load_slices(circ: &Circuit<impl HugrView<Node = Node>>) -> SliceVec {
-    let mut slices = vec![];
-
-    let n_qbs = circ.qubit_count();
-    let mut qubit_free_slice = vec![0; n_qbs];
+    let hugr = circ.hugr();
+
+    // The first slice after each command.
+    let mut next_slice: HashMap<Node, usize> = HashMap::new();
+    // The first slice after the last command on each unit.
+    let mut unit_free_slice: HashMap<Qb, usize> = HashMap::new();
+    let mut placed: Vec<(usize, ComCommand)> = vec![];
+    let mut n_units = circ.linear_units().count();
+
+    for command in circ.commands() {
+        let node = command.node();
+        let earliest_slice = hugr
+            .node_inputs(node)
+            .filter(|&port| !command.is_linear_port(port.into()))
+            .flat_map(|port| hugr.linked_outputs(node, port))
+            .filter_map(|(pred, _)| next_slice.get(&pred).copied())
+            .max()
+            .unwrap_or(0);
+        let command = ComCommand {
+            earliest_slice,
+            ..command.into()
+        };
+        let Some(last_unit) = command.qubits().map(|q| q.index()).max() else {
+            // Not a command we want to put in a slice.
+            next_slice.insert(node, earliest_slice);
+            continue;
+        };
+        n_units = n_units.max(last_unit + 1);
 
-    for command in circ
-        .commands()
-        .filter(|c| is_slice_op(circ.hugr(), c.node()))
-    {
-        let command: ComCommand = command.into();
         let free_slice = command
             .qubits()
-            .map(|qb| qubit_free_slice[qb.index()])
-            .max()
-            .unwrap();
-
+            .filter_map(|q| unit_free_slice.get(&q).copied())
+            .fold(earliest_slice, usize::max);
         for q in command.qubits() {
-            qubit_free_slice[q.index()] = free_slice + 1;
+            unit_free_slice.insert(q, free_slice + 1);
         }
-        if free_slice >= slices.len() {
-            debug_assert!(free_slice == slices.len());
-            slices.push(vec![None; n_qbs]);
-        }
-        let command = Rc::new(command);
-        add_to_slice(&mut slices[free_slice], command);
+        next_slice.insert(node, free_slice + 1);
+        placed.push((free_slice, command));
     }
 
+    let n_slices = placed.iter().map(|(i, _)| i + 1).max().unwrap_or(0);
+    let mut slices = vec![vec![None; n_units]; n_slices];
+    for (slice, command) in placed {
+        add_to_slice(&mut slices[slice], Rc::new(command));
+    }
     slices
 }
 
-/// check if node is one we want to put in to a slice.
-fn is_slice_op<H: HugrView>(h: &H, node: H::Node) -> bool {
-    h.get_optype(node).cast::<TketOp>().is_some()
-}
-
 /// Starting from starting_index, work back along slices to check for the
 /// earliest slice that can accommodate this command, if any.
 fn available_slice(
@@ -114,7 +141,7 @@ fn available_slice(
 ) -> Option<(usize, HashMap<Qb, Rc<ComCommand>>)> {
     let mut available = None;
     let mut prev_nodes: HashMap<Qb, Rc<ComCommand>> = HashMap::new();
-    for slice_index in (0..=starting_index).rev() {
+    for slice_index in (command.earliest_slice..=starting_index).rev() {
         // if all qubit slots are empty here the command can be moved here
         if command
             .qubits()
-- 
2.43.0


From bfdde3d42eca1938b45abc76d8eb860bbb5e3a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 07/83] fix: keep the circuit name when reassembling chunks

---
 tket/src/passes/chunks.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 486ffdd..ed6f2ca 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -235,6 +235,9 @@ pub struct CircuitChunks {
     /// The original circuit's signature.
     signature: Signature,
 
+    /// The original circuit's name, if any.
+    name: Option<String>,
+
     /// The original circuit's root metadata.
     root_meta: Option<NodeMetadataMap>,
 
@@ -297,6 +300,7 @@ impl CircuitChunks {
         }
         Self {
             signature: signature.into_owned(),
+            name: circ.name().map(str::to_string),
             root_meta: Some(root_meta),
             input_connections,
             output_connections,
@@ -306,12 +310,7 @@ impl CircuitChunks {
 
     /// Reassemble the chunks into a circuit.
     pub fn reassemble(self) -> Result<Circuit, HugrError> {
-        let name = self
-            .root_meta
-            .as_ref()
-            .and_then(|map| map.get("name"))
-            .and_then(|s| s.as_str())
-            .unwrap_or("");
+        let name = self.name.unwrap_or_default();
 
         let mut builder = FunctionBuilder::new(name, self.signature).unwrap();
         // Take the unfinished Hugr from the builder, to avoid unnecessary
-- 
2.43.0


From 78b41fc866e239e0205a4f5ba4d035348ee9d704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 08/83] fix: reconnect every use of a copied value when
 reassembling chunks

---
 tket/src/passes/chunks.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index ed6f2ca..8dbe57f 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -133,7 +133,11 @@ impl Chunk {
                     }
                 })
                 .collect();
-            input_map.insert(connection, connection_targets);
+            // A copyable value may be connected to several inputs.
+            input_map
+                .entry(connection)
+                .or_insert_with(Vec::new)
+                .extend(connection_targets);
         }
 
         for (&wire, chunk_out_port) in self.outputs.iter().zip(chunk.node_inputs(chunk_out)) {
@@ -177,7 +181,11 @@ impl Chunk {
                     ConnectionTarget::TransitiveConnection(output_connection)
                 })
                 .collect();
-            input_map.insert(connection, connection_targets);
+            // A copyable value may be connected to several inputs.
+            input_map
+                .entry(connection)
+                .or_insert_with(Vec::new)
+                .extend(connection_targets);
         }
 
         for (&wire, chunk_out_port) in self.outputs.iter().zip(hugr.node_inputs(chunk_out)) {
-- 
2.43.0


From bd2701750a044939b0e2567dd0a42aeb2b422064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 09/83] fix: count the first operation of a chunk towards its
 cost

---
 tket/src/passes/chunks.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 8dbe57f..12ed779 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -264,7 +264,7 @@ impl CircuitChunks {
     ///
     /// The circuit is split into chunks of at most `max_size` gates.
     pub fn split(circ: &Circuit, max_size: usize) -> Self {
-        Self::split_with_cost(circ, max_size.saturating_sub(1), |_| 1)
+        Self::split_with_cost(circ, max_size, |_| 1)
     }
 
     /// Split a circuit into chunks.
@@ -295,9 +295,11 @@ impl CircuitChunks {
         let mut running_cost = C::default();
         let mut current_group = 0;
         for (_, commands) in &circ.commands().map(|cmd| cmd.node()).chunk_by(|&node| {
-            let new_cost = running_cost.clone() + op_cost(hugr.get_optype(node));
+            let node_cost = op_cost(hugr.get_optype(node));
+            let new_cost = running_cost.clone() + node_cost.clone();
             if new_cost.sub_cost(&max_cost).as_isize() > 0 {
-                running_cost = C::default();
+                // The node starts a new chunk.
+                running_cost = node_cost;
                 current_group += 1;
             } else {
                 running_cost = new_cost;
-- 
2.43.0


From 1b9ac5f0dcef03cac5f7daff39481723a68c90db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 10/83] fix: keep constants with the operations that load them
 when splitting into chunks

---
 tket/src/passes/chunks.rs | 68 +++++++++++++++++++++++++++++++++------
 1 file changed, 58 insertions(+), 10 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 12ed779..99cc22b 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -2,6 +2,7 @@
 //!
 //! See [`CircuitChunks`] for more information.
 
+use std::borrow::Cow;
 use std::collections::HashMap;
 use std::mem;
 use std::ops::{Index, IndexMut};
@@ -290,24 +291,40 @@ impl CircuitChunks {
             .map(|(n, p)| Wire::new(n, p).into())
             .collect();
 
-        let mut chunks = Vec::new();
-        let convex_checker = TopoConvexChecker::new(circ.hugr(), circ.parent());
+        // Constants cannot be shared between chunks, so every `LoadConstant`
+        // gets its own and is kept together with it.
+        let circ = localise_constants(circ);
+        let circ = circ.as_ref();
+        let hugr = circ.hugr();
+
+        let mut groups: Vec<Vec<Node>> = Vec::new();
         let mut running_cost = C::default();
-        let mut current_group = 0;
-        for (_, commands) in &circ.commands().map(|cmd| cmd.node()).chunk_by(|&node| {
-            let node_cost = op_cost(hugr.get_optype(node));
+        for node in circ.commands().map(|cmd| cmd.node()) {
+            let op = hugr.get_optype(node);
+            if op.is_const() {
+                continue;
+            }
+            let node_cost = op_cost(op);
             let new_cost = running_cost.clone() + node_cost.clone();
-            if new_cost.sub_cost(&max_cost).as_isize() > 0 {
+            if groups.is_empty() || new_cost.sub_cost(&max_cost).as_isize() > 0 {
                 // The node starts a new chunk.
                 running_cost = node_cost;
-                current_group += 1;
+                groups.push(Vec::new());
             } else {
                 running_cost = new_cost;
             }
-            current_group
-        }) {
-            chunks.push(Chunk::extract(circ, commands, &convex_checker));
+            let group = groups.last_mut().unwrap();
+            if op.is_load_constant() {
+                group.extend(hugr.static_source(node));
+            }
+            group.push(node);
         }
+
+        let convex_checker = TopoConvexChecker::new(hugr, circ.parent());
+        let chunks = groups
+            .into_iter()
+            .map(|nodes| Chunk::extract(circ, nodes, &convex_checker))
+            .collect();
         Self {
             signature: signature.into_owned(),
             name: circ.name().map(str::to_string),
@@ -496,6 +513,37 @@ impl<'data> IntoParallelRefMutIterator<'data> for CircuitChunks {
     }
 }
 
+/// Ensures that each constant loaded in the circuit's region is a child of that
+/// region with a single use, by copying the constants that are not.
+fn localise_constants(circ: &Circuit) -> Cow<'_, Circuit> {
+    let hugr = circ.hugr();
+    let is_local = |c: Node| {
+        hugr.get_parent(c) == Some(circ.parent())
+            && hugr.all_linked_inputs(c).exactly_one().is_ok()
+    };
+    let to_copy = hugr
+        .children(circ.parent())
+        .filter(|&load| hugr.get_optype(load).is_load_constant())
+        .filter_map(|load| Some((load, hugr.static_source(load)?)))
+        .filter(|&(_, constant)| !is_local(constant))
+        .collect_vec();
+    if to_copy.is_empty() {
+        return Cow::Borrowed(circ);
+    }
+
+    let mut circ = circ.clone();
+    let parent = circ.parent();
+    let hugr = circ.hugr_mut();
+    for (load, constant) in to_copy {
+        let op = hugr.get_optype(constant).clone();
+        let copy = hugr.add_node_with_parent(parent, op);
+        let port = hugr.get_optype(load).static_input_port().unwrap();
+        hugr.disconnect(load, port);
+        hugr.connect(copy, 0, load, port);
+    }
+    Cow::Owned(circ)
+}
+
 #[cfg(test)]
 mod test {
     use crate::circuit::CircuitHash;
-- 
2.43.0


From 5ef920ff11f0d8978abb5f0e1a440b283279a61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 11/83] fix: remove tuple pack/unpack pairs whose results are
 partly unused or used elsewhere

---
 tket/src/passes/tuple_unpack.rs | 104 ++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 46 deletions(-)

diff --git a/tket/src/passes/tuple_unpack.rs b/tket/src/passes/tuple_unpack.rs
index 52ca10d..73f2e3f 100644
--- a/tket/src/passes/tuple_unpack.rs
+++ b/tket/src/passes/tuple_unpack.rs
@@ -8,7 +8,7 @@ use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::hugr::views::SiblingSubgraph;
 use hugr::ops::{OpTrait, OpType};
 use hugr::types::Type;
-use hugr::{HugrView, Node};
+use hugr::{HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
 use itertools::Itertools;
 
 use crate::circuit::Command;
@@ -58,21 +58,31 @@ fn make_rewrite<T: HugrView<Node = Node>>(
         panic!("MakeTuple at node {tuple_node} should have a single output wire.");
     };
 
-    // See if it is followed by a tuple unpack
-    let links = circ
-        .hugr()
-        .linked_inputs(tuple_node, wire.source())
-        .map(|(neigh, _)| neigh)
-        .collect_vec();
-
-    if links.is_empty() {
+    // Operations with state order constraints cannot be replaced.
+    let hugr = circ.hugr();
+    let has_order_edges = |node: Node| {
+        let op = hugr.get_optype(node);
+        let inc = op
+            .other_input_port()
+            .is_some_and(|p| hugr.is_linked(node, p));
+        let out = op
+            .other_output_port()
+            .is_some_and(|p| hugr.is_linked(node, p));
+        inc || out
+    };
+    if has_order_edges(tuple_node) {
         return None;
     }
 
-    let unpack_nodes = links
-        .iter()
-        .filter(|&&neigh| is_unpack_tuple(circ.hugr().get_optype(neigh)))
-        .copied()
+    // See if it is followed by a tuple unpack in the same region
+    let unpack_nodes = hugr
+        .linked_inputs(tuple_node, wire.source())
+        .map(|(neigh, _)| neigh)
+        .filter(|&neigh| {
+            is_unpack_tuple(hugr.get_optype(neigh))
+                && hugr.get_parent(neigh) == hugr.get_parent(tuple_node)
+                && !has_order_edges(neigh)
+        })
         .collect_vec();
 
     if unpack_nodes.is_empty() {
@@ -80,73 +90,75 @@ fn make_rewrite<T: HugrView<Node = Node>>(
     }
 
     // Remove all unpack operations, but only remove the pack operation if all neighbours are unpacks.
-    let num_other_outputs = links.len() - unpack_nodes.len();
     Some(remove_pack_unpack(
         circ,
         &tuple_types,
         tuple_node,
         unpack_nodes,
-        num_other_outputs,
     ))
 }
 
-/// Returns a rewrite to remove a tuple pack operation that's followed by unpack operations,
-/// and `other_tuple_links` other operations.
+/// Returns a rewrite to remove a tuple pack operation that's followed by unpack operations.
+///
+/// The pack operation is kept if its tuple is used by any other operation.
 fn remove_pack_unpack<T: HugrView<Node = Node>>(
     circ: &Circuit<T>,
     tuple_types: &[Type],
     pack_node: Node,
     unpack_nodes: Vec<Node>,
-    num_other_outputs: usize,
 ) -> CircuitRewrite {
-    let num_unpack_outputs = tuple_types.len() * unpack_nodes.len();
+    let hugr = circ.hugr();
+
+    let inputs = (0..tuple_types.len())
+        .map(|i| vec![(pack_node, IncomingPort::from(i))])
+        .collect_vec();
+    // Only the unpacked values that are used appear in the boundary.
+    let mut outputs = unpack_nodes
+        .iter()
+        .flat_map(|&n| (0..tuple_types.len()).map(move |i| (n, OutgoingPort::from(i))))
+        .filter(|&(n, p)| hugr.is_linked(n, p))
+        .collect_vec();
+    let num_unpack_outputs = outputs.len();
+    let keep_pack = hugr
+        .linked_inputs(pack_node, 0)
+        .any(|(n, _)| !unpack_nodes.contains(&n));
+    if keep_pack {
+        outputs.push((pack_node, OutgoingPort::from(0)));
+    }
 
     let mut nodes = unpack_nodes;
     nodes.push(pack_node);
-    let subgraph = SiblingSubgraph::try_from_nodes(nodes, circ.hugr()).expect("is convex");
-    let subcirc_signature = subgraph.signature(circ.hugr());
-
-    // The output port order in `Subcircuit::try_from_nodes` is not too well defined.
-    // Check that the outputs are in the expected order.
-    debug_assert!(
-        itertools::equal(
-            subcirc_signature.output().iter(),
-            tuple_types
-                .iter()
-                .cycle()
-                .take(num_unpack_outputs)
-                .chain(itertools::repeat_n(
-                    &Type::new_tuple(tuple_types.to_vec()),
-                    num_other_outputs
-                ))
-        ),
-        "Unpacked tuple values must come before tupled values"
-    );
+    // The nodes are convex, since the unpack operations have no other inputs.
+    let subgraph = SiblingSubgraph::new_unchecked(inputs, outputs.clone(), vec![], nodes);
+    let subcirc_signature = subgraph.signature(hugr);
 
     let mut replacement = DFGBuilder::new(subcirc_signature).unwrap();
-    let mut outputs = Vec::with_capacity(num_unpack_outputs + num_other_outputs);
+    let input_wires = replacement.input_wires().collect_vec();
 
     // Wire the inputs directly to the unpack outputs
-    outputs.extend(replacement.input_wires().cycle().take(num_unpack_outputs));
+    let mut replacement_outputs = outputs[..num_unpack_outputs]
+        .iter()
+        .map(|(_, port)| input_wires[port.index()])
+        .collect_vec();
 
-    // If needed, re-add the tuple pack node and connect its output to the tuple outputs.
-    if num_other_outputs > 0 {
+    // If needed, re-add the tuple pack node and connect its output to the tuple output.
+    if keep_pack {
         let op = MakeTuple::new(tuple_types.to_vec().into());
         let [tuple] = replacement
-            .add_dataflow_op(op, replacement.input_wires())
+            .add_dataflow_op(op, input_wires)
             .unwrap()
             .outputs_arr();
-        outputs.extend(std::iter::repeat_n(tuple, num_other_outputs))
+        replacement_outputs.push(tuple);
     }
 
     let replacement = replacement
-        .finish_hugr_with_outputs(outputs)
+        .finish_hugr_with_outputs(replacement_outputs)
         .unwrap_or_else(|e| {
             panic!("Failed to create replacement for removing tuple pack/unpack operations. {e}")
         });
 
     subgraph
-        .create_simple_replacement(circ.hugr(), replacement)
+        .create_simple_replacement(hugr, replacement)
         .unwrap_or_else(|e| {
             panic!("Failed to create rewrite for removing tuple pack/unpack operations. {e}")
         })
-- 
2.43.0


From 406703b0bbf4b00758b25cd04e0acc18f183aa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:38 +0000
Subject: [PATCH 12/83] fix: replace the element type of empty static arrays of
 tket.bool

---
 tket-qsystem/src/replace_bools/static_array.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tket-qsystem/src/replace_bools/static_array.rs b/tket-qsystem/src/replace_bools/static_array.rs
index ead17bd..9c7cfdf 100644
--- a/tket-qsystem/src/replace_bools/static_array.rs
+++ b/tket-qsystem/src/replace_bools/static_array.rs
@@ -161,7 +161,9 @@ fn replace_const_static_array(
     mut sav: StaticArrayValue,
     rt: &ReplaceTypes,
 ) -> std::result::Result<Option<Value>, ReplaceTypesError> {
-    let mut any_changed = false;
+    let mut new_element_ty = sav.get_element_type().clone();
+    // The element type may change even if no value does, e.g. for empty arrays.
+    let mut any_changed = new_element_ty.transform(rt)?;
     let values = sav
         .value
         .get_contents()
@@ -175,11 +177,6 @@ fn replace_const_static_array(
     if !any_changed {
         return Ok(None);
     }
-    let new_element_ty = {
-        let mut t = sav.get_element_type().clone();
-        t.transform(rt)?;
-        t
-    };
     sav.value = ArrayValue::new(new_element_ty, values);
     Ok(Some(sav.into()))
 }
-- 
2.43.0


From 1fc65d7d6abddd122bc000bef965844ce1c80595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 13/83] fix: repack arrays whose elements unpack to no wires

---
 tket/src/passes/unpack_container.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tket/src/passes/unpack_container.rs b/tket/src/passes/unpack_container.rs
index 5e48b17..b3ef192 100644
--- a/tket/src/passes/unpack_container.rs
+++ b/tket/src/passes/unpack_container.rs
@@ -308,12 +308,13 @@ impl UnpackContainerBuilder {
 
         self.func_map.insert_with(&op, &args[..2], |func_b| {
             let input = func_b.input();
-            // SAFETY: We guarantee no aliasing by only using this pointer in this closure.
-            let elems: Result<Vec<_>, _> = input
-                .outputs()
-                .collect::<Vec<_>>()
-                .chunks(inner_row_len)
-                .map(|chunk| self.repack_container(func_b, elem_ty, chunk.to_vec()))
+            // Elements may unpack to no wires at all, so we cannot use `chunks` here.
+            let mut wires = input.outputs();
+            let elems: Result<Vec<_>, _> = (0..size)
+                .map(|_| {
+                    let elem_wires = wires.by_ref().take(inner_row_len).collect();
+                    self.repack_container(func_b, elem_ty, elem_wires)
+                })
                 .collect();
 
             let array_wire = func_b.add_new_generic_array::<AK>(elem_ty.clone(), elems?)?;
-- 
2.43.0


From 1602fbb09013cfa36fe1e74188ecb82d12cd2a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 14/83] fix: unpack options in barriers only inside arrays, as
 their types are computed

---
 tket/src/passes/unpack_container.rs | 51 +++++++++++++++++++----------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/tket/src/passes/unpack_container.rs b/tket/src/passes/unpack_container.rs
index b3ef192..22b5fd6 100644
--- a/tket/src/passes/unpack_container.rs
+++ b/tket/src/passes/unpack_container.rs
@@ -259,7 +259,7 @@ impl UnpackContainerBuilder {
 
             let result: Vec<_> = elems
                 .into_iter()
-                .map(|wire| self.unpack_container(func_b, elem_ty, wire))
+                .map(|wire| self.unpack_array_element(func_b, elem_ty, wire))
                 .collect::<Result<Vec<_>, _>>()?
                 .concat();
             Ok(result)
@@ -313,7 +313,7 @@ impl UnpackContainerBuilder {
             let elems: Result<Vec<_>, _> = (0..size)
                 .map(|_| {
                     let elem_wires = wires.by_ref().take(inner_row_len).collect();
-                    self.repack_container(func_b, elem_ty, elem_wires)
+                    self.repack_array_element(func_b, elem_ty, elem_wires)
                 })
                 .collect();
 
@@ -327,6 +327,38 @@ impl UnpackContainerBuilder {
             .expect("one output"))
     }
 
+    /// Unpack an element of an array.
+    ///
+    /// Options of the analyzer's element type are unwrapped here, and only
+    /// here, matching the row computed by [`TypeUnpacker::unpack_type`].
+    fn unpack_array_element(
+        &self,
+        builder: &mut impl Dataflow,
+        ty: &Type,
+        wire: Wire,
+    ) -> Result<Vec<Wire>, BuildError> {
+        let elem_ty = self.type_analyzer.element_type();
+        if is_opt_of(ty, elem_ty) {
+            return Ok(vec![self.unpack_option(builder, wire, elem_ty)?]);
+        }
+        self.unpack_container(builder, ty, wire)
+    }
+
+    /// Repack an element of an array, inverse of [`Self::unpack_array_element`].
+    fn repack_array_element(
+        &self,
+        builder: &mut impl Dataflow,
+        ty: &Type,
+        unpacked_wires: Vec<Wire>,
+    ) -> Result<Wire, BuildError> {
+        let elem_ty = self.type_analyzer.element_type();
+        if is_opt_of(ty, elem_ty) {
+            debug_assert!(unpacked_wires.len() == 1);
+            return self.repack_option(builder, unpacked_wires[0], elem_ty);
+        }
+        self.repack_container(builder, ty, unpacked_wires)
+    }
+
     /// Generate tuple arguments
     fn tuple_args(&self, tuple_row: &[Type]) -> Option<[TypeArg; 2]> {
         let unpacked_row = self
@@ -457,15 +489,6 @@ impl UnpackContainerBuilder {
             return Ok(vec![container_wire]);
         }
 
-        // Check for option of qubit
-        if is_opt_of(ty, &hugr::extension::prelude::qb_t()) {
-            return Ok(vec![self.unpack_option(
-                builder,
-                container_wire,
-                elem_ty,
-            )?]);
-        }
-
         macro_rules! handle_array_type {
             ($array_kind:ty, $unpack_op:expr) => {
                 if let Some((n, elem_ty)) = ty.as_extension().and_then(array_args::<$array_kind>) {
@@ -508,12 +531,6 @@ impl UnpackContainerBuilder {
             return Ok(unpacked_wires[0]);
         }
 
-        // Check for option of qubit
-        if is_opt_of(ty, elem_ty) {
-            debug_assert!(unpacked_wires.len() == 1);
-            return self.repack_option(builder, unpacked_wires[0], elem_ty);
-        }
-
         macro_rules! handle_array_type {
             ($array_kind:ty, $repack_op:expr) => {
                 if let Some((n, elem_ty)) = ty.as_extension().and_then(array_args::<$array_kind>) {
-- 
2.43.0


From 29eb3eb955209be3615470f8ae6211fef86d9529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 15/83] fix: constant folding in the hardware pipeline removed
 all functions and panicked

---
 tket-qsystem/src/lib.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tket-qsystem/src/lib.rs b/tket-qsystem/src/lib.rs
index 08a69d7..dfea741 100644
--- a/tket-qsystem/src/lib.rs
+++ b/tket-qsystem/src/lib.rs
@@ -20,7 +20,8 @@ use hugr::{
         RemoveDeadFuncsPass,
     },
     hugr::{hugrmut::HugrMut, HugrError},
-    Hugr, HugrView, Node,
+    ops::Value,
+    Hugr, HugrView, IncomingPort, Node,
 };
 use lower_drops::LowerDropsPass;
 use replace_bools::{ReplaceBoolPass, ReplaceBoolPassError};
@@ -131,7 +132,7 @@ impl QSystemPass {
             inline_constant_functions(hugr)?;
         }
         if self.constant_fold {
-            self.constant_fold().run(hugr)?;
+            self.constant_fold(hugr).run(hugr)?;
         }
         if self.force_order {
             self.force_order(hugr)?;
@@ -189,8 +190,15 @@ impl QSystemPass {
         ReplaceBoolPass
     }
 
-    fn constant_fold(&self) -> ConstantFoldPass {
-        ConstantFoldPass::default()
+    fn constant_fold(&self, hugr: &Hugr) -> ConstantFoldPass {
+        // The pass runs on the whole module. Functions that are not registered
+        // here would be considered unreachable, and removed.
+        let no_inputs: [(IncomingPort, Value); 0] = [];
+        hugr.children(hugr.module_root())
+            .filter(|&n| hugr.get_optype(n).is_func_defn())
+            .fold(ConstantFoldPass::default(), |pass, func| {
+                pass.with_inputs(func, no_inputs.iter().cloned())
+            })
     }
 
     fn monomorphization(&self) -> MonomorphizePass {
-- 
2.43.0


From 880b3373c27b8bb61b446c892a530e79aa4fc042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:31 +0000
Subject: [PATCH 16/83] fix: load circuits with global phases or modifiers
 without a custom registry

---
 tket/src/extension.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tket/src/extension.rs b/tket/src/extension.rs
index 5505035..f49e12f 100644
--- a/tket/src/extension.rs
+++ b/tket/src/extension.rs
@@ -61,7 +61,9 @@ pub(crate) static ref REGISTRY: ExtensionRegistry = ExtensionRegistry::new(
     TKET_EXTENSION.to_owned(),
     bool::BOOL_EXTENSION.to_owned(),
     debug::DEBUG_EXTENSION.to_owned(),
+    global_phase::GLOBAL_PHASE_EXTENSION.to_owned(),
     guppy::GUPPY_EXTENSION.to_owned(),
+    modifier::MODIFIER_EXTENSION.to_owned(),
     rotation::ROTATION_EXTENSION.to_owned()
 ]));
 
-- 
2.43.0


From 8ff59fadbbe2e63d9f78b5eca055d862941d0efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 17/83] fix: select only functions when loading a circuit by
 function name

---
 tket/src/serialize.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tket/src/serialize.rs b/tket/src/serialize.rs
index e8f7913..5414db6 100644
--- a/tket/src/serialize.rs
+++ b/tket/src/serialize.rs
@@ -244,20 +244,20 @@ fn find_function(mut hugr: Hugr, function_name: &str) -> Result<Circuit, Circuit
     }
 
     // Find the function definition.
-    fn func_name(op: &OpType) -> &str {
+    fn func_name(op: &OpType) -> Option<&str> {
         match op {
-            OpType::FuncDefn(decl) => decl.func_name(),
-            _ => "",
+            OpType::FuncDefn(decl) => Some(decl.func_name()),
+            _ => None,
         }
     }
 
     let Some(function) = hugr
         .children(module)
-        .find(|&n| func_name(hugr.get_optype(n)) == function_name)
+        .find(|&n| func_name(hugr.get_optype(n)) == Some(function_name))
     else {
         let available_functions = hugr
             .children(module)
-            .map(|n| func_name(hugr.get_optype(n)).to_string())
+            .filter_map(|n| func_name(hugr.get_optype(n)).map(ToString::to_string))
             .collect();
         return Err(CircuitLoadError::FunctionNotFound {
             function: function_name.to_string(),
-- 
2.43.0


From 5f3cd8825fc3bffbeaf1170234c61df10be7cd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 18/83] fix: report malformed arguments of opaque TKET1
 operations instead of panicking

---
 tket/src/extension.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tket/src/extension.rs b/tket/src/extension.rs
index f49e12f..032478b 100644
--- a/tket/src/extension.rs
+++ b/tket/src/extension.rs
@@ -81,7 +81,8 @@ impl CustomSignatureFunc for Tk1Signature {
             // This should have already been checked.
             panic!("Wrong number of arguments");
         };
-        let op: OpaqueTk1Op = serde_json::from_str(arg).unwrap(); // TODO Errors!
+        let op: OpaqueTk1Op =
+            serde_json::from_str(arg).map_err(|_| SignatureError::InvalidTypeArgs)?;
         let poly_func: PolyFuncType = op.signature().into();
         Ok(poly_func.into())
     }
-- 
2.43.0


From 68345ad4aa543abc8a89f5347a78b3e0f39a5e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:53 +0000
Subject: [PATCH 19/83] fix: pattern matcher misses matches when input and
 internal edges share an offset

---
 tket/src/portmatching.rs         | 12 ++++++++++--
 tket/src/portmatching/matcher.rs |  6 ++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/tket/src/portmatching.rs b/tket/src/portmatching.rs
index 7dcf448..910bf0c 100644
--- a/tket/src/portmatching.rs
+++ b/tket/src/portmatching.rs
@@ -57,7 +57,7 @@ pub mod matcher;
 pub mod pattern;
 
 use hugr::types::EdgeKind;
-use hugr::{HugrView, OutgoingPort};
+use hugr::{HugrView, OutgoingPort, PortIndex};
 use itertools::Itertools;
 pub use matcher::{PatternMatch, PatternMatcher};
 pub use pattern::CircuitPattern;
@@ -145,6 +145,9 @@ impl PEdge {
     }
 }
 
+/// Added to the port index of input edges to obtain their offset.
+const INPUT_EDGE_OFFSET: usize = 1 << 15;
+
 impl portmatching::EdgeProperty for PEdge {
     type OffsetID = Port;
 
@@ -166,7 +169,12 @@ impl portmatching::EdgeProperty for PEdge {
     fn offset_id(&self) -> Self::OffsetID {
         match *self {
             Self::InternalEdge { src, .. } => src,
-            Self::InputEdge { src, .. } => src,
+            // Edges with the same offset are taken to be mutually exclusive by
+            // the matching automaton. An input edge is satisfied by any edge at
+            // `src`, so it must not share its offset with internal edges.
+            Self::InputEdge { src } => {
+                Port::new(src.direction(), src.index() + INPUT_EDGE_OFFSET)
+            }
         }
     }
 }
diff --git a/tket/src/portmatching/matcher.rs b/tket/src/portmatching/matcher.rs
index 8be0c35..ef46183 100644
--- a/tket/src/portmatching/matcher.rs
+++ b/tket/src/portmatching/matcher.rs
@@ -18,7 +18,7 @@ use hugr::{HugrView, IncomingPort, Node, OutgoingPort, Port, PortIndex};
 use itertools::Itertools;
 use portmatching::{
     automaton::{LineBuilder, ScopeAutomaton},
-    EdgeProperty, PatternID,
+    PatternID,
 };
 use smol_str::SmolStr;
 
@@ -429,7 +429,9 @@ fn compatible_offsets(e1: &PEdge, e2: &PEdge) -> bool {
     let PEdge::InternalEdge { dst: dst1, .. } = e1 else {
         return false;
     };
-    let src2 = e2.offset_id();
+    let PEdge::InternalEdge { src: src2, .. } = e2 else {
+        return false;
+    };
     dst1.direction() != src2.direction() && dst1.index() == src2.index()
 }
 
-- 
2.43.0


From 2a49a0036fef7b3971ebd79227dd3c62d1b3cef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 20/83] fix: rooted matches without boundary panic and rooted
 matches may cover unmatched nodes

---
 tket/src/portmatching/matcher.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/tket/src/portmatching/matcher.rs b/tket/src/portmatching/matcher.rs
index ef46183..5b21036 100644
--- a/tket/src/portmatching/matcher.rs
+++ b/tket/src/portmatching/matcher.rs
@@ -1,6 +1,7 @@
 //! Pattern and matcher objects for circuit matching
 
 use std::{
+    collections::HashSet,
     fmt::Debug,
     fs::File,
     io,
@@ -159,7 +160,31 @@ impl PatternMatch {
             .iter()
             .map(|(n, p)| (map[n], p.as_outgoing().unwrap()))
             .collect_vec();
-        Self::try_from_io_with_checker(root, pattern, circ, inputs, outputs, checker)
+        let hugr = circ.hugr();
+        let nodes: HashSet<Node> = map.into_values().collect();
+        if inputs.is_empty() && outputs.is_empty() {
+            // Without a boundary, the matched nodes must not be connected to
+            // anything else.
+            if nodes
+                .iter()
+                .any(|&n| hugr.all_neighbours(n).any(|m| !nodes.contains(&m)))
+            {
+                return Err(InvalidPatternMatch::NotConvex);
+            }
+            let nodes = nodes.into_iter().sorted().collect();
+            return Ok(Self {
+                subgraph: SiblingSubgraph::new_unchecked(vec![], vec![], vec![], nodes),
+                pattern,
+                root,
+            });
+        }
+        let m = Self::try_from_io_with_checker(root, pattern, circ, inputs, outputs, checker)?;
+        // The boundary may delimit more nodes than the ones that were matched,
+        // when some of the matched results are used elsewhere.
+        if m.nodes().len() != nodes.len() || !m.nodes().iter().all(|n| nodes.contains(n)) {
+            return Err(InvalidPatternMatch::NotConvex);
+        }
+        Ok(m)
     }
 
     /// Create a pattern match from the subcircuit boundaries.
-- 
2.43.0


From cc1f6e3411045483914fec875d75632e9d5914d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 21/83] fix: reject patterns with unused inputs instead of
 panicking on matches

---
 tket/src/portmatching/pattern.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tket/src/portmatching/pattern.rs b/tket/src/portmatching/pattern.rs
index 3f378fa..a982541 100644
--- a/tket/src/portmatching/pattern.rs
+++ b/tket/src/portmatching/pattern.rs
@@ -89,6 +89,9 @@ impl CircuitPattern {
                 to_port,
             });
         }
+        if let Some(input) = inputs.iter().position(Vec::is_empty) {
+            return Err(InvalidPattern::UnusedInput { input });
+        }
 
         // This is a consequence of the test above.
         debug_assert!(outputs.iter().all(|(n, _)| *n != inp));
@@ -155,6 +158,12 @@ pub enum InvalidPattern {
         /// The target port
         to_port: Port,
     },
+    /// Patterns cannot include unused inputs.
+    #[display("The pattern does not use its input {input}")]
+    UnusedInput {
+        /// The index of the input
+        input: usize,
+    },
 }
 
 impl From<NoRootFound> for InvalidPattern {
@@ -171,8 +180,7 @@ mod tests {
     use cool_asserts::assert_matches;
     use hugr::builder::{DFGBuilder, Dataflow, DataflowHugr};
     use hugr::extension::prelude::qb_t;
-    use hugr::ops::OpType;
-    use hugr::types::Signature;
+        use hugr::types::Signature;
 
     use crate::extension::rotation::rotation_type;
 
-- 
2.43.0


From a53742c6ffba22b2812173116a2f91cfee825111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 22/83] fix: compare the values of constants defined outside of
 a pattern's region

---
 tket/src/portmatching/pattern.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tket/src/portmatching/pattern.rs b/tket/src/portmatching/pattern.rs
index a982541..8bd2986 100644
--- a/tket/src/portmatching/pattern.rs
+++ b/tket/src/portmatching/pattern.rs
@@ -1,6 +1,7 @@
 //! Circuit Patterns for pattern matching
 
 use derive_more::{Display, Error};
+use hugr::ops::OpType;
 use hugr::{HugrView, IncomingPort};
 use hugr::{Node, Port};
 use itertools::Itertools;
@@ -57,6 +58,13 @@ impl CircuitPattern {
                     PEdge::InputEdge { .. } => NodeID::new_copy(prev_node, prev_port),
                 };
                 pattern.add_edge(cmd.node().into(), prev_node, edge_prop);
+                // Constants outside of the circuit's region are not commands,
+                // but their value must be matched too.
+                if let NodeID::HugrNode(n) = prev_node {
+                    if let op @ OpType::Const(_) = hugr.get_optype(n) {
+                        pattern.require(prev_node, op.clone().into());
+                    }
+                }
             }
         }
         pattern.set_any_root()?;
@@ -180,7 +188,8 @@ mod tests {
     use cool_asserts::assert_matches;
     use hugr::builder::{DFGBuilder, Dataflow, DataflowHugr};
     use hugr::extension::prelude::qb_t;
-        use hugr::types::Signature;
+    use hugr::ops::OpType;
+    use hugr::types::Signature;
 
     use crate::extension::rotation::rotation_type;
 
-- 
2.43.0


From 443bbd3f6092560c4ed86d142d9e752cfd9adbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 23/83] fix: reject patterns that output a result twice, which
 cannot be rewritten

---
 tket/src/portmatching/pattern.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tket/src/portmatching/pattern.rs b/tket/src/portmatching/pattern.rs
index 8bd2986..419b9c6 100644
--- a/tket/src/portmatching/pattern.rs
+++ b/tket/src/portmatching/pattern.rs
@@ -100,6 +100,10 @@ impl CircuitPattern {
         if let Some(input) = inputs.iter().position(Vec::is_empty) {
             return Err(InvalidPattern::UnusedInput { input });
         }
+        if let Some(&(node, port)) = outputs.iter().duplicates().next() {
+            // Each result can only be replaced once.
+            return Err(InvalidPattern::DuplicatedOutput { node, port });
+        }
 
         // This is a consequence of the test above.
         debug_assert!(outputs.iter().all(|(n, _)| *n != inp));
@@ -166,6 +170,14 @@ pub enum InvalidPattern {
         /// The target port
         to_port: Port,
     },
+    /// Patterns cannot include the same result in multiple outputs.
+    #[display("The pattern outputs {node} out port {port} multiple times")]
+    DuplicatedOutput {
+        /// The source node
+        node: Node,
+        /// The source port
+        port: Port,
+    },
     /// Patterns cannot include unused inputs.
     #[display("The pattern does not use its input {input}")]
     UnusedInput {
-- 
2.43.0


From 047652d98522e778cd16a16947ba2838b3f04a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 24/83] fix: count constants consistently in rewrite sizes

---
 tket/src/circuit.rs          | 10 +++++++---
 tket/src/rewrite.rs          |  4 +++-
 tket/src/rewrite/strategy.rs | 17 +++++++++++++----
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/tket/src/circuit.rs b/tket/src/circuit.rs
index 6baf42d..7753a24 100644
--- a/tket/src/circuit.rs
+++ b/tket/src/circuit.rs
@@ -198,9 +198,7 @@ impl<T: HugrView> Circuit<T> {
         while let Some(node) = roots.pop() {
             for child in self.hugr().children(node) {
                 let optype = self.hugr().get_optype(child);
-                if matches!(optype, OpType::ExtensionOp(_) | OpType::OpaqueOp(_))
-                    && !IGNORED_EXTENSION_OPS.contains(&optype.to_smolstr())
-                {
+                if is_counted_operation(optype) {
                     count += 1;
                 } else if self.hugr().first_child(node).is_some() {
                     roots.push(child);
@@ -372,6 +370,12 @@ impl<T: HugrView> From<T> for Circuit<T> {
     }
 }
 
+/// Whether an operation is counted by [`Circuit::num_operations`].
+pub(crate) fn is_counted_operation(optype: &OpType) -> bool {
+    matches!(optype, OpType::ExtensionOp(_) | OpType::OpaqueOp(_))
+        && !IGNORED_EXTENSION_OPS.contains(&optype.to_smolstr())
+}
+
 /// Checks if the passed hugr is a valid circuit,
 /// and return [`CircuitError`] if not.
 fn check_hugr<H: HugrView>(hugr: &H) -> Result<(), CircuitError<H::Node>> {
diff --git a/tket/src/rewrite.rs b/tket/src/rewrite.rs
index fa8b4bf..63d8088 100644
--- a/tket/src/rewrite.rs
+++ b/tket/src/rewrite.rs
@@ -44,7 +44,9 @@ impl CircuitRewrite {
     /// The difference between the new number of nodes minus the old. A positive
     /// number is an increase in node count, a negative number is a decrease.
     pub fn node_count_delta(&self) -> isize {
-        let new_count = self.replacement().num_operations() as isize;
+        let replacement = self.replacement();
+        // Do not count the container nor its input and output nodes.
+        let new_count = replacement.hugr().entry_descendants().count() as isize - 3;
         let old_count = self.subgraph().node_count() as isize;
         new_count - old_count
     }
diff --git a/tket/src/rewrite/strategy.rs b/tket/src/rewrite/strategy.rs
index c0ab394..ecce2fe 100644
--- a/tket/src/rewrite/strategy.rs
+++ b/tket/src/rewrite/strategy.rs
@@ -28,6 +28,7 @@ use hugr::ops::OpType;
 use hugr::{HugrView, Node};
 use itertools::Itertools;
 
+use crate::circuit::is_counted_operation;
 use crate::circuit::cost::{is_cx, is_quantum, CircuitCost, CostDelta, LexicographicCost};
 use crate::{op_matches, Circuit, TketOp};
 
@@ -118,14 +119,22 @@ impl RewriteStrategy for GreedyRewriteStrategy {
         rewrites: impl IntoIterator<Item = CircuitRewrite>,
         circ: &Circuit,
     ) -> impl Iterator<Item = RewriteResult<Self::Cost>> {
+        let gate_count_delta = |rw: &CircuitRewrite| {
+            let nodes = rw.subgraph().nodes().iter();
+            let old_count = nodes
+                .filter(|&&n| is_counted_operation(circ.hugr().get_optype(n)))
+                .count();
+            rw.replacement().num_operations() as isize - old_count as isize
+        };
         let rewrites = rewrites
             .into_iter()
-            .sorted_by_key(|rw| rw.node_count_delta())
-            .take_while(|rw| rw.node_count_delta() < 0);
+            .map(|rw| (gate_count_delta(&rw), rw))
+            .sorted_by_key(|(delta, _)| *delta)
+            .take_while(|(delta, _)| *delta < 0);
         let mut changed_nodes = HashSet::new();
         let mut cost_delta = 0;
         let mut circ = circ.clone();
-        for rewrite in rewrites {
+        for (delta, rewrite) in rewrites {
             if rewrite
                 .subgraph()
                 .nodes()
@@ -135,7 +144,7 @@ impl RewriteStrategy for GreedyRewriteStrategy {
                 continue;
             }
             changed_nodes.extend(rewrite.subgraph().nodes().iter().copied());
-            cost_delta += rewrite.node_count_delta();
+            cost_delta += delta;
             rewrite
                 .apply(&mut circ)
                 .expect("Could not perform rewrite in greedy strategy");
-- 
2.43.0


From 20254590976ed9853b355534511eb26c204d4b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 25/83] fix: include constants defined outside of a
 replacement's region

---
 tket/src/rewrite.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/tket/src/rewrite.rs b/tket/src/rewrite.rs
index 63d8088..29cc75c 100644
--- a/tket/src/rewrite.rs
+++ b/tket/src/rewrite.rs
@@ -18,6 +18,8 @@ use hugr::{
     SimpleReplacement,
 };
 use hugr::{Hugr, HugrView, Node};
+use itertools::Itertools;
+use std::collections::HashSet;
 
 use crate::circuit::Circuit;
 
@@ -32,10 +34,11 @@ impl CircuitRewrite {
         hugr: &impl HugrView<Node = Node>,
         replacement: Circuit<impl HugrView<Node = Node>>,
     ) -> Result<Self, InvalidReplacement> {
-        let replacement = replacement
+        let mut replacement = replacement
             .extract_dfg()
             .unwrap_or_else(|e| panic!("{}", e))
             .into_hugr();
+        include_constants(&mut replacement);
         Ok(Self(subgraph.create_simple_replacement(hugr, replacement)?))
     }
 
@@ -91,6 +94,26 @@ impl CircuitRewrite {
     }
 }
 
+/// Copies the constants that are loaded in the HUGR's entrypoint region but
+/// defined outside of it into the region.
+fn include_constants(hugr: &mut Hugr) {
+    let region: HashSet<Node> = hugr.entry_descendants().collect();
+    let to_copy = hugr
+        .entry_descendants()
+        .filter(|&load| hugr.get_optype(load).is_load_constant())
+        .filter_map(|load| Some((load, hugr.static_source(load)?)))
+        .filter(|(_, constant)| !region.contains(constant))
+        .collect_vec();
+    let parent = hugr.entrypoint();
+    for (load, constant) in to_copy {
+        let op = hugr.get_optype(constant).clone();
+        let port = hugr.get_optype(load).static_input_port().unwrap();
+        let copy = hugr.add_node_with_parent(parent, op);
+        hugr.disconnect(load, port);
+        hugr.connect(copy, 0, load, port);
+    }
+}
+
 /// Generate rewrite rules for circuits.
 pub trait Rewriter {
     /// Get the rewrite rules for a circuit.
-- 
2.43.0


From c6c5146e119f09a0e5c29d6b5eb6840b9e751c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 26/83] fix: composing non-overlapping rewrites could create
 cycles

---
 tket/src/rewrite/strategy.rs | 140 ++++++++++++++++++++++++-----------
 1 file changed, 97 insertions(+), 43 deletions(-)

diff --git a/tket/src/rewrite/strategy.rs b/tket/src/rewrite/strategy.rs
index ecce2fe..0d85776 100644
--- a/tket/src/rewrite/strategy.rs
+++ b/tket/src/rewrite/strategy.rs
@@ -26,10 +26,12 @@ use std::{collections::HashSet, fmt::Debug};
 use derive_more::From;
 use hugr::ops::OpType;
 use hugr::{HugrView, Node};
+use hugr_core::hugr::internal::HugrInternals;
 use itertools::Itertools;
+use petgraph::visit::{Topo, Walker};
 
-use crate::circuit::is_counted_operation;
 use crate::circuit::cost::{is_cx, is_quantum, CircuitCost, CostDelta, LexicographicCost};
+use crate::circuit::is_counted_operation;
 use crate::{op_matches, Circuit, TketOp};
 
 use super::trace::RewriteTrace;
@@ -97,6 +99,86 @@ impl<C: CircuitCost, T: HugrView<Node = Node>> From<(Circuit<T>, C::CostDelta)>
     }
 }
 
+/// Applies rewrites to the circuit in order, skipping those that overlap with
+/// rewrites that were applied before.
+///
+/// Returns the new circuit and the indices of the rewrites that were applied.
+fn apply_non_overlapping<D>(
+    rewrites: &[(D, CircuitRewrite)],
+    circ: &Circuit,
+) -> (Circuit, Vec<usize>) {
+    let (new_circ, applied) = apply_disjoint(rewrites, circ, false);
+    if applied.len() < 2 || is_acyclic(&new_circ) {
+        return (new_circ, applied);
+    }
+    // Replacements may connect qubits that were independent in the pattern, so
+    // that other subcircuits are not convex anymore.
+    apply_disjoint(rewrites, circ, true)
+}
+
+/// Applies rewrites to the circuit in order, skipping those that overlap with
+/// rewrites that were applied before.
+///
+/// If `check_convex` is set, skips also rewrites of subcircuits that are not
+/// convex due to the rewrites that were applied before.
+fn apply_disjoint<D>(
+    rewrites: &[(D, CircuitRewrite)],
+    circ: &Circuit,
+    check_convex: bool,
+) -> (Circuit, Vec<usize>) {
+    let mut circ = circ.clone();
+    let mut changed_nodes = HashSet::new();
+    let mut applied = Vec::new();
+    for (i, (_, rewrite)) in rewrites.iter().enumerate() {
+        if rewrite
+            .invalidation_set()
+            .any(|n| changed_nodes.contains(&n))
+        {
+            continue;
+        }
+        if check_convex && !is_convex(&circ, rewrite.subgraph().nodes()) {
+            continue;
+        }
+        changed_nodes.extend(rewrite.invalidation_set());
+        applied.push(i);
+        rewrite
+            .clone()
+            .apply_notrace(&mut circ)
+            .expect("Could not perform rewrite");
+    }
+    (circ, applied)
+}
+
+/// Whether the circuit's region has no cycles.
+fn is_acyclic(circ: &Circuit) -> bool {
+    let (region, _) = circ.hugr().region_portgraph(circ.parent());
+    Topo::new(&region).iter(&region).count() == circ.hugr().children(circ.parent()).count()
+}
+
+/// Whether no path between the nodes leaves the set.
+fn is_convex(circ: &Circuit, nodes: &[Node]) -> bool {
+    let hugr = circ.hugr();
+    let nodes: HashSet<Node> = nodes.iter().copied().collect();
+    let mut visited = HashSet::new();
+    let mut outside = nodes
+        .iter()
+        .flat_map(|&n| hugr.output_neighbours(n))
+        .filter(|n| !nodes.contains(n))
+        .collect_vec();
+    while let Some(node) = outside.pop() {
+        if !visited.insert(node) {
+            continue;
+        }
+        for next in hugr.output_neighbours(node) {
+            if nodes.contains(&next) {
+                return false;
+            }
+            outside.push(next);
+        }
+    }
+    true
+}
+
 /// A rewrite strategy applying as many non-overlapping rewrites as possible.
 ///
 /// All possible rewrites are sorted by the number of gates they remove from
@@ -130,26 +212,14 @@ impl RewriteStrategy for GreedyRewriteStrategy {
             .into_iter()
             .map(|rw| (gate_count_delta(&rw), rw))
             .sorted_by_key(|(delta, _)| *delta)
-            .take_while(|(delta, _)| *delta < 0);
-        let mut changed_nodes = HashSet::new();
-        let mut cost_delta = 0;
-        let mut circ = circ.clone();
-        for (delta, rewrite) in rewrites {
-            if rewrite
-                .subgraph()
-                .nodes()
-                .iter()
-                .any(|n| changed_nodes.contains(n))
-            {
-                continue;
-            }
-            changed_nodes.extend(rewrite.subgraph().nodes().iter().copied());
-            cost_delta += delta;
-            rewrite
-                .apply(&mut circ)
-                .expect("Could not perform rewrite in greedy strategy");
+            .take_while(|(delta, _)| *delta < 0)
+            .collect_vec();
+        let (mut new_circ, applied) = apply_non_overlapping(&rewrites, circ);
+        let cost_delta: isize = applied.iter().map(|&i| rewrites[i].0).sum();
+        for &i in &applied {
+            new_circ.add_rewrite_trace(&rewrites[i].1);
         }
-        iter::once((circ, cost_delta).into())
+        iter::once((new_circ, cost_delta).into())
     }
 
     fn circuit_cost(&self, circ: &Circuit<impl HugrView<Node = Node>>) -> Self::Cost {
@@ -207,33 +277,17 @@ impl<T: StrategyCost> RewriteStrategy for ExhaustiveGreedyStrategy<T> {
                 if !self.strat_cost.under_threshold(&pattern_cost, &target_cost) {
                     return None;
                 }
-                Some((rw, target_cost.sub_cost(&pattern_cost)))
+                Some((target_cost.sub_cost(&pattern_cost), rw))
             })
-            .sorted_by_key(|(_, delta)| delta.clone())
+            .sorted_by_key(|(delta, _)| delta.clone())
             .collect_vec();
 
         (0..rewrites.len()).map(move |i| {
-            let mut curr_circ = circ.clone();
-            let mut changed_nodes = HashSet::new();
-            let mut cost_delta = Default::default();
-            let mut composed_rewrite_count = 0;
-            for (rewrite, delta) in &rewrites[i..] {
-                if !changed_nodes.is_empty()
-                    && rewrite
-                        .invalidation_set()
-                        .any(|n| changed_nodes.contains(&n))
-                {
-                    continue;
-                }
-                changed_nodes.extend(rewrite.invalidation_set());
-                cost_delta += delta.clone();
-
-                composed_rewrite_count += 1;
-
-                rewrite
-                    .clone()
-                    .apply_notrace(&mut curr_circ)
-                    .expect("Could not perform rewrite in exhaustive greedy strategy");
+            let (mut curr_circ, applied) = apply_non_overlapping(&rewrites[i..], circ);
+            let composed_rewrite_count = applied.len() as u16;
+            let mut cost_delta = <Self::Cost as CircuitCost>::CostDelta::default();
+            for &j in &applied {
+                cost_delta += rewrites[i + j].0.clone();
             }
 
             curr_circ.add_rewrite_trace(RewriteTrace::new(composed_rewrite_count));
-- 
2.43.0


From 8bd274531292515ebea92f07fb9eedb6f087be08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 27/83] fix: equivalence classes with tket types can be read
 back

EqCircClass (de)serialised its circuits with the standard extensions only, so
any class whose circuits use rotations failed to load.
---
 tket/src/optimiser/badger/eq_circ_class.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tket/src/optimiser/badger/eq_circ_class.rs b/tket/src/optimiser/badger/eq_circ_class.rs
index f404f66..e68b59a 100644
--- a/tket/src/optimiser/badger/eq_circ_class.rs
+++ b/tket/src/optimiser/badger/eq_circ_class.rs
@@ -1,12 +1,13 @@
 use std::io;
 use std::path::Path;
 
-use hugr::envelope::serde_with::AsStringEnvelope;
+use hugr::envelope::serde_with::impl_serde_as_string_envelope;
 use hugr::Hugr;
 use itertools::Itertools;
 use serde_with::serde_as;
 
 use crate::circuit::Circuit;
+use crate::extension::REGISTRY;
 
 use super::qtz_circuit::load_ecc_set;
 
@@ -15,6 +16,10 @@ pub enum EqCircClassError {
     NoRepresentative,
 }
 
+struct AsStringTk2Envelope;
+
+impl_serde_as_string_envelope!(AsStringTk2Envelope, &REGISTRY);
+
 /// A set of circuits forming an Equivalence Circuit Class (ECC).
 ///
 /// The set contains a distinguished circuit called the representative circuit,
@@ -24,10 +29,10 @@ pub enum EqCircClassError {
 pub struct EqCircClass {
     // TODO: Encode envelopes in binary format.
     // This requires adding a new `AsBinaryEnvelope` adaptor in `hugr`.
-    #[serde_as(as = "AsStringEnvelope")]
+    #[serde_as(as = "AsStringTk2Envelope")]
     rep_circ: Hugr,
     /// Other equivalent circuits to the representative.
-    #[serde_as(as = "Vec<AsStringEnvelope>")]
+    #[serde_as(as = "Vec<AsStringTk2Envelope>")]
     other_circs: Vec<Hugr>,
 }
 
-- 
2.43.0


From bba43361289280375b097b7440964da88c7ae02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 28/83] fix: malformed equivalence class files are reported as
 errors

Loading a file with invalid JSON, an unknown operation or unit, or a class
without circuits or identifier panicked, though the functions return
io::Result.
---
 tket/src/optimiser/badger/qtz_circuit.rs | 70 ++++++++++++++++--------
 1 file changed, 48 insertions(+), 22 deletions(-)

diff --git a/tket/src/optimiser/badger/qtz_circuit.rs b/tket/src/optimiser/badger/qtz_circuit.rs
index 6533613..88aaa82 100644
--- a/tket/src/optimiser/badger/qtz_circuit.rs
+++ b/tket/src/optimiser/badger/qtz_circuit.rs
@@ -39,12 +39,17 @@ struct RepCircData {
     circ: RepCirc,
 }
 
-fn map_op(opstr: &str) -> Op {
+/// An error for a file that does not describe equivalence classes of circuits.
+fn invalid_data(error: impl Into<Box<dyn std::error::Error + Send + Sync>>) -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, error)
+}
+
+fn map_op(opstr: &str) -> io::Result<Op> {
     if opstr == "add" {
-        return RotationOp::radd.into();
+        return Ok(RotationOp::radd.into());
     }
     // TODO, more
-    match opstr {
+    let op = match opstr {
         "h" => TketOp::H,
         "cx" => TketOp::CX,
         "t" => TketOp::T,
@@ -57,21 +62,22 @@ fn map_op(opstr: &str) -> Op {
         "sdg" => TketOp::Sdg,
         "vdg" => TketOp::Vdg,
         "rz" => TketOp::Rz,
-        x => panic!("unknown op {x}"),
-    }
-    .into()
+        x => return Err(invalid_data(format!("unknown op {x}"))),
+    };
+    Ok(op.into())
 }
 
-// TODO change to TryFrom
-impl From<RepCircData> for Circuit<Hugr> {
-    fn from(RepCircData { circ: rc, meta }: RepCircData) -> Self {
+impl RepCircData {
+    /// Build the circuit described by the data.
+    fn into_circuit(self) -> io::Result<Circuit<Hugr>> {
+        let RepCircData { circ: rc, meta } = self;
         let qb_types: Vec<Type> = vec![qb_t(); meta.n_qb];
         let param_types: Vec<Type> = vec![rotation_type(); meta.n_input_param];
         let mut builder = DFGBuilder::new(Signature::new(
             [qb_types.clone(), param_types].concat(),
             qb_types,
         ))
-        .unwrap();
+        .map_err(invalid_data)?;
 
         // Current map between quartz qubit and parameter identifiers, and
         // circuit units. Since quartz defines output wires arbitrarily for each
@@ -95,11 +101,17 @@ impl From<RepCircData> for Circuit<Hugr> {
             outputs,
         } in rc.0
         {
-            let op = map_op(&opstr);
+            let op = map_op(&opstr)?;
 
             // Translate the quartz inputs into circuit units.
-            let inputs = inputs.iter().map(|inp| *input_units.get(inp).unwrap());
-            let hugr_outputs = circ.append_with_outputs(op, inputs).unwrap();
+            let inputs: Vec<CircuitUnit> = inputs
+                .iter()
+                .map(|inp| {
+                    let unit = input_units.get(inp).copied();
+                    unit.ok_or_else(|| invalid_data(format!("unknown input {inp} of op {opstr}")))
+                })
+                .try_collect()?;
+            let hugr_outputs = circ.append_with_outputs(op, inputs).map_err(invalid_data)?;
 
             for (idx, wire) in outputs.iter().zip(hugr_outputs) {
                 input_units.insert(idx.to_string(), CircuitUnit::Wire(wire));
@@ -107,10 +119,17 @@ impl From<RepCircData> for Circuit<Hugr> {
         }
 
         let circ_outputs = circ.finish();
-        builder
+        Ok(builder
             .finish_hugr_with_outputs(circ_outputs)
-            .unwrap()
-            .into()
+            .map_err(invalid_data)?
+            .into())
+    }
+}
+
+#[cfg(test)]
+impl From<RepCircData> for Circuit<Hugr> {
+    fn from(data: RepCircData) -> Self {
+        data.into_circuit().unwrap()
     }
 }
 
@@ -119,16 +138,23 @@ pub(super) fn load_ecc_set(
 ) -> io::Result<HashMap<String, Vec<Circuit<Hugr>>>> {
     let jsons = std::fs::read_to_string(path)?;
     let (_, ecc_map): (Vec<()>, HashMap<String, Vec<RepCircData>>) =
-        serde_json::from_str(&jsons).unwrap();
+        serde_json::from_str(&jsons).map_err(invalid_data)?;
 
-    Ok(ecc_map
+    ecc_map
         .into_values()
         .map(|datmap| {
-            let id = datmap[0].meta.id[0].clone();
-            let circs = datmap.into_iter().map(|rcd| rcd.into()).collect();
-            (id, circs)
+            let id = datmap
+                .first()
+                .and_then(|rcd| rcd.meta.id.first())
+                .ok_or_else(|| invalid_data("equivalence class without an identifier"))?
+                .clone();
+            let circs = datmap
+                .into_iter()
+                .map(RepCircData::into_circuit)
+                .try_collect()?;
+            Ok((id, circs))
         })
-        .collect())
+        .collect()
 }
 
 #[cfg(test)]
-- 
2.43.0


From c16ac12a32b9379d6ae6c45e6266cbf9e21310e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 29/83] fix: control arrays of nested control modifiers keep
 their order

---
 tket/src/modifier/modifier_resolver.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 33d1404..2156800 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -704,10 +704,11 @@ impl<N: HugrNode> ModifierResolver<N> {
             input.to_mut().splice(0..0, iter::repeat_n(qb_t(), n));
             output.to_mut().splice(0..0, iter::repeat_n(qb_t(), n));
         } else {
-            for ctrls in &self.modifiers.accum_ctrl {
+            // The outermost control array comes first.
+            for (i, ctrls) in self.modifiers.accum_ctrl.iter().enumerate() {
                 let n = *ctrls as u64;
-                input.to_mut().insert(0, array_type(n, qb_t()));
-                output.to_mut().insert(0, array_type(n, qb_t()));
+                input.to_mut().insert(i, array_type(n, qb_t()));
+                output.to_mut().insert(i, array_type(n, qb_t()));
             }
         }
     }
-- 
2.43.0


From adede2e493d664b42ac71b89ff036acf5764d040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 30/83] fix: blocks and calls without controls on their ports
 are wired by their own signature

---
 tket/src/modifier/modifier_resolver.rs             | 7 ++++---
 tket/src/modifier/modifier_resolver/call_modify.rs | 2 +-
 tket/src/modifier/modifier_resolver/dfg_modify.rs  | 7 ++++---
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 2156800..5ef3b3e 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -1030,10 +1030,11 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
         let old_bb = children[0];
 
-        let mut signature = cfg.signature.clone();
+        let old_signature = &cfg.signature;
+        let mut signature = old_signature.clone();
         self.modify_signature(&mut signature, true);
         let mut new_cfg = CFGBuilder::new(signature.clone())?;
-        let mut new_bb = new_cfg.entry_builder([type_row![]], signature.output.clone())?;
+        let mut new_bb = new_cfg.entry_builder([type_row![]], signature.output)?;
         self.modify_dfg_body(h, old_bb, &mut new_bb)?;
         let bb_id = new_bb.finish_sub_container()?;
         new_cfg.branch(&bb_id, 0, &new_cfg.exit_block())?;
@@ -1049,7 +1050,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.wire_node_inout(
             n,
             new,
-            (signature.input.iter(), signature.output.iter()),
+            (old_signature.input.iter(), old_signature.output.iter()),
             (0, 0, offset),
         )?;
         // self.wire_others(n, cfg.into(), new, new_dfg.hugr().get_optype(new))?;
diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index 8ade56e..9df664c 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -43,7 +43,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let type_args = call.type_args.clone();
         self.modify_signature(poly_sig.body_mut(), false);
         let new_call = Call::try_new(poly_sig, type_args).map_err(BuildError::from)?;
-        let signature = (*new_call.signature()).clone();
+        let signature = call.signature();
         let new_call_fn_port = new_call.called_function_port();
         let new_call_node = new_dfg.add_child_node(new_call);
 
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 2647184..583a089 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -438,10 +438,11 @@ impl<N: HugrNode> ModifierResolver<N> {
         dfg: &DFG,
         parent_dfg: &mut impl Container,
     ) -> Result<(), ModifierResolverErrors<N>> {
-        let mut signature = dfg.signature.clone();
+        let old_signature = &dfg.signature;
+        let mut signature = old_signature.clone();
         // Build a new DFG with modified body.
         self.modify_signature(&mut signature, true);
-        let mut builder = DFGBuilder::new(signature.clone()).unwrap();
+        let mut builder = DFGBuilder::new(signature).unwrap();
         self.modify_dfg_body(h, n, &mut builder)?;
         let new_dfg = self.insert_sub_dfg(parent_dfg, builder)?;
 
@@ -456,7 +457,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.wire_node_inout(
             n,
             new_dfg,
-            (signature.input.iter(), signature.output.iter()),
+            (old_signature.input.iter(), old_signature.output.iter()),
             (0, 0, offset),
         )?;
 
-- 
2.43.0


From 8643acdc67f9f02812a8677ac35cfada4666d686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 31/83] fix: CZ under further controls keeps its phase

---
 tket/src/modifier/modifier_resolver/tket_op_modify.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/tket_op_modify.rs b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
index 9f54663..c747d98 100644
--- a/tket/src/modifier/modifier_resolver/tket_op_modify.rs
+++ b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
@@ -385,11 +385,12 @@ impl<N: HugrNode> ModifierResolver<N> {
                 Ok(pv)
             }
             CZ => {
-                // reduce CZ to CRz(pi)
-                let mut pv = self.modify_tket_op(n, CRz, new_fn, ancilla)?;
-                let halfturn = new_fn.add_load_value(ConstRotation::new(1.0).unwrap());
-                let dw = pv.incoming.remove(2);
-                connect(new_fn, &dw, &halfturn.into())?;
+                // CnZ(cs,t) = H(t); CnX(cs,t); H(t)
+                let h1 = new_fn.add_child_node(H);
+                let h2 = new_fn.add_child_node(H);
+                let mut pv = self.modify_tket_op(n, CX, new_fn, ancilla)?;
+                pv.incoming[1] = connect_by_num(new_fn, &pv.incoming[1], h1, 0);
+                pv.outgoing[1] = connect_by_num(new_fn, &pv.outgoing[1], h2, 0);
                 Ok(pv)
             }
             X | CX | Toffoli => {
-- 
2.43.0


From 6c8941c0a06ce48bf48c5575c4de372dfda446f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 32/83] fix: modified bodies keep all function edges of their
 calls

---
 tket/src/modifier/modifier_resolver.rs        | 12 ++++--
 .../modifier/modifier_resolver/call_modify.rs |  9 ++---
 .../modifier/modifier_resolver/dfg_modify.rs  | 40 ++++++++++++++-----
 3 files changed, 42 insertions(+), 19 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 5ef3b3e..3100653 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -314,7 +314,8 @@ pub struct ModifierResolver<N = Node> {
     /// This is needed to avoid modifying a node that is generated during the process.
     worklist: VecDeque<N>,
     /// A map of static edges to be added after insertion of subgraph.
-    call_map: HashMap<N, (Node, IncomingPort)>,
+    /// The same function may be used any number of times.
+    call_map: HashMap<N, Vec<(Node, IncomingPort)>>,
     // TODO:
     // Should keep track of the collection of modifiers that are applied to the same function.
     // This will prevent the duplicated generation of Controlled-functions.
@@ -450,9 +451,13 @@ impl<N: HugrNode> ModifierResolver<N> {
     fn corresp_map(&mut self) -> &mut HashMap<DirWire<N>, Vec<DirWire>> {
         &mut self.corresp_map
     }
-    fn call_map(&mut self) -> &mut HashMap<N, (Node, IncomingPort)> {
+    fn call_map(&mut self) -> &mut HashMap<N, Vec<(Node, IncomingPort)>> {
         &mut self.call_map
     }
+    /// Remember that a port in the container being built has to be connected to a function.
+    fn call_map_insert(&mut self, func: N, node: Node, port: IncomingPort) {
+        self.call_map().entry(func).or_default().push((node, port));
+    }
 
     fn with_worklist<T>(&mut self, worklist: VecDeque<N>, f: impl FnOnce(&mut Self) -> T) -> T {
         let worklist = mem::replace(self.worklist(), worklist);
@@ -1033,13 +1038,14 @@ impl<N: HugrNode> ModifierResolver<N> {
         let old_signature = &cfg.signature;
         let mut signature = old_signature.clone();
         self.modify_signature(&mut signature, true);
+        let outer_calls = mem::take(self.call_map());
         let mut new_cfg = CFGBuilder::new(signature.clone())?;
         let mut new_bb = new_cfg.entry_builder([type_row![]], signature.output)?;
         self.modify_dfg_body(h, old_bb, &mut new_bb)?;
         let bb_id = new_bb.finish_sub_container()?;
         new_cfg.branch(&bb_id, 0, &new_cfg.exit_block())?;
 
-        let new = self.insert_sub_dfg(new_dfg, new_cfg)?;
+        let new = self.insert_sub_dfg(new_dfg, new_cfg, outer_calls)?;
 
         // connect the controls and register the IOs
         for (i, c) in self.controls().iter_mut().enumerate() {
diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index 9df664c..6483ba6 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -34,8 +34,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let Some(new_callee) = self.modify_fn_if_needed(h, callee.0, &call.signature())? else {
             // If the function need not be modified, just copy the Call node as is.
             let new = self.add_node_no_modification(h, n, call.clone(), new_dfg)?;
-            self.call_map()
-                .insert(callee.0, (new, call.called_function_port()));
+            self.call_map_insert(callee.0, new, call.called_function_port());
             return Ok(());
         };
 
@@ -47,8 +46,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let new_call_fn_port = new_call.called_function_port();
         let new_call_node = new_dfg.add_child_node(new_call);
 
-        self.call_map()
-            .insert(new_callee, (new_call_node, new_call_fn_port));
+        self.call_map_insert(new_callee, new_call_node, new_call_fn_port);
         // wire the controls
         let mut controls = self.pack_controls(new_dfg)?;
         for (i, control) in controls.iter_mut().enumerate() {
@@ -201,8 +199,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.modify_signature(modified_sig.body_mut(), false);
         let load = LoadFunction::try_new(modified_sig, load.type_args).map_err(BuildError::from)?;
         let new_load = new_dfg.add_child_node(load);
-        self.call_map()
-            .insert(modified_fn, (new_load, IncomingPort::from(0)));
+        self.call_map_insert(modified_fn, new_load, IncomingPort::from(0));
         *self.modifiers_mut() = modifiers;
 
         // Make new IndirectCall
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 583a089..a24c108 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -343,8 +343,10 @@ impl<N: HugrNode> ModifierResolver<N> {
         let call_map = mem::replace(self.call_map(), old_call_map);
         let insertion_result = h.insert_from_view(h.module_root(), new_fn.hugr());
         let new_call_map = update_call_map(&call_map, &insertion_result.node_map);
-        for (old_in, (new_n, new_port)) in new_call_map.into_iter() {
-            h.connect(old_in, 0, new_n, new_port);
+        for (func, uses) in new_call_map {
+            for (new_n, new_port) in uses {
+                h.connect(func, 0, new_n, new_port);
+            }
         }
 
         // set unitarity metadata
@@ -417,16 +419,21 @@ impl<N: HugrNode> ModifierResolver<N> {
     }
 
     /// Inserts a sub DFG into the given parent DFG, updating the call map accordingly.
+    ///
+    /// The call map must contain the functions used in the sub DFG only,
+    /// `outer_calls` are those used so far in the parent DFG.
     pub(super) fn insert_sub_dfg(
         &mut self,
         parent_dfg: &mut impl Container,
         builder: impl Container,
+        outer_calls: HashMap<N, Vec<(Node, IncomingPort)>>,
     ) -> Result<Node, ModifierResolverErrors<N>> {
         let insertion_result = parent_dfg.add_hugr_view(builder.hugr());
 
-        let insertion_correspondence = insertion_result.node_map;
-        let new_call_map = update_call_map(self.call_map(), &insertion_correspondence);
-        *self.call_map() = new_call_map;
+        let inner_calls = mem::replace(self.call_map(), outer_calls);
+        for (func, uses) in update_call_map(&inner_calls, &insertion_result.node_map) {
+            self.call_map().entry(func).or_default().extend(uses);
+        }
 
         Ok(insertion_result.inserted_entrypoint)
     }
@@ -442,9 +449,10 @@ impl<N: HugrNode> ModifierResolver<N> {
         let mut signature = old_signature.clone();
         // Build a new DFG with modified body.
         self.modify_signature(&mut signature, true);
+        let outer_calls = mem::take(self.call_map());
         let mut builder = DFGBuilder::new(signature).unwrap();
         self.modify_dfg_body(h, n, &mut builder)?;
-        let new_dfg = self.insert_sub_dfg(parent_dfg, builder)?;
+        let new_dfg = self.insert_sub_dfg(parent_dfg, builder, outer_calls)?;
 
         // connect the controls and register the IOs
         for (i, c) in self.controls().iter_mut().enumerate() {
@@ -498,8 +506,9 @@ impl<N: HugrNode> ModifierResolver<N> {
                 .extend(iter::repeat_n(&qb_t(), self.control_num())),
             tail_loop.just_outputs.clone(),
         )?;
+        let outer_calls = mem::take(self.call_map());
         self.modify_dfg_body(h, n, &mut builder)?;
-        let new_tail_loop = self.insert_sub_dfg(new_dfg, builder)?;
+        let new_tail_loop = self.insert_sub_dfg(new_dfg, builder, outer_calls)?;
 
         // connect the controls and register IOs
         let offset = self.control_num();
@@ -549,6 +558,8 @@ impl<N: HugrNode> ModifierResolver<N> {
             control_types.extend(conditional.outputs.iter()),
         )?;
 
+        let outer_calls = mem::take(self.call_map());
+
         // remember the current control qubits
         let controls = self.controls().clone();
 
@@ -599,7 +610,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
 
         // insert the conditional
-        let new_conditional = self.insert_sub_dfg(new_dfg, builder)?;
+        let new_conditional = self.insert_sub_dfg(new_dfg, builder, outer_calls)?;
 
         // connect the controls and register the IOs
         *self.controls() = Vec::new();
@@ -625,7 +636,10 @@ impl<N: HugrNode> ModifierResolver<N> {
 }
 
 /// composition of two call maps
-fn update_call_map<A, B, C, D>(f: &HashMap<A, (B, C)>, g: &HashMap<B, D>) -> HashMap<A, (D, C)>
+fn update_call_map<A, B, C, D>(
+    f: &HashMap<A, Vec<(B, C)>>,
+    g: &HashMap<B, D>,
+) -> HashMap<A, Vec<(D, C)>>
 where
     A: Clone + Eq + std::hash::Hash,
     B: Clone + Eq + std::hash::Hash,
@@ -633,7 +647,13 @@ where
     D: Clone,
 {
     f.iter()
-        .filter_map(|(a, (b, c))| g.get(b).map(|d| (a.clone(), (d.clone(), c.clone()))))
+        .map(|(a, uses)| {
+            let uses = uses
+                .iter()
+                .filter_map(|(b, c)| g.get(b).map(|d| (d.clone(), c.clone())))
+                .collect();
+            (a.clone(), uses)
+        })
         .collect()
 }
 
-- 
2.43.0


From ff8f9c7a19dafa6b3ffa435d73377c86d128c57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 33/83] fix: controls of modified tail loops come before the
 other looped values

---
 tket/src/modifier/modifier_resolver/dfg_modify.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index a24c108..89a9150 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -498,12 +498,14 @@ impl<N: HugrNode> ModifierResolver<N> {
             unimplemented!("Dagger for TailLoop is not supported yet.");
         }
 
-        // Build a new TailLoop with modified body.
+        // Build a new TailLoop with modified body. The controls come before the other
+        // values that are passed from one iteration to the next.
+        let control_types: TypeRow = iter::repeat_n(qb_t(), self.control_num())
+            .collect::<Vec<_>>()
+            .into();
         let mut builder = TailLoopBuilder::new(
             tail_loop.just_inputs.clone(),
-            tail_loop
-                .rest
-                .extend(iter::repeat_n(&qb_t(), self.control_num())),
+            control_types.extend(tail_loop.rest.iter()),
             tail_loop.just_outputs.clone(),
         )?;
         let outer_calls = mem::take(self.call_map());
-- 
2.43.0


From 181a661e3955cdea4815a20df7e1dafccb99c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 34/83] fix: wrappers around unmodified functions call them
 with their own signature

---
 tket/src/modifier/modifier_resolver/dfg_modify.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 89a9150..a466383 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -378,11 +378,12 @@ impl<N: HugrNode> ModifierResolver<N> {
             )));
         };
 
-        let mut poly_sig = fn_defn.signature().clone();
-        self.modify_signature(poly_sig.body_mut(), false);
-        let instantiate = poly_sig
+        let poly_sig = fn_defn.signature().clone();
+        let mut instantiate = poly_sig
             .instantiate(type_args)
             .map_err(|e| ModifierResolverErrors::BuildError(e.into()))?;
+        let signature = instantiate.clone();
+        self.modify_signature(&mut instantiate, false);
 
         let offset = self.modifiers.accum_ctrl.len();
 
@@ -399,12 +400,12 @@ impl<N: HugrNode> ModifierResolver<N> {
         for i in 0..offset {
             builder.hugr_mut().connect(in_node, i, out_node, i);
         }
-        for i in 0..builder.hugr().num_inputs(call_node) {
+        for i in 0..signature.input_count() {
             builder
                 .hugr_mut()
                 .connect(in_node, i + offset, call_node, i);
         }
-        for i in 0..builder.hugr().num_outputs(call_node) {
+        for i in 0..signature.output_count() {
             builder
                 .hugr_mut()
                 .connect(call_node, i, out_node, i + offset);
-- 
2.43.0


From 6fb1160826a743ee04c3eacd60ecd47aa7f04e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 35/83] fix: power modifiers are reported as unsupported
 instead of being dropped

---
 tket/src/modifier.rs                               |  2 +-
 tket/src/modifier/modifier_resolver/call_modify.rs | 13 +++++++++++--
 tket/src/passes/chunks.rs                          |  3 +--
 tket/src/portmatching.rs                           |  4 +---
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/tket/src/modifier.rs b/tket/src/modifier.rs
index b87beeb..c34a6b4 100644
--- a/tket/src/modifier.rs
+++ b/tket/src/modifier.rs
@@ -46,7 +46,7 @@ impl CombinedModifier {
                 self.accum_ctrl.push(ctrl);
             }
             Ok(Modifier::DaggerModifier) => self.dagger = !self.dagger,
-            Ok(Modifier::PowerModifier) => self.power = !self.power,
+            Ok(Modifier::PowerModifier) => self.power = true,
             Err(_) => {}
         }
     }
diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index 6483ba6..067f35b 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -108,7 +108,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         &mut self,
         h: &impl HugrMut<Node = N>,
         n: N,
-    ) -> Result<Vec<N>, ModifierError<N>> {
+    ) -> Result<Vec<N>, ModifierResolverErrors<N>> {
         // The final target of modifiers to apply.
         let mut current = n;
         // Collection of modifiers to apply.
@@ -122,6 +122,12 @@ impl<N: HugrNode> ModifierResolver<N> {
                 break;
             }
 
+            if Modifier::from_optype(optype) == Some(Modifier::PowerModifier) {
+                return Err(ModifierResolverErrors::Unimplemented(
+                    Modifier::PowerModifier,
+                    optype.clone(),
+                ));
+            }
             modifiers.push(optype.as_extension_op().unwrap());
             let next = h
                 .single_linked_output(current, 0)
@@ -183,7 +189,10 @@ impl<N: HugrNode> ModifierResolver<N> {
         let modifiers = self.modifiers().clone();
         let trace = self
             .trace_modifiers_chain(h, chain_tail.0)
-            .map_err(wrap_err)?;
+            .map_err(|e| match e {
+                ModifierResolverErrors::ModifierError(e) => wrap_err(e),
+                e => e,
+            })?;
         let targ = trace.last().cloned().unwrap();
         let (func, load) =
             Self::get_loaded_function(h, n, targ, h.get_optype(targ)).map_err(wrap_err)?;
diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 99cc22b..24b1354 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -518,8 +518,7 @@ impl<'data> IntoParallelRefMutIterator<'data> for CircuitChunks {
 fn localise_constants(circ: &Circuit) -> Cow<'_, Circuit> {
     let hugr = circ.hugr();
     let is_local = |c: Node| {
-        hugr.get_parent(c) == Some(circ.parent())
-            && hugr.all_linked_inputs(c).exactly_one().is_ok()
+        hugr.get_parent(c) == Some(circ.parent()) && hugr.all_linked_inputs(c).exactly_one().is_ok()
     };
     let to_copy = hugr
         .children(circ.parent())
diff --git a/tket/src/portmatching.rs b/tket/src/portmatching.rs
index 910bf0c..0b8486b 100644
--- a/tket/src/portmatching.rs
+++ b/tket/src/portmatching.rs
@@ -172,9 +172,7 @@ impl portmatching::EdgeProperty for PEdge {
             // Edges with the same offset are taken to be mutually exclusive by
             // the matching automaton. An input edge is satisfied by any edge at
             // `src`, so it must not share its offset with internal edges.
-            Self::InputEdge { src } => {
-                Port::new(src.direction(), src.index() + INPUT_EDGE_OFFSET)
-            }
+            Self::InputEdge { src } => Port::new(src.direction(), src.index() + INPUT_EDGE_OFFSET),
         }
     }
 }
-- 
2.43.0


From 5fa98309165162f77f2676a5b45aeafecf7b44c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 36/83] fix: unsupported daggers are reported instead of
 panicking

---
 tket/src/modifier/modifier_resolver/array_modify.rs | 8 +++++++-
 tket/src/modifier/modifier_resolver/dfg_modify.rs   | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/array_modify.rs b/tket/src/modifier/modifier_resolver/array_modify.rs
index 69b70d0..8cc9dc8 100644
--- a/tket/src/modifier/modifier_resolver/array_modify.rs
+++ b/tket/src/modifier/modifier_resolver/array_modify.rs
@@ -74,7 +74,13 @@ impl<N: HugrNode> ModifierResolver<N> {
                 swap => swap,
                 new_array => unpack,
                 unpack => new_array,
-                _ => unimplemented!("Dagger for {op_def:?} is not implemented"),
+                _ => {
+                    return Err(ModifierResolverErrors::unresolvable(
+                        n,
+                        format!("dagger for {op_def:?} is not implemented."),
+                        h.get_optype(n).clone(),
+                    ))
+                }
             };
             let new_op = new_op_def.to_concrete(op.elem_ty, op.size);
             let node = new_dfg.add_child_node(new_op);
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index a466383..a14f468 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -496,7 +496,12 @@ impl<N: HugrNode> ModifierResolver<N> {
         // TODO: Handle the case when TailLoop is generated from `Power` modifier.
         // Currently, it is not implemented.
         if self.modifiers.dagger {
-            unimplemented!("Dagger for TailLoop is not supported yet.");
+            let optype = h.get_optype(n);
+            return Err(ModifierResolverErrors::unresolvable(
+                n,
+                "dagger for tail loops is not supported yet.".to_string(),
+                optype.clone(),
+            ));
         }
 
         // Build a new TailLoop with modified body. The controls come before the other
-- 
2.43.0


From ea5c554511944c8ef2149ccfa23267a14a2c8078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 37/83] fix: dagger pairs the quantum ports of blocks with
 mixed ports

---
 tket/src/modifier/modifier_resolver.rs | 120 ++++++++-----------------
 1 file changed, 39 insertions(+), 81 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 3100653..c3d8c60 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -99,7 +99,7 @@
 //! - User defined extension ops: There is no way to infer modified unknown extension ops.
 //!   We currently try to insert the original optype without any modification,
 //!   but this could result in an unexpected error.
-use itertools::{Either, Itertools};
+use itertools::{Either, EitherOrBoth, Itertools};
 use std::{
     collections::{HashMap, VecDeque},
     iter, mem,
@@ -806,19 +806,14 @@ impl<N: HugrNode> ModifierResolver<N> {
     ///     So the `input_offset` is 1.
     /// * `new_offset`: the offset of the ports of the new node, especially the number of control qubits.
     ///
-    /// The order of the resulting ports is determined as follows:
-    /// - Every ports are devided into quantum ports and non-quantum ports.
-    /// - Until the first quantum port is reached, the non-quantum ports are wired in order.
-    /// - When a quantum port is reached for both inputs and outputs,
-    ///   if the dagger is applied, the quantum input is wired to the output,
-    ///   and the quantum output is wired to the input until they reaches the next non-quantum port.
-    /// - This is repeated until all ports are wired.
+    /// If the dagger is applied, the ports are divided into quantum ports and non-quantum ports:
+    /// - The non-quantum ports are wired in order.
+    /// - The k-th quantum input is wired to the k-th quantum output, and vice versa.
     ///
-    /// For example, if the input types are `[qubit, int, qubit, qubit, int]` and
-    /// the output types are `[qubit, array[qubit, _]]`,
-    /// and the dagger is applied, the wiring is as follows:
-    /// - input: [out0:qubit, in1:int, out1:array[qubit, _], in4:int]
-    /// - output: [in0:qubit, in2:qubit, in3:qubit]
+    /// For example, if the input types are `[qubit, int, qubit]` and the output types are
+    /// `[qubit, qubit]`, and the dagger is applied, the wiring is as follows:
+    /// - input: [out0:qubit, in1:int, out1:qubit]
+    /// - output: [in0:qubit, in2:qubit]
     ///
     /// FIXME: This reverses everything that can contain qubits, which might not be intended in general.
     /// TODO: Handle state order edges.
@@ -844,82 +839,45 @@ impl<N: HugrNode> ModifierResolver<N> {
         &mut self,
         (old_in, old_out): (N, N),
         (new_in, new_out): (Node, Node),
-        (mut inputs, mut outputs): (
+        (inputs, outputs): (
             impl Iterator<Item = &'a Type>,
             impl Iterator<Item = &'a Type>,
         ),
         (input_offset, output_offset, new_offset): (usize, usize, usize),
     ) -> Result<(), ModifierResolverErrors<N>> {
-        let mut old_in_wire = (old_in, IncomingPort::from(input_offset)).into();
-        let mut old_out_wire = (old_out, OutgoingPort::from(output_offset)).into();
-        let mut new_in_wire = (new_in, IncomingPort::from(input_offset + new_offset)).into();
-        let mut new_out_wire = (new_out, OutgoingPort::from(output_offset + new_offset)).into();
-        let mut in_ty = inputs.next();
-        let mut out_ty = outputs.next();
-
-        loop {
-            // Wire inputs until the first quantum type
-            while let Some(ty) = in_ty {
-                if self.qubit_finder.contains_element_type(ty) {
-                    break;
-                }
-                self.map_insert(old_in_wire, new_in_wire)?;
-                old_in_wire = old_in_wire.shift(1);
-                new_in_wire = new_in_wire.shift(1);
-                in_ty = inputs.next();
-            }
-
-            // Wire outputs until the first quantum type
-            while let Some(ty) = out_ty {
-                if self.qubit_finder.contains_element_type(ty) {
-                    break;
-                }
-                self.map_insert(old_out_wire, new_out_wire)?;
-                old_out_wire = old_out_wire.shift(1);
-                new_out_wire = new_out_wire.shift(1);
-                out_ty = outputs.next();
+        let old_in = DirWire::from((old_in, IncomingPort::from(input_offset)));
+        let old_out = DirWire::from((old_out, OutgoingPort::from(output_offset)));
+        let new_in = DirWire::from((new_in, IncomingPort::from(input_offset + new_offset)));
+        let new_out = DirWire::from((new_out, OutgoingPort::from(output_offset + new_offset)));
+
+        // The ports whose direction is reversed if the dagger is applied.
+        let mut reversed_in = Vec::new();
+        let mut reversed_out = Vec::new();
+        for (i, ty) in inputs.enumerate() {
+            if self.modifiers.dagger && self.qubit_finder.contains_element_type(ty) {
+                reversed_in.push(i);
+            } else {
+                self.map_insert(old_in.shift(i), new_in.shift(i))?;
             }
-
-            // If both are quantum types, wire them in the opposite direction until the next non-quantum type
-            while let Some(ty) = in_ty {
-                if !self.qubit_finder.contains_element_type(ty) {
-                    break;
-                }
-                let new_in = if !self.modifiers.dagger {
-                    let new_in = new_in_wire;
-                    new_in_wire = new_in_wire.shift(1);
-                    new_in
-                } else {
-                    let new_in = new_out_wire;
-                    new_out_wire = new_out_wire.shift(1);
-                    new_in
-                };
-                self.map_insert(old_in_wire, new_in)?;
-                old_in_wire = old_in_wire.shift(1);
-                in_ty = inputs.next();
-            }
-            while let Some(ty) = out_ty {
-                if !self.qubit_finder.contains_element_type(ty) {
-                    break;
-                }
-                let new_out = if !self.modifiers.dagger {
-                    let new_out = new_out_wire;
-                    new_out_wire = new_out_wire.shift(1);
-                    new_out
-                } else {
-                    let new_out = new_in_wire;
-                    new_in_wire = new_in_wire.shift(1);
-                    new_out
-                };
-                self.map_insert(old_out_wire, new_out)?;
-                old_out_wire = old_out_wire.shift(1);
-                out_ty = outputs.next();
+        }
+        for (i, ty) in outputs.enumerate() {
+            if self.modifiers.dagger && self.qubit_finder.contains_element_type(ty) {
+                reversed_out.push(i);
+            } else {
+                self.map_insert(old_out.shift(i), new_out.shift(i))?;
             }
+        }
 
-            // Break if ended
-            if in_ty.is_none() && out_ty.is_none() {
-                break;
-            }
+        for pair in reversed_in.into_iter().zip_longest(reversed_out) {
+            let EitherOrBoth::Both(i, o) = pair else {
+                return Err(ModifierResolverErrors::unreachable(format!(
+                    "Cannot reverse the quantum ports of the node {}: \
+                    their numbers differ between the inputs and the outputs.",
+                    old_in.0
+                )));
+            };
+            self.map_insert(old_in.shift(i), new_out.shift(o))?;
+            self.map_insert(old_out.shift(o), new_in.shift(i))?;
         }
 
         Ok(())
-- 
2.43.0


From 1df983ce595ea34fbe37d227a779eae7905c0c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 38/83] fix: modified functions keep constants defined outside
 their regions

---
 tket/src/modifier/modifier_resolver.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index c3d8c60..5118e78 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -623,7 +623,12 @@ impl<N: HugrNode> ModifierResolver<N> {
                     // 2. Use another `HashMap` to keep track of StateOrder edges.
                     continue;
                 }
+                let is_const = h.get_optype(out_node).is_const();
                 for (in_node, in_port) in h.linked_inputs(out_node, out_port) {
+                    if is_const && h.get_parent(in_node) != Some(parent) {
+                        // Nested regions have their own copy of the constant.
+                        continue;
+                    }
                     for a in self.map_get(&(in_node, in_port).into())? {
                         for b in self.map_get(&(out_node, out_port).into())? {
                             connect(new_dfg, a, b)?
@@ -755,7 +760,18 @@ impl<N: HugrNode> ModifierResolver<N> {
             OpType::Const(constant) => {
                 self.modify_constant(n, constant, new_dfg)?;
             }
-            OpType::LoadConstant(_) | OpType::OpaqueOp(_) | OpType::Tag(_) => {
+            OpType::LoadConstant(load) => {
+                let new_load = self.add_node_no_modification(h, n, optype.clone(), new_dfg)?;
+                // Constants from outside the region (e.g. from the module) are copied into it.
+                let port = load.constant_port();
+                if let Some((constant, _)) = h.single_linked_output(n, port) {
+                    if h.get_parent(constant) != h.get_parent(n) {
+                        let constant = new_dfg.add_child_node(h.get_optype(constant).clone());
+                        new_dfg.hugr_mut().connect(constant, 0, new_load, port);
+                    }
+                }
+            }
+            OpType::OpaqueOp(_) | OpType::Tag(_) => {
                 self.add_node_no_modification(h, n, optype.clone(), new_dfg)?;
             }
 
-- 
2.43.0


From 84642b283ebad62ac28a66fc9dcddc2196f77574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 39/83] fix: controlled Toffoli keeps the order of its controls

---
 tket/src/modifier/modifier_resolver/tket_op_modify.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tket/src/modifier/modifier_resolver/tket_op_modify.rs b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
index c747d98..badbfb9 100644
--- a/tket/src/modifier/modifier_resolver/tket_op_modify.rs
+++ b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
@@ -454,7 +454,8 @@ impl<N: HugrNode> ModifierResolver<N> {
                     this.modify_tket_op(n, V, new_fn, ancilla)
                 })?;
                 for _ in 0..gate_control {
-                    outgoing.push(self.pop_control().unwrap().into());
+                    // The last control pushed comes out first.
+                    outgoing.insert(0, self.pop_control().unwrap().into());
                 }
                 connect(new_fn, &targ.into(), &pv_cnrx.incoming[0])?;
                 // connect(new_fn, &half_pos.into(), &pv_cnrx.incoming[1])?;
-- 
2.43.0


From fe0c1b14d744a841ae24d0a4b8c1a002ffd5f711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 40/83] fix: daggers keep the order of operations on classical
 values

---
 .../src/modifier/modifier_resolver/dfg_modify.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index a14f468..05f577c 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -67,6 +67,22 @@ impl<N: HugrNode> ModifierResolver<N> {
             for old_n_id in topo {
                 worklist.push_back(node_map.from_portgraph(old_n_id));
             }
+            // The operations on classical values only are not reversed. The others may use
+            // their results, so the controls go through them first.
+            if self.modifiers.dagger {
+                let (mut classical, quantum): (VecDeque<_>, VecDeque<_>) =
+                    worklist.into_iter().partition(|n| {
+                        h.signature(*n).is_none_or(|sig| {
+                            !sig.input
+                                .iter()
+                                .chain(sig.output.iter())
+                                .any(|ty| self.qubit_finder.contains_element_type(ty))
+                        })
+                    });
+                classical.make_contiguous().reverse();
+                classical.extend(quantum);
+                worklist = classical;
+            }
         }
         self.with_worklist(worklist, |this| {
             while let Some(old_n) = this.worklist().pop_front() {
-- 
2.43.0


From 9880df553008f6cd4dbb8fbed712b3835fc2dd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 41/83] fix: positions in a resource scope respect order edges

---
 tket/src/resource/scope.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tket/src/resource/scope.rs b/tket/src/resource/scope.rs
index f421ff6..b70e4c8 100644
--- a/tket/src/resource/scope.rs
+++ b/tket/src/resource/scope.rs
@@ -536,6 +536,22 @@ impl<H: HugrView> ResourceScope<H> {
                 next_node_units.position = cmp::max(next_node_units.position, pos.increment());
             }
         }
+
+        // Order edges carry no unit, but constrain the positions.
+        let Some(order_port) = self.hugr.get_optype(node).other_output_port() else {
+            return;
+        };
+        for (in_node, _) in self.hugr.linked_inputs(node, order_port) {
+            if !self.nodes().contains(&in_node) {
+                continue;
+            }
+            let Some(next_node_units) =
+                node_circuit_units_mut(&mut self.circuit_units, in_node, &self.hugr)
+            else {
+                continue;
+            };
+            next_node_units.position = cmp::max(next_node_units.position, pos.increment());
+        }
     }
 }
 
-- 
2.43.0


From 1625a64d8145d637e908effa4c311af1193a6ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 42/83] fix: the value of a copyable expression is its first
 output

---
 tket/src/subcircuit/expression.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tket/src/subcircuit/expression.rs b/tket/src/subcircuit/expression.rs
index d84d83a..8a20533 100644
--- a/tket/src/subcircuit/expression.rs
+++ b/tket/src/subcircuit/expression.rs
@@ -133,6 +133,8 @@ impl<N: HugrNode> CopyableExpr<N> {
         admissible_node: impl Fn(N) -> bool,
     ) -> ExprArgs<N> {
         let mut args = ExprArgs::default();
+        // The value of the expression is always the first output.
+        args.outputs.insert(output);
 
         // Queues and set useful during traversal.
         let mut curr_nodes = PriorityQueue::new();
-- 
2.43.0


From b279c253b3318d00069515a1c0c74ec5c99c4ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 43/83] fix: inputs of copyable expressions outside the
 excluded nodes come last

---
 tket/src/subcircuit/expression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tket/src/subcircuit/expression.rs b/tket/src/subcircuit/expression.rs
index 8a20533..73030d3 100644
--- a/tket/src/subcircuit/expression.rs
+++ b/tket/src/subcircuit/expression.rs
@@ -286,7 +286,8 @@ fn sort_inputs<N: HugrNode>(
                 let (prev_node, _) = hugr
                     .single_linked_output(node, port)
                     .expect("valid dataflow wire");
-                Either::Right(nodes_to_exclude.get_index_of(&prev_node))
+                let pos = nodes_to_exclude.get_index_of(&prev_node);
+                Either::Right(pos.unwrap_or(usize::MAX))
             }
         })
         .map(|np| vec![np])
-- 
2.43.0


From 72c768c58f4436f72b3e97a7696e3c8788ae4cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 44/83] fix: copyable expressions are refused exactly when they
 are not convex

---
 tket/src/subcircuit/expression.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/tket/src/subcircuit/expression.rs b/tket/src/subcircuit/expression.rs
index 73030d3..ddaaf96 100644
--- a/tket/src/subcircuit/expression.rs
+++ b/tket/src/subcircuit/expression.rs
@@ -93,7 +93,7 @@ impl<N: HugrNode> CopyableExpr<N> {
             admissible_node(node, &nodes_to_exclude, circuit.hugr(), &circuit_nodes)
         });
 
-        if circuit.any_reachable_from(outputs.iter().copied(), inputs.iter().copied()) {
+        if !is_convex(&nodes, &inputs, circuit) {
             return Err(InvalidSubgraph::NotConvex);
         }
 
@@ -250,6 +250,32 @@ impl<N> Default for ExprArgs<N> {
     }
 }
 
+/// Whether no path leaves the expression and comes back to it.
+fn is_convex<N: HugrNode>(
+    nodes: &[N],
+    inputs: &IndexSet<(N, IncomingPort)>,
+    circuit: &ResourceScope<impl HugrView<Node = N>>,
+) -> bool {
+    let hugr = circuit.hugr();
+    let expr_nodes: BTreeSet<_> = nodes.iter().copied().collect();
+
+    // Boundary inputs that are computed by the expression itself.
+    let mut input_sources = inputs
+        .iter()
+        .filter_map(|&(node, port)| hugr.single_linked_output(node, port));
+    if input_sources.any(|(node, _)| expr_nodes.contains(&node)) {
+        return false;
+    }
+
+    let successors = nodes
+        .iter()
+        .flat_map(|&node| hugr.output_neighbours(node))
+        .filter(|node| !expr_nodes.contains(node));
+    let starts = successors.flat_map(|node| hugr.node_outputs(node).map(move |port| (node, port)));
+    let ends = nodes.iter().map(|&node| (node, IncomingPort::from(0)));
+    !circuit.any_reachable_from(starts, ends)
+}
+
 /// Group function calls by the function they call.
 fn group_function_calls<N: HugrNode>(
     function_calls: Vec<(N, IncomingPort)>,
-- 
2.43.0


From 120dd6d993229defd1861068e6e1574f09e59a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 45/83] fix: resource scopes visit operations after all of
 their order predecessors

---
 tket/src/resource/scope.rs | 55 ++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/tket/src/resource/scope.rs b/tket/src/resource/scope.rs
index b70e4c8..ba14a81 100644
--- a/tket/src/resource/scope.rs
+++ b/tket/src/resource/scope.rs
@@ -4,7 +4,7 @@
 //! tracking within a specific region of a HUGR, computing resource paths and
 //! providing efficient lookup of circuit units associated with ports.
 
-use std::collections::{BTreeSet, VecDeque};
+use std::collections::{BTreeMap, BTreeSet, VecDeque};
 use std::{cmp, iter};
 
 use crate::resource::flow::{DefaultResourceFlow, ResourceFlow};
@@ -17,12 +17,9 @@ use hugr::hugr::views::SiblingSubgraph;
 use hugr::ops::OpTrait;
 use hugr::types::Signature;
 use hugr::{Direction, HugrView, IncomingPort, OutgoingPort, Port, PortIndex, Wire};
-use hugr_core::hugr::internal::PortgraphNodeMap;
 use indexmap::map::Entry;
 use indexmap::IndexMap;
 use itertools::Itertools;
-use portgraph::algorithms::{toposort, TopoSort};
-use portgraph::view::{FilteredGraph, NodeFilter, NodeFiltered};
 
 use super::{Position, ResourceAllocator, ResourceId};
 
@@ -603,31 +600,43 @@ impl CircuitUnitAllocator {
     }
 }
 
-fn toposort_subgraph<'h, H: HugrView>(
-    hugr: &'h H,
-    subgraph: &'h SiblingSubgraph<H::Node>,
+/// The nodes of the subgraph in topological order.
+///
+/// An order port may have several incoming links, all of which have to be
+/// followed before the node is. (`portgraph`'s topological sort follows only
+/// the first one.)
+fn toposort_subgraph<H: HugrView>(
+    hugr: &H,
+    subgraph: &SiblingSubgraph<H::Node>,
     sources: impl IntoIterator<Item = H::Node>,
 ) -> Vec<H::Node> {
-    fn contains_node(node: portgraph::NodeIndex, nodes: &&BTreeSet<portgraph::NodeIndex>) -> bool {
-        nodes.contains(&node)
-    }
-
-    let (pg, pg_map) = hugr.region_portgraph(subgraph.get_parent(hugr));
-    let subgraph_nodes: BTreeSet<_> = subgraph
-        .nodes()
+    let nodes: BTreeSet<_> = subgraph.nodes().iter().copied().collect();
+    let mut missing_links: BTreeMap<_, _> = nodes
         .iter()
-        .map(|&n| pg_map.to_portgraph(n))
+        .map(|&n| {
+            let preds = hugr.all_linked_outputs(n);
+            (n, preds.filter(|(m, _)| nodes.contains(m)).count())
+        })
         .collect();
 
-    let pg: NodeFiltered<_, NodeFilter<_>, _> =
-        FilteredGraph::new(&pg, contains_node, |_, _| true, &subgraph_nodes);
-    let topo: TopoSort<_> = toposort(
-        pg,
-        sources.into_iter().map(|n| pg_map.to_portgraph(n)),
-        Direction::Outgoing,
-    );
+    let mut topo = sources.into_iter().collect_vec();
+    let mut next = 0;
+    while let Some(&node) = topo.get(next) {
+        next += 1;
+        for port in hugr.node_outputs(node) {
+            for (succ, _) in hugr.linked_inputs(node, port) {
+                let Some(missing) = missing_links.get_mut(&succ) else {
+                    continue;
+                };
+                *missing -= 1;
+                if *missing == 0 {
+                    topo.push(succ);
+                }
+            }
+        }
+    }
 
-    topo.map(|n| pg_map.from_portgraph(n)).collect()
+    topo
 }
 
 #[cfg(test)]
-- 
2.43.0


From 019a624bb6d0ea00d8e1e383fee153cbcb5f66d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 46/83] fix: precedence of powers and negation in pytket
 parameter expressions

---
 .../serialize/pytket/decoder/param/param.pest | 15 +++++++-------
 .../serialize/pytket/decoder/param/parser.rs  | 20 ++++++++++++-------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/param/param.pest b/tket/src/serialize/pytket/decoder/param/param.pest
index d672d13..21eeeee 100644
--- a/tket/src/serialize/pytket/decoder/param/param.pest
+++ b/tket/src/serialize/pytket/decoder/param/param.pest
@@ -14,8 +14,7 @@ variable = _{ ident }
 ///
 /// The atomic marker `@` ensures no whitespace is present inside.
 num = @{
-    "-"?
-    ~ ("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*)
+    ("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*)
     ~ ("." ~ ASCII_DIGIT*)?
     ~ (^"e" ~ ("+" | "-")? ~ ASCII_DIGIT+)?
 }
@@ -32,8 +31,10 @@ infix_operator = _{ add | subtract | power | multiply | divide }
 
 /// Function calls like (`max(2,4)`)
 function_call = { ident ~ ( "()" | "(" ~ expr ~ ("," ~ expr)* ~ ","? ~ ")") }
-/// Unary negation, with a special identifier
-unary_minus = { "-" ~ term }
+/// Unary negation
+///
+/// As with the infix operations, the rust parser defines its precedence.
+unary_minus = { "-" }
 
 /// Implicit multiplication lets us write expressions like `2x`.
 /// This has higher precedence that `infix_operator`s.
@@ -42,10 +43,10 @@ unary_minus = { "-" ~ term }
 /// If we used `term` directly, the expression `5-2` could be interpreted as `5 * (-2)`.
 implicit_multiply = { num ~ ("(" ~ expr ~ ")" | function_call | variable) }
 
-/// Expressions are sequences of terms and infix operators
-expr = { term ~ (infix_operator ~ term)* }
+/// Expressions are sequences of (possibly negated) terms and infix operators
+expr = { unary_minus* ~ term ~ (infix_operator ~ unary_minus* ~ term)* }
 /// A standalone term, with no infix operators at the root.
-term = _{ "(" ~ expr ~ ")" | implicit_multiply | num | unary_minus | function_call | variable }
+term = _{ "(" ~ expr ~ ")" | implicit_multiply | num | function_call | variable }
 
 /// Main entry point of the parser. Ensures we always parse the whole input.
 parameter = _{ SOI ~ expr ~ EOI }
diff --git a/tket/src/serialize/pytket/decoder/param/parser.rs b/tket/src/serialize/pytket/decoder/param/parser.rs
index eadb2fe..5d2fa48 100644
--- a/tket/src/serialize/pytket/decoder/param/parser.rs
+++ b/tket/src/serialize/pytket/decoder/param/parser.rs
@@ -79,18 +79,29 @@ lazy_static::lazy_static! {
             // Addition and subtract have equal precedence
             .op(Op::infix(add, Left) | Op::infix(subtract, Left))
             .op(Op::infix(multiply, Left) | Op::infix(divide, Left))
-            .op(Op::infix(power, Left))
+            // `-a ** b` is `-(a ** b)`, but `a ** -b` is `a ** (-b)`.
+            .op(Op::prefix(unary_minus))
+            .op(Op::infix(power, Right))
     };
 }
 
 /// Parse a match of the [`Rule::expr`] rule.
 ///
-/// This takes a sequence of rule matches alternating [`Rule::term`]s and infix operations.
+/// This takes a sequence of rule matches alternating [`Rule::term`]s, each
+/// preceded by any number of [`Rule::unary_minus`], and infix operations.
 fn parse_infix_ops(pairs: Pairs<'_, Rule>) -> PytketParam<'_> {
     use ParameterType::*;
 
     PRATT_PARSER
         .map_primary(|primary| parse_term(primary))
+        .map_prefix(|_minus, arg| match arg {
+            PytketParam::Constant(half_turns) => PytketParam::Constant(-half_turns),
+            arg => PytketParam::Operation {
+                op: FloatOps::fneg.into(),
+                args: vec![arg],
+                param_ty: FloatHalfTurns,
+            },
+        })
         .map_infix(|lhs, op, rhs| {
             let (op, param_ty) = match op.as_rule() {
                 Rule::add => (RotationOp::radd.into(), Rotation),
@@ -126,11 +137,6 @@ fn parse_term(pair: Pair<'_, Rule>) -> PytketParam<'_> {
             }
         }
         Rule::num => parse_number(pair),
-        Rule::unary_minus => PytketParam::Operation {
-            op: FloatOps::fneg.into(),
-            args: vec![parse_term(pair.into_inner().next().unwrap())],
-            param_ty: FloatHalfTurns,
-        },
         Rule::function_call => parse_function_call(pair),
         Rule::ident => PytketParam::InputVariable {
             name: pair.as_str(),
-- 
2.43.0


From 2b655eec7285425a158e79060af2e0e9f55e1f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 47/83] fix: treat pytket parameters with too large numbers as
 opaque expressions

---
 tket/src/serialize/pytket/decoder/param/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/decoder/param/parser.rs b/tket/src/serialize/pytket/decoder/param/parser.rs
index 5d2fa48..86e3677 100644
--- a/tket/src/serialize/pytket/decoder/param/parser.rs
+++ b/tket/src/serialize/pytket/decoder/param/parser.rs
@@ -151,7 +151,11 @@ fn parse_number(pair: Pair<'_, Rule>) -> PytketParam<'_> {
     let half_turns = num
         .parse::<f64>()
         .unwrap_or_else(|_| panic!("`num` rule matched invalid number \"{num}\""));
-    PytketParam::Constant(half_turns)
+    match half_turns.is_finite() {
+        true => PytketParam::Constant(half_turns),
+        // Too large for a constant. Treat it as an opaque sympy expression.
+        false => PytketParam::Sympy(num),
+    }
 }
 
 /// Parse a match of the [`Rule::function_call`] rule.
-- 
2.43.0


From 391783bff76278292a01116a4bf5c9fa3ba806ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 48/83] fix: treat pytket parameter functions with unexpected
 argument counts as opaque

---
 .../serialize/pytket/decoder/param/parser.rs  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/param/parser.rs b/tket/src/serialize/pytket/decoder/param/parser.rs
index 86e3677..0a1f776 100644
--- a/tket/src/serialize/pytket/decoder/param/parser.rs
+++ b/tket/src/serialize/pytket/decoder/param/parser.rs
@@ -166,21 +166,21 @@ fn parse_function_call(pair: Pair<'_, Rule>) -> PytketParam<'_> {
         .next()
         .expect("Function call must have a name")
         .as_str();
-    let op = match name {
-        "max" => FloatOps::fmax.into(),
-        "min" => FloatOps::fmin.into(),
-        "abs" => FloatOps::fabs.into(),
-        "floor" => FloatOps::ffloor.into(),
-        "ceil" => FloatOps::fceil.into(),
-        "round" => FloatOps::fround.into(),
-        // Unrecognized function name.
+    let args = args.map(|arg| parse_term(arg)).collect::<Vec<_>>();
+    let op = match (name, args.len()) {
+        ("max", 2) => FloatOps::fmax,
+        ("min", 2) => FloatOps::fmin,
+        ("abs", 1) => FloatOps::fabs,
+        ("floor", 1) => FloatOps::ffloor,
+        ("ceil", 1) => FloatOps::fceil,
+        ("round", 1) => FloatOps::fround,
+        // Unrecognized function name or number of arguments.
         // Treat it as an opaque sympy expression.
         _ => return PytketParam::Sympy(pair_str),
     };
 
-    let args = args.map(|arg| parse_term(arg)).collect::<Vec<_>>();
     PytketParam::Operation {
-        op,
+        op: op.into(),
         args,
         param_ty: ParameterType::FloatHalfTurns,
     }
-- 
2.43.0


From aa3bb553defe38305601b6c63b3420f0e3f624b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 49/83] fix: bracket the radians to half-turns conversion when
 encoding qsystem ops

---
 tket-qsystem/src/pytket/qsystem.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/tket-qsystem/src/pytket/qsystem.rs b/tket-qsystem/src/pytket/qsystem.rs
index 96d0483..69f7b71 100644
--- a/tket-qsystem/src/pytket/qsystem.rs
+++ b/tket-qsystem/src/pytket/qsystem.rs
@@ -86,9 +86,9 @@ impl QSystemEmitter {
         // Since the `tket.qsystem` op inputs are in radians, we have to convert them here.
         encoder.emit_node_command(node, circ, EmitCommandOptions::new(), move |mut inputs| {
             for param in inputs.params.to_mut() {
-                *param = match param.strip_suffix(") * (pi)") {
-                    Some(s) if s.starts_with("(") => s[1..].to_string(),
-                    _ => format!("{param} / (pi)"),
+                *param = match strip_times_pi(param) {
+                    Some(half_turns) => half_turns.to_string(),
+                    None => format!("({param}) / (pi)"),
                 };
             }
             make_tk1_operation(serial_op, inputs)
@@ -115,6 +115,21 @@ impl QSystemEmitter {
     }
 }
 
+/// If an expression has the form `(expr) * (pi)`, returns the inner `expr`.
+fn strip_times_pi(param: &str) -> Option<&str> {
+    let inner = param.strip_prefix('(')?.strip_suffix(") * (pi)")?;
+    // Check that the initial parenthesis is not closed before the product.
+    let mut depth = 0usize;
+    for c in inner.chars() {
+        match c {
+            '(' => depth += 1,
+            ')' => depth = depth.checked_sub(1)?,
+            _ => {}
+        }
+    }
+    (depth == 0).then_some(inner)
+}
+
 impl PytketDecoder for QSystemEmitter {
     fn op_types(&self) -> Vec<PytketOptype> {
         // Process native optypes that are not supported by the `TketOp` emitter.
-- 
2.43.0


From 73efe27df09a4cc0b40e180d41692c8162cdbf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:26 +0000
Subject: [PATCH 50/83] fix: decode partial and invalid implicit permutations
 of pytket circuits

---
 tket/src/serialize/pytket/decoder.rs       |  2 +-
 tket/src/serialize/pytket/decoder/wires.rs | 38 +++++++++++++++++-----
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 5a5cb20..99b525f 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -285,7 +285,7 @@ impl<'h> PytketDecoderContext<'h> {
             wire_tracker.track_bit(b.pytket_register_arc(), Some(b.reg_hash()))?;
         }
 
-        wire_tracker.compute_output_permutation(&serialcirc.implicit_permutation);
+        wire_tracker.compute_output_permutation(&serialcirc.implicit_permutation)?;
 
         Ok(wire_tracker)
     }
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 5cc6402..067ae2b 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -1,6 +1,6 @@
 //! Structures to keep track of pytket [`ElementId`][tket_json_rs::register::ElementId]s and
 //! their correspondence to wires in the hugr being defined.
-use std::collections::{BTreeMap, VecDeque};
+use std::collections::{BTreeMap, BTreeSet, VecDeque};
 use std::sync::Arc;
 
 use hugr::builder::{DFGBuilder, Dataflow as _};
@@ -416,20 +416,42 @@ impl WireTracker {
     ///
     /// This is used to reorder the qubit registers at the output, according to
     /// pytket's implicit permutation.
-    pub(super) fn compute_output_permutation(&mut self, permutation: &Vec<ImplicitPermutation>) {
+    ///
+    /// Qubits not mentioned in the permutation are left in place.
+    ///
+    /// # Errors
+    ///
+    /// - [`PytketDecodeErrorInner::UnknownQubitRegister`] if the permutation contains an unknown qubit.
+    /// - Returns an error if the list is not a permutation.
+    pub(super) fn compute_output_permutation(
+        &mut self,
+        permutation: &[ImplicitPermutation],
+    ) -> Result<(), PytketDecodeError> {
         let mut reordered: BTreeMap<usize, usize> = BTreeMap::new();
 
-        let position = |id: &tket_json_rs::register::Qubit| {
-            let hash = RegisterHash::from(id);
-            self.latest_qubit_tracker.get_index_of(&hash).unwrap()
+        let position = |qubit: &tket_json_rs::register::Qubit| {
+            let hash = RegisterHash::from(qubit);
+            self.latest_qubit_tracker
+                .get_index_of(&hash)
+                .ok_or_else(|| PytketDecodeError::unknown_qubit_reg(&qubit.id))
         };
 
         for ImplicitPermutation(input, output) in permutation {
-            let input_pos = position(input);
-            let output_pos = position(output);
+            let input_pos = position(input)?;
+            let output_pos = position(output)?;
             reordered.insert(output_pos, input_pos);
         }
-        self.output_qubit_permutation = reordered.values().copied().collect();
+
+        let inputs: BTreeSet<usize> = reordered.values().copied().collect();
+        if reordered.len() != permutation.len() || !reordered.keys().eq(inputs.iter()) {
+            return Err(PytketDecodeError::custom(
+                "The implicit permutation of the circuit is not a permutation of its qubits.",
+            ));
+        }
+        self.output_qubit_permutation = (0..self.latest_qubit_tracker.len())
+            .map(|i| reordered.get(&i).copied().unwrap_or(i))
+            .collect();
+        Ok(())
     }
 
     /// Returns a reference to the tracked qubit at the given index.
-- 
2.43.0


From ef1b86448936bdf0d3cb27bac4c3b713c93865bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 51/83] fix: decode pytket barriers over bits, and keep their
 data

---
 tket/src/serialize/pytket.rs                  |  2 +
 .../src/serialize/pytket/extension/prelude.rs | 42 ++++++++++++++-----
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/tket/src/serialize/pytket.rs b/tket/src/serialize/pytket.rs
index 07af6e2..00cfab5 100644
--- a/tket/src/serialize/pytket.rs
+++ b/tket/src/serialize/pytket.rs
@@ -50,6 +50,8 @@ pub const METADATA_Q_REGISTERS: &str = "TKET1.qubit_registers";
 pub const METADATA_B_REGISTERS: &str = "TKET1.bit_registers";
 /// A tket1 operation "opgroup" field.
 pub const METADATA_OPGROUP: &str = "TKET1.opgroup";
+/// Additional data attached to a pytket barrier.
+const METADATA_BARRIER_DATA: &str = "TKET1.barrier_data";
 /// Explicit names for the input parameter wires.
 pub const METADATA_INPUT_PARAMETERS: &str = "TKET1.input_parameters";
 
diff --git a/tket/src/serialize/pytket/extension/prelude.rs b/tket/src/serialize/pytket/extension/prelude.rs
index b525c8f..e4f5a97 100644
--- a/tket/src/serialize/pytket/extension/prelude.rs
+++ b/tket/src/serialize/pytket/extension/prelude.rs
@@ -5,14 +5,19 @@ use crate::serialize::pytket::config::TypeTranslatorSet;
 use crate::serialize::pytket::decoder::{
     DecodeStatus, LoadedParameter, PytketDecoderContext, TrackedBit, TrackedQubit,
 };
-use crate::serialize::pytket::encoder::{EmitCommandOptions, EncodeStatus, PytketEncoderContext};
+use crate::serialize::pytket::encoder::{
+    make_tk1_operation, EmitCommandOptions, EncodeStatus, PytketEncoderContext,
+};
 use crate::serialize::pytket::extension::{PytketDecoder, PytketTypeTranslator, RegisterCount};
 use crate::serialize::pytket::opaque::OpaqueSubgraphPayload;
-use crate::serialize::pytket::{PytketDecodeError, PytketEncodeError};
+use crate::serialize::pytket::{PytketDecodeError, PytketEncodeError, METADATA_BARRIER_DATA};
 use crate::Circuit;
+use hugr::builder::Container;
 use hugr::extension::prelude::{bool_t, qb_t, BarrierDef, Noop, TupleOpDef, PRELUDE_ID};
 use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::extension::ExtensionId;
+use hugr::hugr::hugrmut::HugrMut;
+use hugr::ops::handle::NodeHandle;
 use hugr::ops::{ExtensionOp, OpType};
 use hugr::types::TypeArg;
 use hugr::HugrView;
@@ -38,11 +43,21 @@ impl<H: HugrView> PytketEmitter<H> for PreludeEmitter {
             return self.tuple_op_to_pytket(node, op, &tuple_op, circ, encoder);
         };
         if let Ok(_barrier) = BarrierDef::from_extension_op(op) {
-            encoder.emit_node(
-                PytketOptype::Barrier,
+            // Restore the data attached to the pytket barrier, if any.
+            let data = circ
+                .hugr()
+                .get_metadata(node, METADATA_BARRIER_DATA)
+                .and_then(|data| data.as_str())
+                .map(ToString::to_string);
+            encoder.emit_node_command(
                 node,
                 circ,
                 EmitCommandOptions::new().reuse_all_bits(),
+                move |args| {
+                    let mut op = make_tk1_operation(PytketOptype::Barrier, args);
+                    op.data = data;
+                    op
+                },
             )?;
             return Ok(EncodeStatus::Success);
         };
@@ -133,6 +148,7 @@ impl PytketDecoder for PreludeEmitter {
         _opgroup: Option<&str>,
         decoder: &mut PytketDecoderContext<'h>,
     ) -> Result<DecodeStatus, PytketDecodeError> {
+        let data = op.data.as_ref();
         let op: OpType = match op.op_type {
             PytketOptype::noop => Noop::new(qb_t()).into(),
             PytketOptype::Barrier => {
@@ -141,11 +157,7 @@ impl PytketDecoder for PreludeEmitter {
                 //
                 // Those are handled in in the `core.rs` decoder, so we should
                 // ignore them here.
-                if op
-                    .data
-                    .as_ref()
-                    .is_some_and(|payload| OpaqueSubgraphPayload::is_valid_payload(payload))
-                {
+                if data.is_some_and(|payload| OpaqueSubgraphPayload::is_valid_payload(payload)) {
                     return Ok(DecodeStatus::Unsupported);
                 }
 
@@ -158,7 +170,17 @@ impl PytketDecoder for PreludeEmitter {
         if !params.is_empty() {
             return Ok(DecodeStatus::Unsupported);
         }
-        decoder.add_node_with_wires(op, qubits, qubits, bits, &[], &[])?;
+        let node = decoder
+            .add_node_with_wires(op, qubits, qubits, bits, bits, &[])?
+            .node();
+
+        // Keep the data attached to barriers, so it can be restored when encoding.
+        if let Some(data) = data {
+            decoder
+                .builder
+                .hugr_mut()
+                .set_metadata(node, METADATA_BARRIER_DATA, data.as_str());
+        }
 
         Ok(DecodeStatus::Success)
     }
-- 
2.43.0


From b6488abb1cc00f7d7aa94a9036b13e1bfa8628ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 52/83] fix: pytket bits can be read more than once when
 decoding

---
 tket/src/serialize/pytket/decoder.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 99b525f..de3faa0 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -590,7 +590,8 @@ impl<'h> PytketDecoderContext<'h> {
     /// The qubits registers in `wires` are reused between the operation inputs
     /// and outputs. Bit registers, on the other hand, are not reused. We use
     /// the first registers in `wires` for the bit inputs and the remaining
-    /// registers for the outputs.
+    /// registers for the outputs. Input bits that do not appear in the outputs
+    /// keep their value.
     ///
     /// The input wire types must match the operation's input signature, no type
     /// conversion is performed.
@@ -705,10 +706,6 @@ impl<'h> PytketDecoderContext<'h> {
                 .hugr_mut()
                 .connect(wire.node(), wire.source(), node, input_idx);
         }
-        input_bits.iter().take(op_input_count.bits).for_each(|b| {
-            self.wire_tracker.mark_bit_outdated(b.clone());
-        });
-
         // Register the output wires.
         let output_qubits = output_qubits.iter().take(op_output_count.qubits).cloned();
         let output_bits = output_bits.iter().cloned();
-- 
2.43.0


From f02ea7be41fb00f98289cc3bc7c7c8f07932a1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 53/83] fix: positions, constants and nested operations in
 pytket classical expressions

---
 tket/src/serialize/pytket/extension/bool.rs | 61 ++++++++++-----------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/tket/src/serialize/pytket/extension/bool.rs b/tket/src/serialize/pytket/extension/bool.rs
index 4ae5fed..bc31da9 100644
--- a/tket/src/serialize/pytket/extension/bool.rs
+++ b/tket/src/serialize/pytket/extension/bool.rs
@@ -60,7 +60,7 @@ impl<H: HugrView> PytketEmitter<H> for BoolEmitter {
         // variable inputs. If new [`BoolOp`]s are added that do not follow
         // this, the following code will need to be adjusted.
         let bit_count = (num_inputs + num_outputs) as usize;
-        let output_bits = (0..num_outputs).collect_vec();
+        let output_bits = (num_inputs..num_inputs + num_outputs).collect_vec();
         let mut expression = ClOperator::default();
         expression.op = clop;
         expression.args = (0..num_inputs)
@@ -127,31 +127,6 @@ impl PytketDecoder for BoolEmitter {
             return Ok(DecodeStatus::Unsupported);
         };
 
-        // We only decode classical expressions if their operands are the input
-        // bits in 0..n order, and the output comes immediately after.
-        //
-        // This can be easily relaxed if needed.
-        for (i, reg) in clexpr.reg_posn.iter().enumerate() {
-            if reg.index != i as u32 || reg.bits.0.len() != 1 {
-                return Ok(DecodeStatus::Unsupported);
-            }
-        }
-        for (i, arg) in clexpr.expr.args.iter().enumerate() {
-            match arg {
-                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Bit { index }))
-                    if *index != i as u32 =>
-                {
-                    return Ok(DecodeStatus::Unsupported);
-                }
-                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Register { index }))
-                    if *index != i as u32 =>
-                {
-                    return Ok(DecodeStatus::Unsupported);
-                }
-                _ => continue,
-            }
-        }
-
         let (op, num_inputs) = match clexpr.expr.op {
             ClOp::BitEq => (BoolOp::eq, 2),
             ClOp::BitNot => (BoolOp::not, 1),
@@ -161,16 +136,40 @@ impl PytketDecoder for BoolEmitter {
             _ => return Ok(DecodeStatus::Unsupported),
         };
 
-        if !params.is_empty() {
+        if !params.is_empty() || !qubits.is_empty() {
             return Ok(DecodeStatus::Unsupported);
         }
 
+        // We only decode classical expressions with a single operation over bit
+        // variables, and a single bit as output.
+        if clexpr.expr.args.len() != num_inputs {
+            return Ok(DecodeStatus::Unsupported);
+        }
+        let mut input_bits = Vec::with_capacity(num_inputs);
+        for arg in &clexpr.expr.args {
+            let ClArgument::Terminal(ClTerminal::Variable(ClVariable::Bit { index })) = arg else {
+                return Ok(DecodeStatus::Unsupported);
+            };
+            let position = clexpr.bit_posn.iter().find(|(var, _)| var == index);
+            let Some(bit) = position.and_then(|(_, pos)| bits.get(*pos as usize)) else {
+                return Ok(DecodeStatus::Unsupported);
+            };
+            input_bits.push(bit.clone());
+        }
+        let output_bits = match clexpr.output_posn.0.as_slice() {
+            [pos] => bits.get(*pos as usize),
+            _ => None,
+        };
+        let Some(output_bit) = output_bits else {
+            return Ok(DecodeStatus::Unsupported);
+        };
+
         decoder.add_node_with_wires(
             op,
-            qubits,
-            qubits,
-            &bits[..num_inputs],
-            &bits[num_inputs..],
+            &[],
+            &[],
+            &input_bits,
+            std::slice::from_ref(output_bit),
             &[],
         )?;
 
-- 
2.43.0


From 1a01d3940f739ecd915c0107d1927ec61b56d2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 54/83] fix: connect the free parameters of boxed pytket
 circuits

---
 tket/src/serialize/pytket/extension/core.rs | 33 +++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/extension/core.rs b/tket/src/serialize/pytket/extension/core.rs
index 3cabde8..ef548f2 100644
--- a/tket/src/serialize/pytket/extension/core.rs
+++ b/tket/src/serialize/pytket/extension/core.rs
@@ -11,11 +11,15 @@ use crate::serialize::pytket::decoder::{
 };
 use crate::serialize::pytket::extension::PytketDecoder;
 use crate::serialize::pytket::opaque::OpaqueSubgraphPayload;
-use crate::serialize::pytket::{DecodeInsertionTarget, DecodeOptions, PytketDecodeError};
+use crate::serialize::pytket::{
+    DecodeInsertionTarget, DecodeOptions, PytketDecodeError, METADATA_INPUT_PARAMETERS,
+};
 use hugr::builder::Container;
 use hugr::extension::prelude::{bool_t, qb_t};
 use hugr::ops::handle::NodeHandle;
 use hugr::types::{Signature, Type};
+use hugr::HugrView;
+use hugr_core::hugr::internal::HugrMutInternals;
 use itertools::Itertools;
 use tket_json_rs::circuit_json::Operation as PytketOperation;
 use tket_json_rs::opbox::OpBox;
@@ -88,8 +92,33 @@ impl PytketDecoder for CoreDecoder {
                 nested_decoder.run_decoder(&serial_circuit.commands, None)?;
                 let internal = nested_decoder.finish(&[])?.node();
 
+                // Free variables in the box add further parameter inputs to the
+                // DFG. Load them from the region containing the box.
+                let box_params: Vec<String> = decoder
+                    .builder
+                    .hugr()
+                    .get_metadata(internal, METADATA_INPUT_PARAMETERS)
+                    .and_then(|names| serde_json::from_value(names.clone()).ok())
+                    .unwrap_or_default();
+                let dfg_op = decoder.builder.hugr().get_optype(internal);
+                let (num_inputs, num_outputs) = (dfg_op.input_count(), dfg_op.output_count());
+                decoder
+                    .builder
+                    .hugr_mut()
+                    .set_num_ports(internal, num_inputs, num_outputs);
+                let params = params
+                    .iter()
+                    .copied()
+                    .chain(
+                        box_params
+                            .iter()
+                            .skip(params.len())
+                            .map(|name| decoder.load_half_turns(name)),
+                    )
+                    .collect_vec();
+
                 decoder
-                    .wire_up_node(internal, qubits, qubits, bits, bits, params)
+                    .wire_up_node(internal, qubits, qubits, bits, bits, &params)
                     .map_err(|e| e.hugr_op("DFG"))?;
 
                 Ok(DecodeStatus::Success)
-- 
2.43.0


From 15150ee8f894673cc41b6a24b73b20e85db616ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 55/83] fix: decoding pytket operations with too few operands
 is an error

---
 tket/src/serialize/pytket/decoder/wires.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 067ae2b..fdcf1fe 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -747,8 +747,10 @@ impl WireTracker {
             // Handle lazy initialization of qubit and bit wires. These are
             // normally qubits/bits present in the pytket circuit definition,
             // but not in the region's input.
-            _ if ty == &qb_t() => self.initialize_qubit_wire(builder, qubit_args[0].clone())?,
-            _ if ty == &bool_t() || ty == &bool_type() => {
+            _ if ty == &qb_t() && !wire_qubits.is_empty() => {
+                self.initialize_qubit_wire(builder, qubit_args[0].clone())?
+            }
+            _ if (ty == &bool_t() || ty == &bool_type()) && !wire_bits.is_empty() => {
                 self.initialize_bit_wire(builder, bit_args[0].clone())?
             }
             _ => {
@@ -847,7 +849,7 @@ impl WireTracker {
         //
         // Ignore parameter inputs.
         let mut tracked_wires = TrackedWires {
-            value_wires: Vec::with_capacity(types.len() - params.len()),
+            value_wires: Vec::with_capacity(types.len().saturating_sub(params.len())),
             parameter_wires: Vec::with_capacity(params.len()),
         };
         for ty in types {
-- 
2.43.0


From 4cc8904b4708a45e32a2b7744089ecacbdb5c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 56/83] fix: type of converted wires when decoding pytket
 circuits

---
 tket/src/serialize/pytket/decoder/wires.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index fdcf1fe..f9ed2ea 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -802,8 +802,7 @@ impl WireTracker {
         if wire == new_wire {
             Ok(FoundWire::Register(self.wires[&wire].clone()))
         } else {
-            let ty: Arc<Type> = wire_data.ty.clone();
-            self.track_wire(new_wire, ty, wire_qubits, wire_bits)?;
+            self.track_wire(new_wire, Arc::new(ty.clone()), wire_qubits, wire_bits)?;
             self.mark_wire_outdated(wire);
             Ok(FoundWire::Register(self.wires[&new_wire].clone()))
         }
-- 
2.43.0


From 8f133b2894aab0afd4e18183c86658e0e803686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 57/83] fix: order of qubits and bits, and group, of opaque
 pytket operations

---
 tket/src/serialize/pytket/decoder.rs       | 14 +++++++-
 tket/src/serialize/pytket/encoder.rs       | 20 +++++++++--
 tket/src/serialize/pytket/extension/tk1.rs | 40 +++++++++++++++++++---
 3 files changed, 66 insertions(+), 8 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index de3faa0..3f8fe8f 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -532,7 +532,19 @@ impl<'h> PytketDecoderContext<'h> {
             DecodeStatus::Unsupported => {
                 // The command couldn't be translated into a native HUGR counterpart, so
                 // we generate an opaque `Tk1Op` instead.
-                build_opaque_tket_op(op, &qubits, &bits, &params, opgroup, self)?;
+                let arg_is_qubit = args
+                    .iter()
+                    .map(|arg| self.wire_tracker.tracked_bit_for_register(arg).is_err())
+                    .collect_vec();
+                build_opaque_tket_op(
+                    op,
+                    &arg_is_qubit,
+                    &qubits,
+                    &bits,
+                    &params,
+                    opgroup,
+                    self,
+                )?;
             }
         }
         Ok(())
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 1759437..664cd28 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -700,6 +700,9 @@ impl<H: HugrView> PytketEncoderContext<H> {
     ///   Normally obtained from a HUGR node's inputs using
     ///   [`PytketEncoderContext::get_input_values`] or allocated via
     ///   [`ValueTracker::new_bit`].
+    ///
+    ///   The command arguments are the qubits followed by the bits, unless the
+    ///   signature in `pytket_op` lists them in a different order.
     /// - `opgroup`: A tket1 [operation group
     ///   identifier](https://docs.quantinuum.com/tket/user-guide/manual/manual_circuit.html#modifying-operations-within-circuits),
     ///   if any.
@@ -710,11 +713,22 @@ impl<H: HugrView> PytketEncoderContext<H> {
         bits: &[TrackedBit],
         opgroup: Option<String>,
     ) {
-        let qubit_regs = qubits.iter().map(|&qb| self.values.qubit_register(qb));
-        let bit_regs = bits.iter().map(|&b| self.values.bit_register(b));
+        let mut qubit_regs = qubits.iter().map(|&qb| self.values.qubit_register(qb));
+        let mut bit_regs = bits.iter().map(|&b| self.values.bit_register(b));
+
+        // If the operation signature mixes qubits and bits, follow its order.
+        let mut args = Vec::with_capacity(qubits.len() + bits.len());
+        for arg in pytket_op.signature.iter().flatten() {
+            args.extend(match arg.as_str() {
+                "Q" => qubit_regs.next(),
+                _ => bit_regs.next(),
+            });
+        }
+        args.extend(qubit_regs.chain(bit_regs));
+
         let command = circuit_json::Command {
             op: pytket_op,
-            args: qubit_regs.chain(bit_regs).cloned().collect(),
+            args: args.into_iter().cloned().collect(),
             opgroup,
         };
 
diff --git a/tket/src/serialize/pytket/extension/tk1.rs b/tket/src/serialize/pytket/extension/tk1.rs
index 2cd84f6..b4fac16 100644
--- a/tket/src/serialize/pytket/extension/tk1.rs
+++ b/tket/src/serialize/pytket/extension/tk1.rs
@@ -6,13 +6,17 @@ use crate::serialize::pytket::decoder::{
     LoadedParameter, PytketDecoderContext, TrackedBit, TrackedQubit,
 };
 use crate::serialize::pytket::encoder::{EmitCommandOptions, EncodeStatus};
-use crate::serialize::pytket::{PytketDecodeError, PytketEncodeError, PytketEncoderContext};
+use crate::serialize::pytket::{
+    PytketDecodeError, PytketEncodeError, PytketEncoderContext, METADATA_OPGROUP,
+};
 use crate::Circuit;
 
 use super::PytketEmitter;
-use hugr::builder::Dataflow;
+use hugr::builder::{Container, Dataflow};
 use hugr::extension::prelude::{bool_t, qb_t};
 use hugr::extension::ExtensionId;
+use hugr::hugr::hugrmut::HugrMut;
+use hugr::ops::handle::NodeHandle;
 use hugr::ops::{ExtensionOp, OpTrait, OpType};
 use hugr::types::{Signature, TypeArg};
 use hugr::{HugrView, IncomingPort};
@@ -70,18 +74,39 @@ impl<H: HugrView> PytketEmitter<H> for Tk1Emitter {
 ///
 /// This function is used internally by the [`PytketDecoderContext`] as a fallback.
 ///
+/// `arg_is_qubit` lists whether each argument of the command is a qubit or a bit.
+///
 /// TODO: This only accepts input/outputs composed of bare qubit, bit, and parameter wires.
 /// We should accept arbitrary wires, but the opaque extension op needs to be modified (or replaced with a new one)
 /// since it currently has a limited signature definition.
 pub(crate) fn build_opaque_tket_op<'h>(
     op: &tket_json_rs::circuit_json::Operation,
+    arg_is_qubit: &[bool],
     qubits: &[TrackedQubit],
     bits: &[TrackedBit],
     params: &[LoadedParameter],
-    _opgroup: &Option<String>,
+    opgroup: &Option<String>,
     decoder: &mut PytketDecoderContext<'h>,
 ) -> Result<(), PytketDecodeError> {
-    let tk1op: OpType = OpaqueTk1Op::new_from_op(op, qubits.len(), bits.len())
+    // Store the order of the qubit and bit arguments in the operation
+    // signature, unless it is already defined there.
+    let mut op = op.clone();
+    let matches_args = |signature: &[String]| {
+        itertools::equal(
+            signature.iter().map(|arg| arg == "Q"),
+            arg_is_qubit.iter().copied(),
+        )
+    };
+    if !op.signature.as_deref().is_some_and(matches_args) {
+        op.signature = Some(
+            arg_is_qubit
+                .iter()
+                .map(|&is_qubit| if is_qubit { "Q" } else { "B" }.to_string())
+                .collect(),
+        );
+    }
+
+    let tk1op: OpType = OpaqueTk1Op::new_from_op(&op, qubits.len(), bits.len())
         .as_extension_op()
         .into();
     let op_name = tk1op.to_string();
@@ -105,6 +130,13 @@ pub(crate) fn build_opaque_tket_op<'h>(
         .add_dataflow_op(tk1op, wires.value_wires().chain(param_wires))
         .map_err(|e| PytketDecodeError::custom(e).hugr_op(&op_name))?;
 
+    if let Some(opgroup) = opgroup {
+        decoder
+            .builder
+            .hugr_mut()
+            .set_metadata(opaque_op.node(), METADATA_OPGROUP, opgroup.as_str());
+    }
+
     // Associate the output wires to the corresponding register.
     let mut outputs = opaque_op.outputs();
 
-- 
2.43.0


From 88c6b51007f310f6d8fc65d896862ec4faa655e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 58/83] fix: pytket operations cannot use a qubit more than
 once

---
 tket/src/serialize/pytket/decoder/wires.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index f9ed2ea..7e0ad1e 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -617,11 +617,13 @@ impl WireTracker {
 
     /// Given a list of pytket registers, splits them into qubit and bits and
     /// returns the latest tracked elements for each.
+    ///
+    /// Returns an error if a qubit appears more than once.
     pub(super) fn pytket_args_to_tracked_elems(
         &self,
         args: &[PytketRegister],
     ) -> Result<(Vec<TrackedQubit>, Vec<TrackedBit>), PytketDecodeError> {
-        let mut qubit_args = Vec::with_capacity(args.len());
+        let mut qubit_args: Vec<TrackedQubit> = Vec::with_capacity(args.len());
         let mut bit_args = Vec::new();
 
         for arg in args {
@@ -630,7 +632,13 @@ impl WireTracker {
             if is_bit {
                 bit_args.push(self.tracked_bit_for_register(arg)?.clone());
             } else {
-                qubit_args.push(self.tracked_qubit_for_register(arg)?.clone());
+                let qubit = self.tracked_qubit_for_register(arg)?;
+                if qubit_args.iter().any(|q| q.id() == qubit.id()) {
+                    return Err(PytketDecodeError::custom(format!(
+                        "Qubit {qubit} is used more than once by an operation",
+                    )));
+                }
+                qubit_args.push(qubit.clone());
             }
         }
         Ok((qubit_args, bit_args))
-- 
2.43.0


From d6b771615f2e190901af4f417d390e99f562355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 59/83] fix: unsupported output types in a pytket decoder
 signature are an error

---
 tket/src/serialize/pytket/decoder.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 3f8fe8f..a757e6f 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -382,16 +382,15 @@ impl<'h> PytketDecoderContext<'h> {
                     param.with_type(param_ty, &mut self.builder).wire()
                 }
                 FoundWire::Unsupported { .. } => {
-                    // Disconnected port with an unsupported type. We just skip
-                    // it, since it must have been disconnected in the original
-                    // hugr too.
-                    debug_assert!(self
-                        .builder
-                        .hugr()
-                        .get_optype(output_node)
-                        .port_kind(port)
-                        .is_none_or(|kind| !kind.is_value()));
-                    continue;
+                    // There is no register to build a value of this type from.
+                    return Err(PytketDecodeErrorInner::InvalidOutputSignature {
+                        expected_types: expected_output_types
+                            .iter()
+                            .map(ToString::to_string)
+                            .collect(),
+                    }
+                    .wrap()
+                    .hugr_op("Output"));
                 }
             };
             self.builder
-- 
2.43.0


From da41fab0eb23296f940066fded354f7d6f531658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 60/83] fix: decode pytket circuits with registers inside
 complex inputs, or unused linear inputs

---
 tket/src/serialize/pytket/decoder.rs       | 14 ++++++++++++-
 tket/src/serialize/pytket/decoder/wires.rs | 23 ++++++++++++++++++----
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index a757e6f..3bdf4e0 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -325,7 +325,8 @@ impl<'h> PytketDecoderContext<'h> {
             .hugr()
             .get_optype(self.builder.container_node())
             .inner_function_type()
-            .unwrap();
+            .unwrap()
+            .into_owned();
         let expected_output_types = function_type.output_types().iter().cloned().collect_vec();
         let [_, output_node] = self.builder.io();
 
@@ -401,6 +402,17 @@ impl<'h> PytketDecoderContext<'h> {
         // Qubits not in the output need to be freed.
         self.add_implicit_qfree_operations(qubits);
 
+        // Input values that cannot be dropped must have been used.
+        let [input_node, _] = self.builder.io();
+        for (wire, ty) in self.builder.input_wires().zip(function_type.input_types()) {
+            if !ty.copyable() && !self.builder.hugr().is_linked(input_node, wire.source()) {
+                return Err(PytketDecodeError::custom(format!(
+                    "The input with type {ty} is not used in the circuit, and cannot be discarded"
+                ))
+                .hugr_op("Input"));
+            }
+        }
+
         // Store the name for the input parameter wires
         let input_params = self.wire_tracker.finish();
         if !input_params.is_empty() {
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 7e0ad1e..fe15328 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -474,6 +474,13 @@ impl WireTracker {
             .is_some_and(|ws| !ws.is_empty())
     }
 
+    /// Returns `true` if the tracked bit has been initialized.
+    fn bit_is_initialized(&self, bit: &TrackedBit) -> bool {
+        self.bit_wires
+            .get(&bit.id())
+            .is_some_and(|ws| !ws.is_empty())
+    }
+
     /// Returns the list of known pytket registers, in the order we expect to
     /// see them at the output.
     ///
@@ -755,10 +762,18 @@ impl WireTracker {
             // Handle lazy initialization of qubit and bit wires. These are
             // normally qubits/bits present in the pytket circuit definition,
             // but not in the region's input.
-            _ if ty == &qb_t() && !wire_qubits.is_empty() => {
+            _ if ty == &qb_t()
+                && wire_qubits
+                    .first()
+                    .is_some_and(|q| !self.qubit_is_initialized(q)) =>
+            {
                 self.initialize_qubit_wire(builder, qubit_args[0].clone())?
             }
-            _ if (ty == &bool_t() || ty == &bool_type()) && !wire_bits.is_empty() => {
+            _ if (ty == &bool_t() || ty == &bool_type())
+                && wire_bits
+                    .first()
+                    .is_some_and(|b| !self.bit_is_initialized(b)) =>
+            {
                 self.initialize_bit_wire(builder, bit_args[0].clone())?
             }
             _ => {
@@ -800,8 +815,8 @@ impl WireTracker {
         }
 
         // Mark the qubits and bits as used.
-        *qubit_args = &qubit_args[reg_count.qubits..];
-        *bit_args = &bit_args[reg_count.bits..];
+        *qubit_args = &qubit_args[wire_qubit_ids.len()..];
+        *bit_args = &bit_args[wire_bit_ids.len()..];
 
         // Convert the wire type, if needed.
         let wire_data = &self.wires[&wire];
-- 
2.43.0


From 8febe55813b567b1de8e2ada5443920d84593b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 61/83] fix: keep the data of pytket barriers when encoding
 standalone circuits

---
 tket/src/serialize/pytket/opaque.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/opaque.rs b/tket/src/serialize/pytket/opaque.rs
index 0006831..b5d8b2b 100644
--- a/tket/src/serialize/pytket/opaque.rs
+++ b/tket/src/serialize/pytket/opaque.rs
@@ -129,11 +129,11 @@ impl<N: HugrNode> OpaqueSubgraphs<N> {
         if command.op.op_type != tket_json_rs::OpType::Barrier {
             return Ok(());
         }
-        let Some(payload) = command.op.data.take() else {
+        let Some(payload) = &command.op.data else {
             return Ok(());
         };
 
-        let Some(subgraph_id) = OpaqueSubgraphPayload::parse_external_id(&payload) else {
+        let Some(subgraph_id) = OpaqueSubgraphPayload::parse_external_id(payload) else {
             // Not an External Payload, nothing to do.
             return Ok(());
         };
-- 
2.43.0


From bf0df7ab21ace321e1c78f62bf946add57dfbd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 62/83] fix: encode opaque subgraphs with dead results or
 shared values as inline payloads

---
 tket/src/serialize/pytket/opaque/subgraph.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tket/src/serialize/pytket/opaque/subgraph.rs b/tket/src/serialize/pytket/opaque/subgraph.rs
index a001088..f587821 100644
--- a/tket/src/serialize/pytket/opaque/subgraph.rs
+++ b/tket/src/serialize/pytket/opaque/subgraph.rs
@@ -1,7 +1,7 @@
 //! Opaque subgraph definition.
 
 use hugr::ops::OpTrait;
-use itertools::{Either, Itertools};
+use itertools::Either;
 
 use std::collections::BTreeSet;
 
@@ -173,8 +173,17 @@ impl<N: HugrNode> OpaqueSubgraph<N> {
         &self,
         hugr: &impl HugrView<Node = N>,
     ) -> Result<Hugr, InvalidSubgraph<N>> {
-        let nodes = self.nodes().iter().cloned().collect_vec();
-        let subgraph = SiblingSubgraph::try_from_nodes(nodes, hugr).unwrap();
+        if self.nodes.is_empty() {
+            return Err(InvalidSubgraph::EmptySubgraph);
+        }
+        // The subgraph is convex by construction, and we have already computed
+        // its boundary.
+        let subgraph = SiblingSubgraph::new_unchecked(
+            self.incoming_ports.iter().map(|&p| vec![p]).collect(),
+            self.outgoing_ports.clone(),
+            vec![],
+            self.nodes.iter().copied().collect(),
+        );
         Ok(subgraph.extract_subgraph(hugr, ""))
     }
 }
-- 
2.43.0


From 0b96b76750b7e6f286206e6a6c24a3fb74f00801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 63/83] fix: connect the unsupported values passed between
 inline pytket payloads

---
 tket/src/serialize/pytket/decoder/subgraph.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index b74d2a2..3dc8ab1 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -354,6 +354,11 @@ impl<'h> PytketDecoderContext<'h> {
         // the pytket circuit get reordered and input ports are seen before their
         // outputs.
         for ((ty, edge_id), targets) in payload_inputs.iter().zip_eq(to_insert_inputs) {
+            // Nodes in the inserted hugr have new ids.
+            let targets = targets
+                .into_iter()
+                .map(|(n, port)| (insertion_result.node_map[&n], port))
+                .collect_vec();
             let found_wire = self.wire_tracker.find_typed_wire(
                 &self.config,
                 &mut self.builder,
@@ -377,8 +382,7 @@ impl<'h> PytketDecoderContext<'h> {
                 }
             };
 
-            for (to_insert_node, port) in targets {
-                let node = *insertion_result.node_map.get(&to_insert_node).unwrap();
+            for (node, port) in targets {
                 self.builder
                     .hugr_mut()
                     .connect(wire.node(), wire.source(), node, port);
-- 
2.43.0


From 9798eb527eaa68a348d5fd632c647afd8d32cebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 64/83] fix: decode tuples shared by pytket payloads and native
 operations, and free lazily initialised qubits once

---
 tket/src/serialize/pytket/decoder/wires.rs | 176 ++++++++++++++++++++-
 1 file changed, 171 insertions(+), 5 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index fe15328..13c3908 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -4,11 +4,11 @@ use std::collections::{BTreeMap, BTreeSet, VecDeque};
 use std::sync::Arc;
 
 use hugr::builder::{DFGBuilder, Dataflow as _};
-use hugr::extension::prelude::{bool_t, qb_t};
+use hugr::extension::prelude::{bool_t, qb_t, MakeTuple, UnpackTuple};
 use hugr::hugr::hugrmut::HugrMut;
 use hugr::ops::Value;
 use hugr::std_extensions::arithmetic::float_types::{float64_type, ConstF64};
-use hugr::types::Type;
+use hugr::types::{Type, TypeRow};
 use hugr::{Hugr, IncomingPort, Node, Wire};
 use indexmap::{IndexMap, IndexSet};
 use itertools::Itertools;
@@ -776,6 +776,27 @@ impl WireTracker {
             {
                 self.initialize_bit_wire(builder, bit_args[0].clone())?
             }
+            _ if !wire_qubits.iter().any(|q| q.is_outdated())
+                && !wire_bits.iter().any(|b| b.is_outdated())
+                && self.unpack_first_wire(config, builder, ty, reg_count, qubit_args, bit_args) =>
+            {
+                // One of the candidates was a tuple containing the value. Retry
+                // with its elements.
+                return self.find_typed_wire(
+                    config,
+                    builder,
+                    ty,
+                    qubit_args,
+                    bit_args,
+                    params,
+                    unsupported_wire,
+                );
+            }
+            _ if ty.as_sum().is_some_and(|s| s.as_tuple().is_some())
+                && wire_qubits.len() + wire_bits.len() > 0 =>
+            {
+                return self.pack_tuple(config, builder, ty, qubit_args, bit_args, params);
+            }
             _ => {
                 return Err(PytketDecodeErrorInner::NoMatchingWire {
                     ty: ty.to_string(),
@@ -831,6 +852,140 @@ impl WireTracker {
         }
     }
 
+    /// If the first register in the arguments is part of a tuple from which we
+    /// can extract a value of the given type, unpack it and track its elements
+    /// instead.
+    ///
+    /// The elements contain the same [`TrackedQubit`]s and [`TrackedBit`]s as
+    /// the original wire.
+    ///
+    /// Helper for [`Self::find_typed_wire`].
+    fn unpack_first_wire(
+        &mut self,
+        config: &PytketDecoderConfig,
+        builder: &mut DFGBuilder<&mut Hugr>,
+        ty: &Type,
+        ty_count: RegisterCount,
+        qubits: &[TrackedQubit],
+        bits: &[TrackedBit],
+    ) -> bool {
+        let is_tuple = |ty: &Type| ty.as_sum().is_some_and(|s| s.as_tuple().is_some());
+
+        // Find a tuple to unpack, and compute its element types.
+        let first_qubit = qubits.first().filter(|_| ty_count.qubits > 0);
+        let first_bit = bits.first().filter(|_| ty_count.bits > 0);
+        let qubit_wires = first_qubit.into_iter().flat_map(|q| self.qubit_wires(q));
+        let bit_wires = first_bit.into_iter().flat_map(|b| self.bit_wires(b));
+        let Some((data, elems)) = qubit_wires.chain(bit_wires).find_map(|w| {
+            let data = &self.wires[&w];
+            let register_count = data.num_qubits() + data.num_bits();
+            if is_tuple(ty) && register_count <= ty_count.qubits + ty_count.bits {
+                return None;
+            }
+            let elems = data.ty().as_sum()?.as_tuple()?.clone();
+            let elems: TypeRow = elems.try_into().ok()?;
+            Some((data.clone(), elems))
+        }) else {
+            return false;
+        };
+        // Elements without registers (e.g. units) are not translated to pytket.
+        let counts = elems
+            .iter()
+            .map(|ty| config.type_to_pytket(ty).unwrap_or_default())
+            .collect_vec();
+        let Ok(unpack) = builder.add_dataflow_op(UnpackTuple::new(elems.clone()), [data.wire()])
+        else {
+            return false;
+        };
+
+        // Track the elements instead of the tuple.
+        self.untrack_wire(&data);
+        let mut qubits = data.qubits.iter().copied();
+        let mut bits = data.bits.iter().copied();
+        for ((ty, count), wire) in elems.iter().zip_eq(counts).zip_eq(unpack.outputs()) {
+            self.track_wire_ids(WireData {
+                wire,
+                ty: Arc::new(ty.clone()),
+                qubits: qubits.by_ref().take(count.qubits).collect(),
+                bits: bits.by_ref().take(count.bits).collect(),
+            });
+        }
+        true
+    }
+
+    /// Build a tuple containing the given registers.
+    ///
+    /// Helper for [`Self::find_typed_wire`].
+    fn pack_tuple(
+        &mut self,
+        config: &PytketDecoderConfig,
+        builder: &mut DFGBuilder<&mut Hugr>,
+        ty: &Type,
+        qubit_args: &mut &[TrackedQubit],
+        bit_args: &mut &[TrackedBit],
+        params: &mut &[LoadedParameter],
+    ) -> Result<FoundWire, PytketDecodeError> {
+        let elem_types = ty
+            .as_sum()
+            .and_then(|s| s.as_tuple())
+            .and_then(|row| TypeRow::try_from(row.clone()).ok())
+            .ok_or_else(|| PytketDecodeError::custom("Unsupported tuple type"))?;
+        let mut elems = Vec::with_capacity(elem_types.len());
+        for elem_ty in elem_types.iter() {
+            let elem = match config.type_to_pytket(elem_ty) {
+                // Elements without registers (e.g. units) are not translated to pytket.
+                None => self.pack_tuple(config, builder, elem_ty, qubit_args, bit_args, params),
+                Some(_) => self
+                    .find_typed_wire(config, builder, elem_ty, qubit_args, bit_args, params, None),
+            };
+            match elem? {
+                FoundWire::Register(data) => elems.push(data),
+                FoundWire::Parameter(_) | FoundWire::Unsupported { .. } => {
+                    return Err(PytketDecodeError::custom(format!(
+                        "Cannot build a value of type {ty}"
+                    )))
+                }
+            }
+        }
+        let tuple = builder
+            .add_dataflow_op(MakeTuple::new(elem_types), elems.iter().map(WireData::wire))
+            .map_err(PytketDecodeError::custom)?;
+        let data = WireData {
+            wire: tuple.out_wire(0),
+            ty: Arc::new(ty.clone()),
+            qubits: elems.iter().flat_map(|d| d.qubits.clone()).collect(),
+            bits: elems.iter().flat_map(|d| d.bits.clone()).collect(),
+        };
+        // Linear elements were consumed by the tuple.
+        for elem in elems.iter().filter(|data| !data.ty().copyable()) {
+            self.untrack_wire(elem);
+        }
+        self.track_wire_ids(data.clone());
+        Ok(FoundWire::Register(data))
+    }
+
+    /// Stop tracking a wire.
+    fn untrack_wire(&mut self, data: &WireData) {
+        for q in &data.qubits {
+            self.qubit_wires[q].retain(|w| *w != data.wire);
+        }
+        for b in &data.bits {
+            self.bit_wires[b].retain(|w| *w != data.wire);
+        }
+        self.wires.shift_remove(&data.wire);
+    }
+
+    /// Track a wire containing already registered elements.
+    fn track_wire_ids(&mut self, data: WireData) {
+        for q in &data.qubits {
+            self.qubit_wires[q].push(data.wire);
+        }
+        for b in &data.bits {
+            self.bit_wires[b].push(data.wire);
+        }
+        self.wires.insert(data.wire, data);
+    }
+
     /// Returns a new [TrackedWires] set for a list of [`TrackedQubit`]s,
     /// [`TrackedBit`]s, and [`LoadedParameter`]s following the required types.
     ///
@@ -1176,7 +1331,13 @@ impl WireTracker {
             .add_dataflow_op(TketOp::QAlloc, [])
             .unwrap()
             .out_wire(0);
-        self.track_wire(wire, qubit.ty(), [qubit], [])?;
+        // Keep the tracked element, so the caller can mark it as outdated.
+        self.track_wire_ids(WireData {
+            wire,
+            ty: qubit.ty(),
+            qubits: vec![qubit.id()],
+            bits: vec![],
+        });
         Ok(wire)
     }
 
@@ -1190,7 +1351,12 @@ impl WireTracker {
         bit: TrackedBit,
     ) -> Result<Wire, PytketDecodeError> {
         let wire = builder.add_load_const(Value::false_val());
-        self.track_wire(wire, bit.ty(), [], [bit])?;
+        self.track_wire_ids(WireData {
+            wire,
+            ty: bit.ty(),
+            qubits: vec![],
+            bits: vec![bit.id()],
+        });
         Ok(wire)
     }
 }
@@ -1235,7 +1401,7 @@ pub(in crate::serialize::pytket) enum FoundWire {
 #[cfg(test)]
 mod tests {
     use super::*;
-    use hugr::extension::prelude::{bool_t, qb_t};
+    use hugr::extension::prelude::{bool_t, qb_t, MakeTuple, UnpackTuple};
     use hugr::types::SumType;
     use hugr::Node;
     use rstest::{fixture, rstest};
-- 
2.43.0


From d3ab982c8d7f8d9374ba51b4e9b6d0292991969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 65/83] fix: refuse pytket circuits that declare a register
 twice

---
 tket/src/serialize/pytket/decoder.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 3bdf4e0..57dfef4 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -206,6 +206,14 @@ impl<'h> PytketDecoderContext<'h> {
 
         let mut wire_tracker = WireTracker::with_capacity(num_qubits, num_bits);
 
+        let qubit_ids = serialcirc.qubits.iter().map(|qb| &qb.id);
+        let bit_ids = serialcirc.bits.iter().map(|bit| &bit.id);
+        if let Some(register) = qubit_ids.chain(bit_ids).duplicates().next() {
+            return Err(PytketDecodeError::custom(format!(
+                "Register {register} is declared more than once in the circuit"
+            )));
+        }
+
         let mut qubits = serialcirc
             .qubits
             .iter()
@@ -547,15 +555,7 @@ impl<'h> PytketDecoderContext<'h> {
                     .iter()
                     .map(|arg| self.wire_tracker.tracked_bit_for_register(arg).is_err())
                     .collect_vec();
-                build_opaque_tket_op(
-                    op,
-                    &arg_is_qubit,
-                    &qubits,
-                    &bits,
-                    &params,
-                    opgroup,
-                    self,
-                )?;
+                build_opaque_tket_op(op, &arg_is_qubit, &qubits, &bits, &params, opgroup, self)?;
             }
         }
         Ok(())
-- 
2.43.0


From 66c73075c3c64764bd7de98a568bb670f08f3a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 66/83] fix: refuse standalone pytket circuits that would lose
 operations without registers

---
 tket/src/serialize/pytket/circuit.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/circuit.rs b/tket/src/serialize/pytket/circuit.rs
index 100eb6b..5633d80 100644
--- a/tket/src/serialize/pytket/circuit.rs
+++ b/tket/src/serialize/pytket/circuit.rs
@@ -7,7 +7,7 @@ use std::sync::Arc;
 use hugr::core::{HugrNode, IncomingPort, OutgoingPort};
 use hugr::hugr::hugrmut::HugrMut;
 use hugr::ops::handle::NodeHandle;
-use hugr::ops::{OpParent, OpTag, OpTrait};
+use hugr::ops::{OpParent, OpTag, OpTrait, OpType};
 use hugr::types::EdgeKind;
 use hugr::{Hugr, HugrView, Node};
 use hugr_core::hugr::internal::HugrMutInternals;
@@ -377,6 +377,12 @@ impl<Node: HugrNode> EncodedCircuit<Node> {
     /// payloads in opaque barriers with inline payloads.
     ///
     /// Barrier operation with unrecognised payloads will be ignored.
+    ///
+    /// # Errors
+    ///
+    /// Returns a [`PytketEncodeError::UnsupportedSubgraphHasNoRegisters`] error
+    /// if some operations of the original HUGR have no qubits or bits to attach
+    /// a barrier command to, and hence cannot be part of a standalone circuit.
     pub fn ensure_standalone(
         &mut self,
         hugr: &impl HugrView<Node = Node>,
@@ -403,6 +409,23 @@ impl<Node: HugrNode> EncodedCircuit<Node> {
         }
 
         for encoded in self.circuits.values_mut() {
+            let extras = &encoded.additional_nodes_and_wires;
+            if let Some(subgraph_id) = extras.extra_subgraph {
+                // Only dead constants can be dropped from the circuit.
+                let subgraph = &self.opaque_subgraphs[subgraph_id];
+                let is_dead_constants = subgraph.signature().output_count() == 0
+                    && subgraph.nodes().iter().all(|&node| {
+                        matches!(
+                            hugr.get_optype(node),
+                            OpType::LoadConstant(_) | OpType::LoadFunction(_)
+                        )
+                    });
+                if !is_dead_constants {
+                    return Err(PytketEncodeError::UnsupportedSubgraphHasNoRegisters {
+                        params: extras.extra_subgraph_params.clone(),
+                    });
+                }
+            }
             make_commands_standalone(
                 &mut encoded.serial_circuit.commands,
                 &self.opaque_subgraphs,
-- 
2.43.0


From a9b63fde3893438396d04d5c0dae42302623c5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 67/83] fix: keep all elements of tuple constants encoded to
 pytket

---
 .../serialize/pytket/config/encoder_config.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/tket/src/serialize/pytket/config/encoder_config.rs b/tket/src/serialize/pytket/config/encoder_config.rs
index faf2f03..9fd5fa2 100644
--- a/tket/src/serialize/pytket/config/encoder_config.rs
+++ b/tket/src/serialize/pytket/config/encoder_config.rs
@@ -11,7 +11,7 @@ use hugr::ops::{ExtensionOp, Value};
 use hugr::types::{SumType, Type};
 
 use crate::serialize::pytket::encoder::EncodeStatus;
-use crate::serialize::pytket::extension::{set_bits_op, PytketTypeTranslator, RegisterCount};
+use crate::serialize::pytket::extension::{PytketTypeTranslator, RegisterCount};
 use crate::serialize::pytket::{PytketEmitter, PytketEncodeError};
 use crate::Circuit;
 
@@ -121,17 +121,14 @@ impl<H: HugrView> PytketEncoderConfig<H> {
             match value {
                 Value::Sum(sum) => {
                     if sum.sum_type == SumType::new_unary(2) {
-                        let new_bit = encoder.values.new_bit();
-                        if value == &Value::true_val() {
-                            let op = set_bits_op(&[true]);
-                            encoder.emit_command(op, &[], &[new_bit], None);
-                        }
-                        return Ok(Some(TrackedValues::new_bits([new_bit])));
-                    }
-                    if sum.sum_type.as_tuple().is_some() {
-                        for v in sum.values.iter() {
-                            queue.push_back(v);
+                        let new_bit = encoder.new_constant_bit(value == &Value::true_val());
+                        values.append(TrackedValues::new_bits([new_bit]));
+                    } else if sum.sum_type.as_tuple().is_some() {
+                        for v in sum.values.iter().rev() {
+                            queue.push_front(v);
                         }
+                    } else {
+                        return Ok(None);
                     }
                 }
                 Value::Extension { e: opaque } => {
-- 
2.43.0


From 068ae94fe6d9fe1ae868d1a1bb14f733b19951a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 68/83] fix: encode barriers without qubits or bits as
 unsupported operations

---
 tket/src/serialize/pytket/extension/prelude.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/extension/prelude.rs b/tket/src/serialize/pytket/extension/prelude.rs
index e4f5a97..55228f4 100644
--- a/tket/src/serialize/pytket/extension/prelude.rs
+++ b/tket/src/serialize/pytket/extension/prelude.rs
@@ -18,7 +18,7 @@ use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::extension::ExtensionId;
 use hugr::hugr::hugrmut::HugrMut;
 use hugr::ops::handle::NodeHandle;
-use hugr::ops::{ExtensionOp, OpType};
+use hugr::ops::{DataflowOpTrait, ExtensionOp, OpType};
 use hugr::types::TypeArg;
 use hugr::HugrView;
 use tket_json_rs::optype::OpType as PytketOptype;
@@ -43,6 +43,15 @@ impl<H: HugrView> PytketEmitter<H> for PreludeEmitter {
             return self.tuple_op_to_pytket(node, op, &tuple_op, circ, encoder);
         };
         if let Ok(_barrier) = BarrierDef::from_extension_op(op) {
+            // Pytket barriers only contain qubits and bits.
+            let is_linear = |ty| {
+                let count = encoder.config().type_to_pytket(ty);
+                count.is_some_and(|c| c.params == 0)
+            };
+            let signature = op.signature();
+            if signature.input().is_empty() || !signature.input_types().iter().all(is_linear) {
+                return Ok(EncodeStatus::Unsupported);
+            }
             // Restore the data attached to the pytket barrier, if any.
             let data = circ
                 .hugr()
-- 
2.43.0


From 700ebfd9a38e897d1629294beb3c587a47c0e87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 69/83] fix: allocate the registers of encoded pytket circuits
 in input and output order, and never share the ones still in use

---
 tket/src/serialize/pytket/encoder.rs          | 129 +++++++-
 .../serialize/pytket/encoder/value_tracker.rs | 281 +++++++++++++++---
 tket/src/serialize/pytket/extension.rs        |   1 -
 tket/src/serialize/pytket/extension/bool.rs   |  73 +++--
 tket/src/serialize/pytket/extension/tk1.rs    |  28 +-
 5 files changed, 433 insertions(+), 79 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 664cd28..6b6560e 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -249,6 +249,12 @@ impl<H: HugrView> PytketEncoderContext<H> {
             })
             .transpose()?;
 
+        // Ensure the bits at the output follow the register order.
+        let config = Arc::clone(&self.config);
+        for (source, target) in self.values.final_bit_copies(circ, region, &config) {
+            self.emit_bit_copy(source, target);
+        }
+
         let tracker_result = self.values.finish(circ, region)?;
 
         let mut ser = SerialCircuit::new(self.name, self.phase);
@@ -309,18 +315,31 @@ impl<H: HugrView> PytketEncoderContext<H> {
         // the wire is the output of an unsupported node group.
         //
         // We need to emit the unsupported node here before returning the values.
-        if self.unsupported.is_unsupported(wire.node()) {
-            let unsupported_nodes = self
-                .unsupported
-                .extract_component(wire.node(), circ.hugr())?;
-            self.emit_unsupported(&unsupported_nodes, circ)?;
-            debug_assert!(!self.unsupported.is_unsupported(wire.node()));
+        if self.emit_unsupported_containing(wire.node(), circ)? {
             return self.get_wire_values(wire, circ);
         }
 
         Err(PytketEncodeOpError::WireHasNoValues { wire }.into())
     }
 
+    /// If the node is unsupported, emit the subgraph of unsupported nodes
+    /// containing it.
+    ///
+    /// Returns `true` if a subgraph was emitted.
+    fn emit_unsupported_containing(
+        &mut self,
+        node: H::Node,
+        circ: &Circuit<H>,
+    ) -> Result<bool, PytketEncodeError<H::Node>> {
+        if !self.unsupported.is_unsupported(node) {
+            return Ok(false);
+        }
+        let unsupported_nodes = self.unsupported.extract_component(node, circ.hugr())?;
+        self.emit_unsupported(&unsupported_nodes, circ)?;
+        debug_assert!(!self.unsupported.is_unsupported(node));
+        Ok(true)
+    }
+
     /// Given a node in the HUGR, returns all the [`TrackedValue`]s associated
     /// with its inputs.
     ///
@@ -366,6 +385,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
 
         let optype = circ.hugr().get_optype(node);
         let other_input_port = optype.other_input_port();
+        let mut wires = Vec::with_capacity(circ.hugr().num_inputs(node));
         for input in circ.hugr().node_inputs(node) {
             // Ignore order edges.
             if Some(input) == other_input_port {
@@ -377,10 +397,20 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 .single_linked_output(node, input)
                 .expect("Dataflow input port should have a single neighbour");
             let wire = Wire::new(neigh, neigh_out);
-            if !wire_filter(wire) {
-                continue;
+            if wire_filter(wire) {
+                wires.push(wire);
             }
+        }
 
+        // Emit any unsupported subgraph in the inputs first, so it does not
+        // overwrite the registers we collect below.
+        for wire in &wires {
+            if self.values.peek_wire_values(*wire).is_none() {
+                self.emit_unsupported_containing(wire.node(), circ)?;
+            }
+        }
+
+        for wire in wires {
             match self.get_wire_values(wire, circ) {
                 Ok(values) => tracked_values.extend(values.iter().copied()),
                 Err(PytketEncodeError::OpEncoding(PytketEncodeOpError::WireHasNoValues {
@@ -461,6 +491,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
             .into_iter()
             .map(|p| self.values.param_expression(p).to_owned())
             .collect();
+        let held_bits = self.hold_command_bits(&mut bits, options.reuse_bits_fn.is_some());
 
         // Update the values in the node's outputs.
         //
@@ -485,9 +516,79 @@ impl<H: HugrView> PytketEncoderContext<H> {
         let op = make_operation(args);
 
         self.emit_command(op, &qubits, &bits, opgroup);
+        self.release_bits(held_bits);
         Ok(())
     }
 
+    /// Prepare the input bits of a command.
+    ///
+    /// Ensures that no bit is used more than once, and that bits modified by
+    /// the command are not used by other wires, by adding copies of the bits
+    /// when needed.
+    ///
+    /// Marks the bits as being in use until a call to
+    /// [`PytketEncoderContext::release_bits`] with the returned list, so
+    /// additional bits created for the command are different.
+    ///
+    /// ## Arguments
+    ///
+    /// - `bits`: The bits to prepare. Updated with the copies.
+    /// - `modified`: Whether the operation modifies its inputs.
+    fn hold_command_bits(&mut self, bits: &mut [TrackedBit], modified: bool) -> Vec<TrackedBit> {
+        let mut held_bits = Vec::with_capacity(bits.len());
+        let mut needs_copy = Vec::with_capacity(bits.len());
+        for (i, &bit) in bits.iter().enumerate() {
+            needs_copy.push(bits[..i].contains(&bit) || modified && self.values.is_bit_in_use(bit));
+        }
+        for &bit in bits.iter() {
+            self.values.hold_bit(bit);
+            held_bits.push(bit);
+        }
+        self.values.prepare_bits_for(None, 0);
+        for (bit, _) in bits.iter_mut().zip(needs_copy).filter(|(_, copy)| *copy) {
+            let new_bit = self.values.new_bit();
+            self.values.hold_bit(new_bit);
+            held_bits.push(new_bit);
+            self.emit_bit_copy(*bit, new_bit);
+            *bit = new_bit;
+        }
+        held_bits
+    }
+
+    /// Release the bits returned by [`PytketEncoderContext::hold_command_bits`].
+    fn release_bits(&mut self, held_bits: Vec<TrackedBit>) {
+        for bit in held_bits {
+            self.values.release_bit(bit);
+        }
+    }
+
+    /// Returns a new bit with a constant value, emitting a command to set it if
+    /// needed.
+    pub(super) fn new_constant_bit(&mut self, value: bool) -> TrackedBit {
+        let new_bit = self.values.new_bit();
+        if value || !self.values.is_clean_bit(new_bit) {
+            let op = make_tk1_classical_operation(
+                tket_json_rs::OpType::SetBits,
+                1,
+                circuit_json::Classical::SetBits {
+                    values: vec![value],
+                },
+            );
+            self.emit_command(op, &[], &[new_bit], None);
+        }
+        new_bit
+    }
+
+    /// Emit a command copying a bit into another.
+    fn emit_bit_copy(&mut self, source: TrackedBit, target: TrackedBit) {
+        let op = make_tk1_classical_operation(
+            tket_json_rs::OpType::CopyBits,
+            2,
+            circuit_json::Classical::CopyBits { n_i: 1 },
+        );
+        self.emit_command(op, &[], &[source, target], None);
+    }
+
     /// Helper to emit a node that transparently forwards its inputs to its
     /// outputs, resulting in no pytket operation.
     ///
@@ -616,6 +717,10 @@ impl<H: HugrView> PytketEncoderContext<H> {
             .map(|p| self.values.param_expression(p).to_owned())
             .collect();
 
+        // The bits used by the subgraph are considered outdated afterwards,
+        // so they cannot be shared with other wires.
+        let held_bits = self.hold_command_bits(&mut op_values.bits, true);
+
         // Update the values in the node's outputs, and extend `op_values` with
         // any new output values.
         //
@@ -671,6 +776,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
         pytket_op.data = Some(serde_json::to_string(&payload).unwrap());
 
         self.emit_command(pytket_op, &op_values.qubits, &op_values.bits, None);
+        self.release_bits(held_bits);
         Ok(())
     }
 
@@ -915,8 +1021,9 @@ impl<H: HugrView> PytketEncoderContext<H> {
             OpType::Const(op) => {
                 let config = Arc::clone(&self.config);
                 if self.config().type_to_pytket(&op.get_type()).is_some() {
+                    let wire = Wire::new(node, 0);
+                    self.values.prepare_bits_for(Some(wire), 0);
                     if let Some(values) = config.const_to_pytket(&op.value, self)? {
-                        let wire = Wire::new(node, 0);
                         self.values.register_wire(wire, values.into_iter(), circ)?;
                         return Ok(EncodeStatus::Success);
                     }
@@ -1066,7 +1173,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
         };
         let output_bits = match options.reuse_bits_fn {
             Some(f) => f(input_bits),
-            None => input_bits.to_vec(),
+            None => Vec::new(),
         };
 
         // Compute all the output parameters at once
@@ -1115,6 +1222,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
             let non_bit_count = out_wire_values.len();
             out_wire_values.extend(bits.by_ref().take(count.bits).map(TrackedValue::Bit));
             let reused_bit_count = out_wire_values.len() - non_bit_count;
+            self.values.prepare_bits_for(Some(wire), reused_bit_count);
             for _ in reused_bit_count..count.bits {
                 let b = self.values.new_bit();
                 new_outputs.bits.push(b);
@@ -1232,6 +1340,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 // Not enough bits, allocate some fresh ones.
                 let mut head_bits = bits.to_vec();
                 *bits = &[];
+                self.values.prepare_bits_for(Some(wire), head_bits.len());
                 let new_bits = (head_bits.len()..count.bits).map(|_| {
                     let b = self.values.new_bit();
                     new_outputs.bits.push(b);
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index e78fec3..eafc9ff 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -10,10 +10,11 @@
 //! Extensions can define which elements they map to
 
 use std::borrow::Cow;
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
+use std::collections::hash_map::Entry;
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
 
 use hugr::core::HugrNode;
-use hugr::ops::OpParent;
+use hugr::ops::{DataflowOpTrait, OpParent, OpType};
 use hugr::{HugrView, Wire};
 use itertools::Itertools;
 use tket_json_rs::circuit_json;
@@ -52,16 +53,33 @@ pub struct ValueTracker<N> {
     /// once the wire is fully explored.
     wires: BTreeMap<Wire<N>, TrackedWire>,
 
-    /// Qubits in `qubits` that are not currently registered to any wire.
+    /// Qubits in `qubits` that have never been registered to any wire.
     ///
     /// We draw names from here when a new qubit name is needed, before
     /// resorting to the `qubit_reg_generator`.
+    ///
+    /// Registers of discarded qubits are not reused, since they may be in any
+    /// state.
     unused_qubits: BTreeSet<TrackedQubit>,
     /// Bits in `bits` that are not currently registered to any wire.
     ///
     /// We draw names from here when a new bit name is needed, before
     /// resorting to the `bit_reg_generator`.
     unused_bits: BTreeSet<TrackedBit>,
+    /// The number of registered wires containing each bit.
+    bit_uses: HashMap<TrackedBit, usize>,
+    /// Bits that have been used at some point, and may contain any value.
+    written_bits: HashSet<TrackedBit>,
+    /// The registers where we would like to put the bits in some wires, so that
+    /// the bits at the output of the region follow the register order.
+    ///
+    /// Contains an element for each bit in the wire.
+    preferred_bits: HashMap<Wire<N>, Vec<Option<TrackedBit>>>,
+    /// The registers at the output of the region that should contain a value in
+    /// [`ValueTracker::preferred_bits`]. Avoid using them for other things.
+    reserved_bits: BTreeSet<TrackedBit>,
+    /// Preferred registers for the next calls to [`ValueTracker::new_bit`].
+    next_bits: VecDeque<Option<TrackedBit>>,
 
     /// A generator of new registers units to use for qubit wires.
     qubit_reg_generator: RegisterUnitGenerator,
@@ -222,6 +240,11 @@ impl<N: HugrNode> ValueTracker<N> {
             wires: BTreeMap::new(),
             unused_qubits: BTreeSet::new(),
             unused_bits: BTreeSet::new(),
+            bit_uses: HashMap::new(),
+            written_bits: HashSet::new(),
+            preferred_bits: HashMap::new(),
+            reserved_bits: BTreeSet::new(),
+            next_bits: VecDeque::new(),
             qubit_reg_generator: RegisterUnitGenerator::default(),
             bit_reg_generator: RegisterUnitGenerator::default(),
             input_params: Vec::with_capacity(param_variable_names.len()),
@@ -247,6 +270,7 @@ impl<N: HugrNode> ValueTracker<N> {
             PytketEncodeError::NonDataflowRegion { region, optype }
         })?;
         let inp_node = circ.hugr().get_io(region).unwrap()[0];
+        let mut input_wires = Vec::with_capacity(signature.input_count());
         for (port, typ) in circ
             .hugr()
             .node_outputs(inp_node)
@@ -278,12 +302,77 @@ impl<N: HugrNode> ValueTracker<N> {
                 wire_values.push(TrackedValue::Param(param));
             }
 
+            input_wires.push((wire, wire_values));
+        }
+
+        // Unused inputs get discarded as soon as they are registered, so we
+        // cannot do this before assigning all the input registers.
+        for (wire, wire_values) in input_wires {
             tracker.register_wire(wire, wire_values, circ)?;
         }
 
+        tracker.compute_preferred_bits(circ, region, config);
+
         Ok(tracker)
     }
 
+    /// Find the bit wires connected to the region's output, and assign them a
+    /// preferred register so their order is preserved.
+    fn compute_preferred_bits<H: HugrView<Node = N>>(
+        &mut self,
+        circ: &Circuit<H>,
+        region: N,
+        config: &PytketEncoderConfig<H>,
+    ) {
+        let hugr = circ.hugr();
+        let mut position = 0;
+        for (mut wire, count) in output_wires(circ, region, config) {
+            let preferred: Vec<_> = (position..position + count.bits)
+                .map(|i| Some(TrackedBit(i)))
+                .collect();
+            position += count.bits;
+            if preferred.is_empty() {
+                continue;
+            }
+
+            // Look through constants and conversions between different
+            // representations of a bit, as they do not create a pytket command.
+            loop {
+                if self.preferred_bits.contains_key(&wire) {
+                    break;
+                }
+                self.preferred_bits.insert(wire, preferred.clone());
+                let transparent = match hugr.get_optype(wire.node()) {
+                    OpType::LoadConstant(_) => true,
+                    OpType::ExtensionOp(op) => {
+                        let sig = op.signature();
+                        let is_bit =
+                            |ty| config.type_to_pytket(ty) == Some(RegisterCount::only_bits(1));
+                        match (sig.input_types(), sig.output_types()) {
+                            ([from], [to]) => from != to && is_bit(from) && is_bit(to),
+                            _ => false,
+                        }
+                    }
+                    _ => false,
+                };
+                let source = hugr
+                    .node_inputs(wire.node())
+                    .next()
+                    .and_then(|port| hugr.single_linked_output(wire.node(), port));
+                match source {
+                    Some((node, port)) if transparent => wire = Wire::new(node, port),
+                    _ => break,
+                }
+            }
+            self.reserved_bits.extend(preferred.into_iter().flatten());
+        }
+        // Ensure that the output registers exist.
+        while self.bits.len() < position {
+            self.bits.push(self.bit_reg_generator.next());
+            self.unused_bits.insert(TrackedBit(self.bits.len() - 1));
+        }
+    }
+
     /// Create a new qubit register name.
     ///
     /// Picks unused names from the `qubits` list, if available, or generates
@@ -300,10 +389,70 @@ impl<N: HugrNode> ValueTracker<N> {
     /// Picks unused names from the `bits` list, if available, or generates
     /// a new one with the internal generator.
     pub fn new_bit(&mut self) -> TrackedBit {
-        self.unused_bits.pop_first().unwrap_or_else(|| {
-            self.bits.push(self.bit_reg_generator.next());
-            TrackedBit(self.bits.len() - 1)
-        })
+        let preferred = self
+            .next_bits
+            .pop_front()
+            .flatten()
+            .filter(|bit| self.unused_bits.contains(bit));
+        let bit = preferred
+            .or_else(|| {
+                self.unused_bits
+                    .difference(&self.reserved_bits)
+                    .next()
+                    .copied()
+            })
+            .or_else(|| self.unused_bits.first().copied())
+            .unwrap_or_else(|| {
+                self.bits.push(self.bit_reg_generator.next());
+                TrackedBit(self.bits.len() - 1)
+            });
+        self.unused_bits.remove(&bit);
+        bit
+    }
+
+    /// Indicate that the following calls to [`ValueTracker::new_bit`] will
+    /// create the bits in a wire, skipping the first `skip` of them.
+    ///
+    /// Drops any previous indication.
+    pub(super) fn prepare_bits_for(&mut self, wire: Option<Wire<N>>, skip: usize) {
+        let preferred = wire.and_then(|wire| self.preferred_bits.get(&wire));
+        self.next_bits = preferred
+            .into_iter()
+            .flatten()
+            .skip(skip)
+            .copied()
+            .collect();
+    }
+
+    /// Returns `true` if the bit has never been used, so it is known to contain
+    /// a `false` value at the start of the circuit.
+    pub fn is_clean_bit(&self, bit: TrackedBit) -> bool {
+        !self.written_bits.contains(&bit)
+    }
+
+    /// Returns `true` if the bit is in use.
+    pub(super) fn is_bit_in_use(&self, bit: TrackedBit) -> bool {
+        self.bit_uses.contains_key(&bit)
+    }
+
+    /// Mark a bit as being in use, so [`ValueTracker::new_bit`] does not return it.
+    ///
+    /// Must be followed by a call to [`ValueTracker::release_bit`].
+    pub(super) fn hold_bit(&mut self, bit: TrackedBit) {
+        self.unused_bits.remove(&bit);
+        self.written_bits.insert(bit);
+        *self.bit_uses.entry(bit).or_default() += 1;
+    }
+
+    /// Drop a use of the bit, freeing up the register if it was the last one.
+    pub(super) fn release_bit(&mut self, bit: TrackedBit) {
+        if let Entry::Occupied(mut uses) = self.bit_uses.entry(bit) {
+            *uses.get_mut() -= 1;
+            if *uses.get() == 0 {
+                uses.remove();
+                self.unused_bits.insert(bit);
+            }
+        }
     }
 
     /// Register a new parameter string expression.
@@ -339,9 +488,7 @@ impl<N: HugrNode> ValueTracker<N> {
                 TrackedValue::Qubit(qb) => {
                     self.unused_qubits.remove(qb);
                 }
-                TrackedValue::Bit(bit) => {
-                    self.unused_bits.remove(bit);
-                }
+                TrackedValue::Bit(bit) => self.hold_bit(*bit),
                 TrackedValue::Param(_) => {}
             }
         }
@@ -357,7 +504,7 @@ impl<N: HugrNode> ValueTracker<N> {
 
         if unexplored_neighbours == 0 {
             // We can unregister the wire immediately, since it has no unexplored
-            // neighbours. This will free up the qubit and bit registers associated with it.
+            // neighbours. This will free up the bit registers associated with it.
             self.unregister_wire(wire)
                 .expect("Wire should be registered in the tracker");
         }
@@ -399,23 +546,17 @@ impl<N: HugrNode> ValueTracker<N> {
         Some(&values[..])
     }
 
-    /// Unregister a wire, freeing up the qubit and bit registers associated with it.
+    /// Unregister a wire, freeing up the bit registers associated with it.
     ///
     /// Panics if the wire is not registered.
     fn unregister_wire(&mut self, wire: Wire<N>) -> Option<Vec<TrackedValue>> {
         let wire = self.wires.remove(&wire).unwrap();
         let values = wire.values?;
 
-        // Free up the qubit and bit registers associated with the wire.
+        // Free up the bit registers associated with the wire.
         for value in &values {
-            match value {
-                TrackedValue::Qubit(qb) => {
-                    self.unused_qubits.insert(*qb);
-                }
-                TrackedValue::Bit(bit) => {
-                    self.unused_bits.insert(*bit);
-                }
-                TrackedValue::Param(_) => {}
+            if let TrackedValue::Bit(bit) = value {
+                self.release_bit(*bit);
             }
         }
 
@@ -437,6 +578,59 @@ impl<N: HugrNode> ValueTracker<N> {
         &self.params[param.0]
     }
 
+    /// Returns a list of `(source, target)` bit copies required to move the bits
+    /// at the output of the region to registers in the same order, to be done
+    /// one after the other.
+    pub(super) fn final_bit_copies<H: HugrView<Node = N>>(
+        &mut self,
+        circ: &Circuit<H>,
+        region: N,
+        config: &PytketEncoderConfig<H>,
+    ) -> Vec<(TrackedBit, TrackedBit)> {
+        let mut position = 0;
+        // Pending copies, indexed by their target.
+        let mut pending: BTreeMap<TrackedBit, TrackedBit> = BTreeMap::new();
+        for (wire, count) in output_wires(circ, region, config) {
+            let values = self.peek_wire_values(wire).unwrap_or_default();
+            let bits = values.iter().filter_map(|value| match value {
+                TrackedValue::Bit(bit) => Some(*bit),
+                _ => None,
+            });
+            pending.extend(bits.enumerate().map(|(i, b)| (TrackedBit(position + i), b)));
+            position += count.bits;
+        }
+        // Do not use the output registers for anything else.
+        for target in pending.keys() {
+            self.unused_bits.remove(target);
+        }
+        pending.retain(|target, source| target != source);
+
+        let mut copies = Vec::with_capacity(pending.len());
+        while let Some((&first, _)) = pending.first_key_value() {
+            // Do first the copies that do not overwrite the source of another one.
+            let free_target = pending
+                .keys()
+                .find(|&target| pending.values().all(|source| source != target))
+                .copied();
+            match free_target {
+                Some(target) => {
+                    let source = pending.remove(&target).unwrap();
+                    copies.push((source, target));
+                }
+                None => {
+                    // Only cycles are left, so we need an additional register.
+                    self.prepare_bits_for(None, 0);
+                    let temp = self.new_bit();
+                    copies.push((first, temp));
+                    for source in pending.values_mut().filter(|source| **source == first) {
+                        *source = temp;
+                    }
+                }
+            }
+        }
+        copies
+    }
+
     /// Finish the tracker and return the final list of qubit and bit registers.
     ///
     /// Looks at the circuit's output node to determine the final order of
@@ -593,14 +787,8 @@ pub(super) fn compute_final_permutation(
     mut actual_outputs: Vec<RegisterUnit>,
     all_inputs: &[RegisterUnit],
 ) -> Vec<circuit_json::ImplicitPermutation> {
-    let declared_outputs: Vec<&RegisterUnit> = all_inputs.iter().collect();
     let mut actual_outputs_hashes: HashSet<RegisterHash> =
         actual_outputs.iter().map(RegisterHash::from).collect();
-    let mut input_hashes: HashMap<RegisterHash, usize> = HashMap::default();
-    for (i, inp) in all_inputs.iter().enumerate() {
-        let hash = inp.into();
-        input_hashes.insert(hash, i);
-    }
     // Extend `actual_outputs` with extra registers seen in the circuit.
     for reg in all_inputs {
         let hash = reg.into();
@@ -612,20 +800,35 @@ pub(super) fn compute_final_permutation(
 
     // Compute the final permutation.
     //
-    // For each element `reg` at the output of the circuit, we find its position `i` at the input,
-    // and find out the pytket output register associated with that position in the `declared_outputs` list.
-    let permutation = actual_outputs
-        .iter()
-        .map(|reg| {
-            let hash = reg.into();
-            let i = input_hashes.get(&hash).unwrap();
-            let out = declared_outputs[*i].clone();
+    // The `i`-th qubit at the output of the circuit must end up in the `i`-th declared register.
+    actual_outputs
+        .into_iter()
+        .zip(all_inputs)
+        .map(|(reg, out)| {
             circuit_json::ImplicitPermutation(
-                tket_json_rs::register::Qubit { id: reg.clone() },
-                tket_json_rs::register::Qubit { id: out },
+                tket_json_rs::register::Qubit { id: reg },
+                tket_json_rs::register::Qubit { id: out.clone() },
             )
         })
-        .collect_vec();
+        .collect_vec()
+}
 
-    permutation
+/// Returns the wires at the output of a region that can be represented in
+/// pytket, with the number of registers in each.
+fn output_wires<'c, H: HugrView>(
+    circ: &'c Circuit<H>,
+    region: H::Node,
+    config: &'c PytketEncoderConfig<H>,
+) -> impl Iterator<Item = (Wire<H::Node>, RegisterCount)> + 'c {
+    let output_node = circ.hugr().get_io(region).unwrap()[1];
+    let signature = circ.hugr().get_optype(region).inner_function_type();
+    let types = signature.map_or_else(Vec::new, |sig| sig.output().iter().cloned().collect_vec());
+    circ.hugr()
+        .node_inputs(output_node)
+        .zip(types)
+        .filter_map(move |(port, typ)| {
+            let (node, src_port) = circ.hugr().single_linked_output(output_node, port)?;
+            let count = config.type_to_pytket(&typ)?;
+            Some((Wire::new(node, src_port), count))
+        })
 }
diff --git a/tket/src/serialize/pytket/extension.rs b/tket/src/serialize/pytket/extension.rs
index 61a0a44..d56db31 100644
--- a/tket/src/serialize/pytket/extension.rs
+++ b/tket/src/serialize/pytket/extension.rs
@@ -29,7 +29,6 @@ pub use rotation::RotationEmitter;
 pub use tk1::Tk1Emitter;
 pub use tket::TketOpEmitter;
 
-pub(crate) use bool::set_bits_op;
 pub(crate) use tk1::{build_opaque_tket_op, OpaqueTk1Op};
 
 use super::encoder::TrackedValues;
diff --git a/tket/src/serialize/pytket/extension/bool.rs b/tket/src/serialize/pytket/extension/bool.rs
index bc31da9..ecbd759 100644
--- a/tket/src/serialize/pytket/extension/bool.rs
+++ b/tket/src/serialize/pytket/extension/bool.rs
@@ -1,24 +1,27 @@
 //! Encoder and decoder for the tket.bool extension
 
 use super::PytketEmitter;
-use crate::extension::bool::{BoolOp, ConstBool, BOOL_EXTENSION_ID, BOOL_TYPE_NAME};
+use crate::extension::bool::{bool_type, BoolOp, ConstBool, BOOL_EXTENSION_ID, BOOL_TYPE_NAME};
 use crate::serialize::pytket::config::TypeTranslatorSet;
 use crate::serialize::pytket::decoder::{
     DecodeStatus, LoadedParameter, PytketDecoderContext, TrackedBit, TrackedQubit,
 };
 use crate::serialize::pytket::encoder::{
-    make_tk1_classical_expression, make_tk1_classical_operation, EmitCommandOptions, EncodeStatus,
-    PytketEncoderContext, TrackedValues,
+    make_tk1_classical_expression, EmitCommandOptions, EncodeStatus, PytketEncoderContext,
+    TrackedValues,
 };
 use crate::serialize::pytket::extension::{PytketDecoder, PytketTypeTranslator, RegisterCount};
 use crate::serialize::pytket::{PytketDecodeError, PytketEncodeError};
 use crate::Circuit;
+use hugr::builder::Dataflow;
 use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::extension::ExtensionId;
 use hugr::ops::constant::OpaqueValue;
 use hugr::ops::ExtensionOp;
 use hugr::HugrView;
 use itertools::Itertools;
+use std::sync::Arc;
+use tket_json_rs::circuit_json::Classical;
 use tket_json_rs::clexpr::op::ClOp;
 use tket_json_rs::clexpr::operator::{ClArgument, ClOperator, ClTerminal, ClVariable};
 
@@ -81,12 +84,7 @@ impl<H: HugrView> PytketEmitter<H> for BoolEmitter {
             return Ok(None);
         };
 
-        let new_bit = encoder.values.new_bit();
-        if const_b.value() {
-            let op = set_bits_op(&[true]);
-            encoder.emit_command(op, &[], &[new_bit], None);
-        }
-
+        let new_bit = encoder.new_constant_bit(const_b.value());
         Ok(Some(TrackedValues::new_bits([new_bit])))
     }
 }
@@ -111,7 +109,11 @@ impl PytketTypeTranslator for BoolEmitter {
 
 impl PytketDecoder for BoolEmitter {
     fn op_types(&self) -> Vec<tket_json_rs::OpType> {
-        vec![tket_json_rs::OpType::ClExpr]
+        vec![
+            tket_json_rs::OpType::ClExpr,
+            tket_json_rs::OpType::SetBits,
+            tket_json_rs::OpType::CopyBits,
+        ]
     }
 
     fn op_to_hugr<'h>(
@@ -123,6 +125,46 @@ impl PytketDecoder for BoolEmitter {
         _opgroup: Option<&str>,
         decoder: &mut PytketDecoderContext<'h>,
     ) -> Result<DecodeStatus, PytketDecodeError> {
+        // Bit assignments do not depend on the previous value of the modified
+        // bits.
+        match op.classical.as_deref() {
+            Some(Classical::SetBits { values })
+                if op.op_type == tket_json_rs::OpType::SetBits
+                    && values.len() == bits.len()
+                    && qubits.is_empty() =>
+            {
+                for (&value, bit) in values.iter().zip(bits) {
+                    let wire = decoder.builder.add_load_value(ConstBool::new(value));
+                    decoder.wire_tracker.track_wire(
+                        wire,
+                        Arc::new(bool_type()),
+                        [],
+                        [bit.clone()],
+                    )?;
+                }
+                return Ok(DecodeStatus::Success);
+            }
+            Some(Classical::CopyBits { n_i })
+                if op.op_type == tket_json_rs::OpType::CopyBits
+                    && 2 * *n_i as usize == bits.len()
+                    && qubits.is_empty() =>
+            {
+                let (sources, targets) = bits.split_at(*n_i as usize);
+                for (source, target) in sources.iter().zip(targets) {
+                    decoder.add_node_with_wires(
+                        BoolOp::make_opaque,
+                        &[],
+                        &[],
+                        std::slice::from_ref(source),
+                        std::slice::from_ref(target),
+                        &[],
+                    )?;
+                }
+                return Ok(DecodeStatus::Success);
+            }
+            _ => {}
+        }
+
         let Some(clexpr) = &op.classical_expr else {
             return Ok(DecodeStatus::Unsupported);
         };
@@ -176,14 +218,3 @@ impl PytketDecoder for BoolEmitter {
         Ok(DecodeStatus::Success)
     }
 }
-
-/// Return a pytket operation setting the values of a list of bits.
-pub(crate) fn set_bits_op(values: &[bool]) -> tket_json_rs::circuit_json::Operation {
-    make_tk1_classical_operation(
-        tket_json_rs::OpType::SetBits,
-        values.len(),
-        tket_json_rs::circuit_json::Classical::SetBits {
-            values: values.to_vec(),
-        },
-    )
-}
diff --git a/tket/src/serialize/pytket/extension/tk1.rs b/tket/src/serialize/pytket/extension/tk1.rs
index b4fac16..95a981b 100644
--- a/tket/src/serialize/pytket/extension/tk1.rs
+++ b/tket/src/serialize/pytket/extension/tk1.rs
@@ -19,7 +19,7 @@ use hugr::hugr::hugrmut::HugrMut;
 use hugr::ops::handle::NodeHandle;
 use hugr::ops::{ExtensionOp, OpTrait, OpType};
 use hugr::types::{Signature, TypeArg};
-use hugr::{HugrView, IncomingPort};
+use hugr::{HugrView, IncomingPort, PortIndex};
 use itertools::Itertools;
 use tket_json_rs::circuit_json;
 
@@ -57,9 +57,20 @@ impl<H: HugrView> PytketEmitter<H> for Tk1Emitter {
         encoder.emit_node_command(
             node,
             circ,
-            EmitCommandOptions::new(),
-            // Emit the pre-defined pytket operation stored in the metadata.
-            move |_| op.serialised_op,
+            EmitCommandOptions::new().reuse_all_bits(),
+            // Emit the pre-defined pytket operation stored in the metadata,
+            // updating the parameters coming from input wires.
+            move |args| {
+                let mut serialised_op = op.serialised_op;
+                let params = serialised_op.params.iter_mut().flatten();
+                for (param, port) in params.zip(&op.param_inputs) {
+                    let input = port.and_then(|port| args.params.get(port.index()));
+                    if let Some(input) = input {
+                        *param = input.clone();
+                    }
+                }
+                serialised_op
+            },
         )?;
 
         Ok(EncodeStatus::Success)
@@ -131,10 +142,11 @@ pub(crate) fn build_opaque_tket_op<'h>(
         .map_err(|e| PytketDecodeError::custom(e).hugr_op(&op_name))?;
 
     if let Some(opgroup) = opgroup {
-        decoder
-            .builder
-            .hugr_mut()
-            .set_metadata(opaque_op.node(), METADATA_OPGROUP, opgroup.as_str());
+        decoder.builder.hugr_mut().set_metadata(
+            opaque_op.node(),
+            METADATA_OPGROUP,
+            opgroup.as_str(),
+        );
     }
 
     // Associate the output wires to the corresponding register.
-- 
2.43.0


From 8150e7793838ab3e9d8840ea18832b7278db6a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 70/83] fix: encode futures in pytket only for measurements
 read in the same region

---
 tket-qsystem/src/pytket.rs                    |  4 --
 tket-qsystem/src/pytket/futures.rs            | 57 ++++++++++++++++++-
 tket-qsystem/src/pytket/qsystem.rs            | 52 ++++++++++++++---
 .../serialize/pytket/encoder/value_tracker.rs | 14 +++--
 4 files changed, 110 insertions(+), 17 deletions(-)

diff --git a/tket-qsystem/src/pytket.rs b/tket-qsystem/src/pytket.rs
index d696e57..e5239a4 100644
--- a/tket-qsystem/src/pytket.rs
+++ b/tket-qsystem/src/pytket.rs
@@ -19,8 +19,6 @@ pub fn qsystem_decoder_config() -> PytketDecoderConfig {
     let mut config = default_decoder_config();
     config.add_decoder(QSystemEmitter);
 
-    config.add_type_translator(FutureEmitter);
-
     config
 }
 
@@ -33,8 +31,6 @@ pub fn qsystem_encoder_config<H: HugrView>() -> PytketEncoderConfig<H> {
     config.add_emitter(QSystemEmitter);
     config.add_emitter(FutureEmitter);
 
-    config.add_type_translator(FutureEmitter);
-
     config
 }
 
diff --git a/tket-qsystem/src/pytket/futures.rs b/tket-qsystem/src/pytket/futures.rs
index b687493..6ab7c45 100644
--- a/tket-qsystem/src/pytket/futures.rs
+++ b/tket-qsystem/src/pytket/futures.rs
@@ -2,9 +2,9 @@
 
 use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::extension::ExtensionId;
-use hugr::ops::ExtensionOp;
+use hugr::ops::{ExtensionOp, OpTrait, OpType};
 use hugr::types::Term;
-use hugr::HugrView;
+use hugr::{Direction, HugrView, Wire};
 use itertools::Itertools;
 use tket::serialize::pytket::encoder::EncodeStatus;
 use tket::serialize::pytket::extension::{PytketTypeTranslator, RegisterCount};
@@ -14,6 +14,7 @@ use tket::serialize::pytket::{
 use tket::Circuit;
 
 use crate::extension::futures::{self, FutureOpDef};
+use crate::extension::qsystem::QSystemOp;
 
 /// Emitter for [futures](crate::extension::futures) operations and types.
 ///
@@ -39,6 +40,15 @@ impl<H: HugrView> PytketEmitter<H> for FutureEmitter {
             return Ok(EncodeStatus::Unsupported);
         };
 
+        // Only futures produced by an encoded measurement can be read from a bit.
+        let is_encoded = circ
+            .hugr()
+            .single_linked_output(node, 0)
+            .is_some_and(|(src, port)| is_encoded_future(Wire::new(src, port), circ));
+        if !is_encoded {
+            return Ok(EncodeStatus::Unsupported);
+        }
+
         match rot_op {
             FutureOpDef::Read => {
                 // Transparent map
@@ -62,6 +72,49 @@ impl<H: HugrView> PytketEmitter<H> for FutureEmitter {
     }
 }
 
+/// Returns whether the future in a wire is encoded as a pytket bit.
+///
+/// This is the case for lazy measurement results that get read or discarded in
+/// the same region, as pytket circuits have no `Future<T>` type.
+pub(super) fn is_encoded_future<H: HugrView>(wire: Wire<H::Node>, circ: &Circuit<H>) -> bool {
+    let hugr = circ.hugr();
+    let future_op = |op: &OpType| FutureOpDef::try_from(op).ok();
+    // Operations with order edges are not encoded.
+    let has_order_edges = |node| {
+        let op = hugr.get_optype(node);
+        let mut ports = Direction::BOTH.iter().filter_map(|&dir| op.other_port(dir));
+        ports.any(|port| hugr.is_linked(node, port))
+    };
+    // Find the operation that created the future.
+    let mut source = (wire.node(), wire.source());
+    while future_op(hugr.get_optype(source.0)) == Some(FutureOpDef::Dup) {
+        match hugr.single_linked_output(source.0, 0) {
+            Some(src) => source = src,
+            None => return false,
+        }
+    }
+    let source_op = hugr.get_optype(source.0).cast();
+    if source_op != Some(QSystemOp::LazyMeasure) || has_order_edges(source.0) {
+        return false;
+    }
+
+    // Check the operations that use the future.
+    let region = hugr.get_parent(source.0);
+    let mut wires = vec![source];
+    while let Some((node, port)) = wires.pop() {
+        for (target, _) in hugr.linked_inputs(node, port) {
+            let op = future_op(hugr.get_optype(target));
+            if op.is_none() || hugr.get_parent(target) != region || has_order_edges(target) {
+                return false;
+            }
+            if op == Some(FutureOpDef::Dup) {
+                wires.extend([(target, 0.into()), (target, 1.into())]);
+            }
+        }
+    }
+    true
+}
+
 impl PytketTypeTranslator for FutureEmitter {
     fn extensions(&self) -> Vec<ExtensionId> {
         vec![futures::EXTENSION_ID]
diff --git a/tket-qsystem/src/pytket/qsystem.rs b/tket-qsystem/src/pytket/qsystem.rs
index 69f7b71..989ebe8 100644
--- a/tket-qsystem/src/pytket/qsystem.rs
+++ b/tket-qsystem/src/pytket/qsystem.rs
@@ -1,21 +1,26 @@
 //! Encoder/decoder for [qsystem::EXTENSION][use crate::extension::qsystem::EXTENSION] operations.
 
+use std::borrow::Cow;
+
 use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::extension::ExtensionId;
-use hugr::ops::ExtensionOp;
-use hugr::HugrView;
+use hugr::ops::{ExtensionOp, OpTrait};
+use hugr::{HugrView, Wire};
 use itertools::Itertools as _;
 use tket::serialize::pytket::decoder::{
     DecodeStatus, LoadedParameter, ParameterType, PytketDecoderContext, TrackedBit, TrackedQubit,
 };
-use tket::serialize::pytket::encoder::{make_tk1_operation, EmitCommandOptions, EncodeStatus};
+use tket::serialize::pytket::encoder::{
+    make_tk1_operation, EmitCommandOptions, EncodeStatus, MakeOperationArgs,
+};
 use tket::serialize::pytket::extension::PytketDecoder;
 use tket::serialize::pytket::{
-    PytketDecodeError, PytketEmitter, PytketEncodeError, PytketEncoderContext,
+    PytketDecodeError, PytketEmitter, PytketEncodeError, PytketEncoderContext, METADATA_OPGROUP,
 };
 use tket::Circuit;
 use tket_json_rs::optype::OpType as PytketOptype;
 
+use super::futures::is_encoded_future;
 use crate::extension;
 use crate::extension::qsystem::{QSystemOp, RuntimeBarrierDef};
 
@@ -56,9 +61,7 @@ impl QSystemEmitter {
     ) -> Result<EncodeStatus, PytketEncodeError<H::Node>> {
         let serial_op = match qsystem_op {
             QSystemOp::Measure => PytketOptype::Measure,
-            // "Lazy" operations are translated as eager measurements in pytket,
-            // as there is no `Future<T>` type there.
-            QSystemOp::LazyMeasure => PytketOptype::Measure,
+            QSystemOp::LazyMeasure => return self.encode_lazy_measure(node, circ, encoder),
             QSystemOp::Rz => PytketOptype::Rz,
             QSystemOp::PhasedX => PytketOptype::PhasedX,
             QSystemOp::ZZPhase => PytketOptype::ZZPhase,
@@ -97,6 +100,41 @@ impl QSystemEmitter {
         Ok(EncodeStatus::Success)
     }
 
+    /// Encode a lazy measurement as an eager one, as there is no `Future<T>`
+    /// type in pytket.
+    ///
+    /// This is only possible if the future is read in the same region.
+    fn encode_lazy_measure<H: HugrView>(
+        &self,
+        node: H::Node,
+        circ: &Circuit<H>,
+        encoder: &mut PytketEncoderContext<H>,
+    ) -> Result<EncodeStatus, PytketEncodeError<H::Node>> {
+        let future = Wire::new(node, 0);
+        if !is_encoded_future(future, circ) {
+            return Ok(EncodeStatus::Unsupported);
+        }
+        let qubits = encoder.get_input_values(node, circ)?.qubits;
+        encoder.values.prepare_bits_for(Some(future), 0);
+        let bit = encoder.values.new_bit();
+        encoder.values.register_wire(future, [bit], circ)?;
+
+        let args = MakeOperationArgs {
+            num_qubits: 1,
+            num_bits: 1,
+            params: Cow::Borrowed(&[]),
+        };
+        let op = make_tk1_operation(PytketOptype::Measure, args);
+        let opgroup = circ
+            .hugr()
+            .get_metadata(node, METADATA_OPGROUP)
+            .and_then(|group| group.as_str())
+            .map(ToString::to_string);
+        encoder.emit_command(op, &qubits, &[bit], opgroup);
+
+        Ok(EncodeStatus::Success)
+    }
+
     fn encode_runtime_barrier_op<H: HugrView>(
         &self,
         node: H::Node,
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index eafc9ff..e369332 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -346,10 +346,16 @@ impl<N: HugrNode> ValueTracker<N> {
                     OpType::LoadConstant(_) => true,
                     OpType::ExtensionOp(op) => {
                         let sig = op.signature();
-                        let is_bit =
-                            |ty| config.type_to_pytket(ty) == Some(RegisterCount::only_bits(1));
+                        let bit = Some(RegisterCount::only_bits(1));
                         match (sig.input_types(), sig.output_types()) {
-                            ([from], [to]) => from != to && is_bit(from) && is_bit(to),
+                            // The values may also be tracked explicitly by the
+                            // emitters, for types not translated to pytket.
+                            ([from], [to]) => {
+                                let from_count = config.type_to_pytket(from);
+                                from != to
+                                    && (from_count.is_none() || from_count == bit)
+                                    && config.type_to_pytket(to) == bit
+                            }
                             _ => false,
                         }
                     }
@@ -414,7 +420,7 @@ impl<N: HugrNode> ValueTracker<N> {
     /// create the bits in a wire, skipping the first `skip` of them.
     ///
     /// Drops any previous indication.
-    pub(super) fn prepare_bits_for(&mut self, wire: Option<Wire<N>>, skip: usize) {
+    pub fn prepare_bits_for(&mut self, wire: Option<Wire<N>>, skip: usize) {
         let preferred = wire.and_then(|wire| self.preferred_bits.get(&wire));
         self.next_bits = preferred
             .into_iter()
-- 
2.43.0


From bd8c1994e913d9d08cf626aedc26ee8a5557f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 71/83] fix: leave runtime barriers over arrays opaque in
 pytket circuits

---
 tket-qsystem/src/pytket/qsystem.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tket-qsystem/src/pytket/qsystem.rs b/tket-qsystem/src/pytket/qsystem.rs
index 989ebe8..a9def7d 100644
--- a/tket-qsystem/src/pytket/qsystem.rs
+++ b/tket-qsystem/src/pytket/qsystem.rs
@@ -142,6 +142,15 @@ impl QSystemEmitter {
         circ: &Circuit<H>,
         encoder: &mut PytketEncoderContext<H>,
     ) -> Result<EncodeStatus, PytketEncodeError<H::Node>> {
+        // Pytket barriers only contain qubits and bits.
+        let signature = circ.hugr().get_optype(node).dataflow_signature();
+        let is_supported = signature.is_some_and(|sig| {
+            let supported = |ty| encoder.config().type_to_pytket(ty).is_some();
+            sig.input_types().iter().all(supported)
+        });
+        if !is_supported {
+            return Ok(EncodeStatus::Unsupported);
+        }
         encoder.emit_node(
             PytketOptype::Barrier,
             node,
-- 
2.43.0


From b6474e60318c4eb4294e73c0a4825abd53e17884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 72/83] fix: accept constants of outer regions in opaque pytket
 subgraphs

---
 tket/src/serialize/pytket/decoder/subgraph.rs | 5 ++++-
 tket/src/serialize/pytket/encoder.rs          | 4 ++--
 tket/src/serialize/pytket/opaque/subgraph.rs  | 5 ++++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index 3dc8ab1..0232467 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -72,8 +72,11 @@ impl<'h> PytketDecoderContext<'h> {
         }
         let new_parent = self.builder.container_node();
 
-        // Re-parent the nodes in the subgraph.
+        // Re-parent the nodes in the subgraph, leaving any global definition in place.
         for &node in subgraph.nodes() {
+            if self.builder.hugr().get_parent(node) != Some(old_parent) {
+                continue;
+            }
             self.builder.hugr_mut().set_parent(node, new_parent);
         }
 
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 6b6560e..c7df509 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -1101,11 +1101,11 @@ impl<H: HugrView> PytketEncoderContext<H> {
             if neigh_parent == node_parent {
                 continue;
             }
-            if neigh_parent != Some(circ.hugr().module_root()) {
+            let optype = circ.hugr().get_optype(neigh);
+            if neigh_parent != Some(circ.hugr().module_root()) && !optype.is_const() {
                 // Non-global dataflow input, report as unsupported.
                 return Ok(EncodeStatus::Unsupported);
             }
-            let optype = circ.hugr().get_optype(neigh);
             match optype {
                 OpType::FuncDefn(_) | OpType::FuncDecl(_) => {
                     // Function definitions/declarations have special handling to be able to encode Call nodes.
diff --git a/tket/src/serialize/pytket/opaque/subgraph.rs b/tket/src/serialize/pytket/opaque/subgraph.rs
index f587821..560d1d3 100644
--- a/tket/src/serialize/pytket/opaque/subgraph.rs
+++ b/tket/src/serialize/pytket/opaque/subgraph.rs
@@ -49,8 +49,11 @@ impl<N: HugrNode> OpaqueSubgraph<N> {
         nodes: BTreeSet<N>,
         hugr: &impl HugrView<Node = N>,
     ) -> Result<Self, PytketEncodeError<N>> {
+        // Constants may be defined in an outer region. Ignore them if possible.
         let region = nodes
-            .first()
+            .iter()
+            .find(|n| !hugr.get_optype(**n).is_const())
+            .or(nodes.first())
             .and_then(|n| hugr.get_parent(*n))
             .unwrap_or_else(|| hugr.entrypoint());
 
-- 
2.43.0


From 0515ddfe48b927c219ce1a3198e57c41624e66ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 73/83] fix: keep region inputs when reassembling circuits with
 free symbols

---
 tket/src/serialize/pytket/circuit.rs       |  2 ++
 tket/src/serialize/pytket/decoder.rs       |  8 +++++++
 tket/src/serialize/pytket/decoder/wires.rs | 26 ++++++++++++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/tket/src/serialize/pytket/circuit.rs b/tket/src/serialize/pytket/circuit.rs
index 5633d80..67df409 100644
--- a/tket/src/serialize/pytket/circuit.rs
+++ b/tket/src/serialize/pytket/circuit.rs
@@ -191,6 +191,8 @@ impl EncodedCircuit<Node> {
                 options,
                 Some(&self.opaque_subgraphs),
             )?;
+            // The signature of the region cannot change.
+            decoder.set_fixed_inputs();
             decoder.run_decoder(
                 &encoded.serial_circuit.commands,
                 Some(&encoded.additional_nodes_and_wires),
diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 57dfef4..8d260ac 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -470,6 +470,14 @@ impl<'h> PytketDecoderContext<'h> {
         }
     }
 
+    /// Keep the inputs of the region as they are.
+    ///
+    /// Variables in the circuit that are not an input will be decoded as
+    /// symbolic constants.
+    pub(super) fn set_fixed_inputs(&mut self) {
+        self.wire_tracker.set_fixed_inputs();
+    }
+
     /// Decode a list of pytket commands.
     ///
     /// # Arguments
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 13c3908..564008f 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -340,6 +340,11 @@ pub(crate) struct WireTracker {
     ///
     /// Ordered according to their order in the function input.
     parameter_vars: IndexSet<String>,
+    /// Whether the inputs of the region are fixed.
+    ///
+    /// If set, unknown variables are loaded as symbolic constants instead of
+    /// adding new inputs to the region.
+    fixed_inputs: bool,
     /// A permutation of qubit registers in `latest_qubit_tracker` that we
     /// expect to see at the output.
     ///
@@ -395,6 +400,7 @@ impl WireTracker {
             parameters: IndexMap::new(),
             unused_parameter_inputs: VecDeque::new(),
             parameter_vars: IndexSet::new(),
+            fixed_inputs: false,
             output_qubit_permutation: Vec::with_capacity(qubit_count),
             unsupported_wires: IndexMap::new(),
         }
@@ -1106,6 +1112,7 @@ impl WireTracker {
             input_params: &mut IndexMap<String, LoadedParameter>,
             param_vars: &mut IndexSet<String>,
             unused_param_inputs: &mut VecDeque<LoadedParameter>,
+            fixed_inputs: bool,
             parsed: PytketParam,
             param: &str,
             type_hint: Option<ParameterType>,
@@ -1147,6 +1154,12 @@ impl WireTracker {
                         _ => {
                             // Look it up in the input parameters to the circuit, and add a new float input if needed.
                             *input_params.entry(name.to_string()).or_insert_with(|| {
+                                if fixed_inputs && unused_param_inputs.is_empty() {
+                                    let symb_op = symbolic_constant_op(name.to_string());
+                                    let wire =
+                                        hugr.add_dataflow_op(symb_op, []).unwrap().out_wire(0);
+                                    return LoadedParameter::rotation(wire);
+                                }
                                 param_vars.insert(name.to_string());
                                 match unused_param_inputs.pop_front() {
                                     Some(loaded) => loaded,
@@ -1171,6 +1184,7 @@ impl WireTracker {
                                 input_params,
                                 param_vars,
                                 unused_param_inputs,
+                                fixed_inputs,
                                 arg,
                                 param,
                                 Some(param_ty),
@@ -1193,6 +1207,7 @@ impl WireTracker {
             &mut self.parameters,
             &mut self.parameter_vars,
             &mut self.unused_parameter_inputs,
+            self.fixed_inputs,
             parse_pytket_param(param),
             param,
             type_hint,
@@ -1258,6 +1273,17 @@ impl WireTracker {
         Ok(())
     }
 
+    /// Load unknown variables as symbolic constants, instead of adding new
+    /// inputs to the region.
+    pub(super) fn set_fixed_inputs(&mut self) {
+        self.fixed_inputs = true;
+    }
+
+    /// Associate a wire produced inside the region with a parameter variable.
+    pub(super) fn register_parameter_variable(&mut self, loaded: LoadedParameter, param: String) {
+        self.parameters.insert(param, loaded);
+    }
+
     /// Track a parameter input to the region for which we don't have a variable name yet.
     pub(super) fn register_unused_parameter_input(&mut self, loaded: LoadedParameter) {
         self.unused_parameter_inputs.push_back(loaded);
-- 
2.43.0


From a06152332a99a31d9342730bd940f69636d689a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 74/83] fix: track the angles produced by opaque pytket
 subgraphs

---
 tket/src/serialize/pytket/decoder/subgraph.rs | 45 ++++++++++++++++---
 tket/src/serialize/pytket/encoder.rs          | 12 ++---
 tket/src/serialize/pytket/opaque/payload.rs   |  8 ++++
 3 files changed, 52 insertions(+), 13 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index 0232467..721489f 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -6,6 +6,7 @@ use std::sync::Arc;
 use hugr::builder::Container;
 use hugr::hugr::hugrmut::{HugrMut, InsertedForest};
 use hugr::ops::{OpTag, OpTrait};
+use hugr::std_extensions::arithmetic::float_types::float64_type;
 use hugr::types::Type;
 use hugr::{Hugr, HugrView, Node, OutgoingPort, PortIndex, Wire};
 use hugr_core::hugr::internal::HugrMutInternals;
@@ -184,12 +185,20 @@ impl<'h> PytketDecoderContext<'h> {
             // to track new qubits and bits, re-connect it to some output, or
             // leave it untouched.
             let wire = Wire::new(*src, *src_port);
-            if let Some(counts) = self.config().type_to_pytket(ty).filter(|c| c.params == 0) {
+            if let Some(counts) = self.config().type_to_pytket(ty) {
                 // This port declares new outputs to be tracked by the decoder.
-                // Output parameters from a subgraph are always marked as not supported (they don't map to any pytket argument variable).
 
-                // Make sure to disconnect the old wire.
-                self.builder.hugr_mut().disconnect(*src, *src_port);
+                // Make sure to disconnect the old wire from the other nodes in the region.
+                // Keep the uses inside the subgraph or in nested regions.
+                let targets = self.builder.hugr().linked_inputs(*src, *src_port);
+                for (tgt, tgt_port) in targets.collect_vec() {
+                    let tgt_parent = self.builder.hugr().get_parent(tgt);
+                    let in_region =
+                        tgt_parent == Some(old_parent) || tgt_parent == Some(new_parent);
+                    if in_region && !subgraph.nodes().contains(&tgt) {
+                        self.builder.hugr_mut().disconnect(tgt, tgt_port);
+                    }
+                }
 
                 let wire_qubits = split_off(&mut output_qubits, ..counts.qubits);
                 let wire_bits = split_off(&mut output_bits, ..counts.bits);
@@ -207,6 +216,7 @@ impl<'h> PytketDecoderContext<'h> {
                     wire_qubits.unwrap().iter().cloned(),
                     wire_bits.unwrap().iter().cloned(),
                 )?;
+                self.register_output_parameter(wire, ty, EncodedEdgeID::new(wire), counts);
             } else {
                 // This is an unsupported wire. If it was connected to the old
                 // region's output, rewire it to the new region's output.
@@ -414,11 +424,9 @@ impl<'h> PytketDecoderContext<'h> {
         {
             let node = *insertion_result.node_map.get(&to_insert_node).unwrap();
             let wire = Wire::new(node, port);
-            match self.config().type_to_pytket(ty).filter(|c| c.params == 0) {
+            match self.config().type_to_pytket(ty) {
                 Some(counts) => {
                     // Track the registers in the subgraph output wires.
-                    // Output parameters from a subgraph are always marked as not supported (they don't map to any pytket argument variable).
-                    // We only track qubit/bit wires here.
                     let wire_qubits = split_off(&mut output_qubits, ..counts.qubits);
                     let wire_bits = split_off(&mut output_bits, ..counts.bits);
                     if wire_qubits.is_none() || wire_bits.is_none() {
@@ -435,6 +443,7 @@ impl<'h> PytketDecoderContext<'h> {
                         wire_qubits.unwrap().iter().cloned(),
                         wire_bits.unwrap().iter().cloned(),
                     )?;
+                    self.register_output_parameter(wire, ty, *edge_id, counts);
                 }
                 None => {
                     // This is an unsupported wire, so we let the wire tracker manage the connections.
@@ -448,6 +457,28 @@ impl<'h> PytketDecoderContext<'h> {
         }
         Ok(())
     }
+
+    /// Register the variable for a parameter produced by a subgraph.
+    ///
+    /// These names are set by the encoder, see [`EncodedEdgeID::parameter_name`].
+    fn register_output_parameter(
+        &mut self,
+        wire: Wire,
+        ty: &Type,
+        edge_id: EncodedEdgeID,
+        counts: RegisterCount,
+    ) {
+        if counts.params != 1 {
+            return;
+        }
+        let loaded = if ty == &float64_type() {
+            LoadedParameter::float_half_turns(wire)
+        } else {
+            LoadedParameter::rotation(wire)
+        };
+        self.wire_tracker
+            .register_parameter_variable(loaded, edge_id.parameter_name(0));
+    }
 }
 
 // TODO: Replace with array's `split_off` method once MSRV is ≥1.87
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index c7df509..40f703a 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -33,7 +33,7 @@ use crate::circuit::Circuit;
 use crate::serialize::pytket::circuit::{AdditionalNodesAndWires, EncodedCircuitInfo};
 use crate::serialize::pytket::config::PytketEncoderConfig;
 use crate::serialize::pytket::extension::RegisterCount;
-use crate::serialize::pytket::opaque::{OpaqueSubgraph, OpaqueSubgraphPayload};
+use crate::serialize::pytket::opaque::{EncodedEdgeID, OpaqueSubgraph, OpaqueSubgraphPayload};
 
 /// The state of an in-progress [`SerialCircuit`] being built from a [`Circuit`].
 #[derive(derive_more::Debug)]
@@ -725,8 +725,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
         // any new output values.
         //
         // Output parameters are mapped to a fresh variable, that can be tracked
-        // back to the encoded subcircuit's function name.
-        let mut out_param_count = 0;
+        // back to the wire in the encoded subgraph.
         let input_qubits = op_values.qubits.clone();
         let input_bits = op_values.bits.clone();
         let mut out_qubits = input_qubits.as_slice();
@@ -749,9 +748,10 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 &mut out_bits,
                 &input_param_exprs,
                 |p| {
-                    let range = out_param_count..out_param_count + p.expected_count;
-                    out_param_count += p.expected_count;
-                    range.map(|i| format!("{subgraph_id}_out{i}")).collect_vec()
+                    let edge_id = EncodedEdgeID::new(Wire::new(*out_node, *out_port));
+                    (0..p.expected_count)
+                        .map(|i| edge_id.parameter_name(i))
+                        .collect_vec()
                 },
             )?;
             op_values.append(new_outputs);
diff --git a/tket/src/serialize/pytket/opaque/payload.rs b/tket/src/serialize/pytket/opaque/payload.rs
index 5794f33..6cf037a 100644
--- a/tket/src/serialize/pytket/opaque/payload.rs
+++ b/tket/src/serialize/pytket/opaque/payload.rs
@@ -60,6 +60,14 @@ impl EncodedEdgeID {
         let hash = fxhash::hash64(&wire);
         Self(hash)
     }
+
+    /// Name of the variable for a parameter produced by an opaque subgraph in
+    /// this edge.
+    ///
+    /// This is a valid identifier in pytket expressions.
+    pub(in crate::serialize::pytket) fn parameter_name(&self, index: usize) -> String {
+        format!("edge{}_out{index}", self.0)
+    }
 }
 
 /// Payload for a pytket barrier metadata that indicates the barrier represents
-- 
2.43.0


From dd33237df09f9aa41172c79cbda8a8e4eb61bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 75/83] fix: match parameters to the ports of the merged extra
 subgraph

---
 tket/src/serialize/pytket/encoder.rs | 67 +++++++++++++++++++---------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 40f703a..710c911 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -16,11 +16,11 @@ use hugr::ops::{OpTrait, OpType};
 use hugr::types::EdgeKind;
 
 use std::borrow::Cow;
-use std::collections::{BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::ops::RangeTo;
 use std::sync::{Arc, RwLock};
 
-use hugr::{Direction, HugrView, OutgoingPort, Wire};
+use hugr::{Direction, HugrView, IncomingPort, OutgoingPort, Wire};
 use itertools::Itertools;
 use tket_json_rs::circuit_json::{self, SerialCircuit};
 use unsupported_tracker::UnsupportedTracker;
@@ -225,26 +225,28 @@ impl<H: HugrView> PytketEncoderContext<H> {
     ) -> Result<(EncodedCircuitInfo, OpaqueSubgraphs<H::Node>), PytketEncodeError<H::Node>> {
         // Add any remaining unsupported nodes
         let mut extra_subgraph: Option<BTreeSet<H::Node>> = None;
-        let mut extra_subgraph_params = Vec::new();
+        let mut extra_port_params = BTreeMap::new();
         while !self.unsupported.is_empty() {
             let node = self.unsupported.iter().next().unwrap();
             let opaque_subgraphs = self.unsupported.extract_component(node, circ.hugr())?;
-            match self.emit_unsupported(&opaque_subgraphs, circ) {
-                Ok(()) => (),
-                Err(PytketEncodeError::UnsupportedSubgraphHasNoRegisters { params }) => {
-                    // We'll store the nodes in the `extra_subgraph` field of the `EncodedCircuitInfo`.
-                    // So the decoder can reconstruct the original subgraph.
-                    extra_subgraph
-                        .get_or_insert_default()
-                        .extend(opaque_subgraphs.nodes().iter().cloned());
-                    extra_subgraph_params.extend(params);
-                }
-                Err(e) => return Err(e),
+            if let Err(params) = self.try_emit_unsupported(&opaque_subgraphs, circ)? {
+                // We'll store the nodes in the `extra_subgraph` field of the `EncodedCircuitInfo`.
+                // So the decoder can reconstruct the original subgraph.
+                extra_subgraph
+                    .get_or_insert_default()
+                    .extend(opaque_subgraphs.nodes().iter().cloned());
+                extra_port_params.extend(params);
             }
         }
+        let mut extra_subgraph_params = Vec::new();
         let extra_subgraph = extra_subgraph
             .map(|nodes| -> Result<_, PytketEncodeError<H::Node>> {
                 let subgraph = OpaqueSubgraph::try_from_nodes(nodes, circ.hugr())?;
+                // The parameters must follow the order of the ports in the merged subgraph.
+                for port in subgraph.incoming_ports() {
+                    extra_subgraph_params
+                        .extend(extra_port_params.remove(port).unwrap_or_default());
+                }
                 Ok(self.opaque_subgraphs.register_opaque_subgraph(subgraph))
             })
             .transpose()?;
@@ -687,6 +689,25 @@ impl<H: HugrView> PytketEncoderContext<H> {
         subgraph: &OpaqueSubgraph<H::Node>,
         circ: &Circuit<H>,
     ) -> Result<(), PytketEncodeError<H::Node>> {
+        self.try_emit_unsupported(subgraph, circ)?
+            .map_err(
+                |params| PytketEncodeError::UnsupportedSubgraphHasNoRegisters {
+                    params: params.into_iter().flat_map(|(_, exprs)| exprs).collect(),
+                },
+            )
+    }
+
+    /// Helper for [`PytketEncoderContext::emit_unsupported`].
+    ///
+    /// If the subgraph has no qubits or bits to attach the barrier command to,
+    /// returns the parameter expressions for each of its incoming ports.
+    #[expect(clippy::type_complexity)]
+    fn try_emit_unsupported(
+        &mut self,
+        subgraph: &OpaqueSubgraph<H::Node>,
+        circ: &Circuit<H>,
+    ) -> Result<Result<(), Vec<((H::Node, IncomingPort), Vec<String>)>>, PytketEncodeError<H::Node>>
+    {
         // Encode a payload referencing the subgraph in the Hugr.
         let subgraph_id = self
             .opaque_subgraphs
@@ -698,6 +719,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
         // The [`UnsupportedTracker`] ensures that at this point all local input wires must come from
         // already-encoded nodes, and not from other unsupported nodes not in `unsupported_nodes`.
         let mut op_values = TrackedValues::default();
+        let mut port_params = Vec::new();
         for (node, port) in subgraph.incoming_ports().iter() {
             let (neigh, neigh_out) = circ
                 .hugr()
@@ -710,12 +732,15 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 continue;
             };
             op_values.extend(tracked_values.iter().cloned());
+            let exprs = std::mem::take(&mut op_values.params).into_iter();
+            let exprs = exprs.map(|p| self.values.param_expression(p).to_owned());
+            port_params.push(((*node, *port), exprs.collect_vec()));
         }
 
-        let input_param_exprs: Vec<String> = std::mem::take(&mut op_values.params)
-            .into_iter()
-            .map(|p| self.values.param_expression(p).to_owned())
-            .collect();
+        let input_param_exprs = port_params
+            .iter()
+            .flat_map(|(_, exprs)| exprs.iter().cloned())
+            .collect_vec();
 
         // The bits used by the subgraph are considered outdated afterwards,
         // so they cannot be shared with other wires.
@@ -761,9 +786,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
         //
         // This should only fail when looking at the "leftover" unsupported nodes at the end of the decoding process.
         if op_values.qubits.is_empty() && op_values.bits.is_empty() {
-            return Err(PytketEncodeError::UnsupportedSubgraphHasNoRegisters {
-                params: input_param_exprs.clone(),
-            });
+            return Ok(Err(port_params));
         }
 
         // Create pytket operation, and add the subcircuit as hugr
@@ -777,7 +800,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
 
         self.emit_command(pytket_op, &op_values.qubits, &op_values.bits, None);
         self.release_bits(held_bits);
-        Ok(())
+        Ok(Ok(()))
     }
 
     /// Emit a new tket1 command.
-- 
2.43.0


From 6c0219c9546732fec9213602a672d2d04d809ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:38 +0000
Subject: [PATCH 76/83] fix: keep constants used by nested regions when
 reassembling circuits

---
 tket/src/serialize/pytket/circuit.rs | 34 ++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/tket/src/serialize/pytket/circuit.rs b/tket/src/serialize/pytket/circuit.rs
index 67df409..bb5cc65 100644
--- a/tket/src/serialize/pytket/circuit.rs
+++ b/tket/src/serialize/pytket/circuit.rs
@@ -224,6 +224,40 @@ impl EncodedCircuit<Node> {
             //
             // All descendant nodes that were re-used by the decoded circuit got
             // re-parented at this point, so we can just do a full clear here.
+            //
+            // Keep the constants that are used by the re-used descendants.
+            for child in hugr.children(original_region).collect_vec() {
+                let optype = hugr.get_optype(child);
+                let is_load = optype.is_load_constant();
+                if !is_load && !optype.is_const() {
+                    continue;
+                }
+                let Some(port) = hugr.node_outputs(child).next() else {
+                    continue;
+                };
+                // The loaded values in the decoded region were already re-connected.
+                let users = hugr.linked_inputs(child, port);
+                let users = users.filter(|&(user, _)| {
+                    let parent = hugr.get_parent(user);
+                    parent != Some(original_region) && !(is_load && parent == Some(decoded_node))
+                });
+                let users = users.collect_vec();
+                if users.is_empty() {
+                    continue;
+                }
+                hugr.set_parent(child, decoded_node);
+                if is_load {
+                    hugr.disconnect(child, port);
+                    for (user, user_port) in users {
+                        hugr.connect(child, port, user, user_port);
+                    }
+                    if let Some(constant) = hugr.static_source(child) {
+                        if hugr.get_parent(constant) == Some(original_region) {
+                            hugr.set_parent(constant, decoded_node);
+                        }
+                    }
+                }
+            }
             while let Some(child) = hugr.first_child(original_region) {
                 hugr.remove_subtree(child);
             }
-- 
2.43.0


From fd2a2a2a10cf6837797a7e12e924cd10ab900f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:17 +0000
Subject: [PATCH 77/83] fix: drop an import that is no longer used

---
 tket-qsystem/src/pytket/futures.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket-qsystem/src/pytket/futures.rs b/tket-qsystem/src/pytket/futures.rs
index 6ab7c45..d7f503b 100644
--- a/tket-qsystem/src/pytket/futures.rs
+++ b/tket-qsystem/src/pytket/futures.rs
@@ -2,7 +2,7 @@
 
 use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::extension::ExtensionId;
-use hugr::ops::{ExtensionOp, OpTrait, OpType};
+use hugr::ops::{ExtensionOp, OpType};
 use hugr::types::Term;
 use hugr::{Direction, HugrView, Wire};
 use itertools::Itertools;
-- 
2.43.0


From 65f9eb72033d880ec5e034dfb15c444160c9e912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:17 +0000
Subject: [PATCH 78/83] fix: report integers of any width to the runtime

result_int and result_uint passed narrow integers to functions that take
64 bits, giving an invalid module, and the array versions passed narrow
elements as if they had 64 bits, reading beyond the array.
---
 tket-qsystem/src/llvm/result.rs | 75 +++++++++++++++++++++++++++------
 1 file changed, 63 insertions(+), 12 deletions(-)

diff --git a/tket-qsystem/src/llvm/result.rs b/tket-qsystem/src/llvm/result.rs
index c63bb8c..74bc9ff 100644
--- a/tket-qsystem/src/llvm/result.rs
+++ b/tket-qsystem/src/llvm/result.rs
@@ -1,6 +1,6 @@
 //! LLVM lowering implementations for "tket.results" extension.
 
-use crate::extension::result::{ResultArgs, ResultOp, ResultOpDef};
+use crate::extension::result::{ResultArgs, ResultOp, ResultOpDef, SimpleArgs};
 use crate::llvm::prelude::emit_global_string;
 use anyhow::{anyhow, bail, Result};
 use hugr::llvm::custom::CodegenExtension;
@@ -12,7 +12,7 @@ use hugr::llvm::CodegenExtsBuilder;
 use inkwell::builder::Builder;
 use inkwell::context::Context;
 use inkwell::types::{FloatType, IntType, PointerType, VoidType};
-use inkwell::values::{BasicValueEnum, FunctionValue, IntValue};
+use inkwell::values::{BasicValueEnum, FunctionValue, IntValue, PointerValue};
 use inkwell::AddressSpace;
 use tket::hugr::extension::simple_op::MakeExtensionOp;
 use tket::hugr::ops::ExtensionOp;
@@ -159,28 +159,71 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
         Ok((tag_ptr, tag_len))
     }
 
+    /// Extends an integer with `2^log_width` bits to the 64 bits that the
+    /// runtime functions expect.
+    fn extend_int(&self, val: IntValue<'c>, log_width: u8, signed: bool) -> Result<IntValue<'c>> {
+        if val.get_type() == self.int_t() {
+            return Ok(val);
+        }
+        let builder = self.builder();
+        // The LLVM type may be wider than the integer.
+        let width_t = self.iw_context().custom_width_int_type(1 << log_width);
+        let val = builder.build_int_truncate_or_bit_cast(val, width_t, "")?;
+        Ok(match signed {
+            true => builder.build_int_s_extend(val, self.int_t(), "")?,
+            false => builder.build_int_z_extend(val, self.int_t(), "")?,
+        })
+    }
+
+    /// Returns a pointer to the elements of an array of integers, extended to
+    /// the 64 bits that the runtime functions expect.
+    fn extend_int_array(
+        &self,
+        array: PointerValue<'c>,
+        length: u32,
+        log_width: u8,
+        signed: bool,
+    ) -> Result<PointerValue<'c>> {
+        if array.get_type().get_element_type() == self.int_t().into() {
+            return Ok(array);
+        }
+        let builder = self.builder();
+        let i32_t = self.iw_context().i32_type();
+        let extended =
+            builder.build_array_alloca(self.int_t(), i32_t.const_int(length.into(), false), "")?;
+        for i in 0..length {
+            let idx = i32_t.const_int(i.into(), false);
+            let elem_ptr = unsafe { builder.build_in_bounds_gep(array, &[idx], "")? };
+            let elem = builder.build_load(elem_ptr, "")?.into_int_value();
+            let elem = self.extend_int(elem, log_width, signed)?;
+            let extended_ptr = unsafe { builder.build_in_bounds_gep(extended, &[idx], "")? };
+            builder.build_store(extended_ptr, elem)?;
+        }
+        Ok(extended)
+    }
+
     fn build_print_array_call(
         &self,
-        val: BasicValueEnum,
+        val: BasicValueEnum<'c>,
         op: &ResultOp,
         data_type: &ElemType,
         tag_ptr: BasicValueEnum,
         tag_len: IntValue,
     ) -> Result<()> {
         // TODO update to return array after https://github.com/CQCL/tket2/issues/922
-        let ResultArgs::Array(_, length) = op.args else {
+        let ResultArgs::Array(elem, length) = &op.args else {
             bail!("Expected array argument")
         };
+        let length: u32 = (*length).try_into()?;
 
         let print_fn = self.get_func_print(op)?;
-        let array = self.1.array_to_ptr(self.builder(), val)?;
-        let (array_ptr, _) = struct_1d_arr_alloc(
-            self.iw_context(),
-            self.builder(),
-            length.try_into()?,
-            data_type,
-            array,
-        )?;
+        let mut array = self.1.array_to_ptr(self.builder(), val)?;
+        if let SimpleArgs::Int(log_width) = elem {
+            let signed = matches!(data_type, ElemType::Int);
+            array = self.extend_int_array(array, length, *log_width, signed)?;
+        }
+        let (array_ptr, _) =
+            struct_1d_arr_alloc(self.iw_context(), self.builder(), length, data_type, array)?;
         self.builder().build_call(
             print_fn,
             &[tag_ptr.into(), tag_len.into(), array_ptr.into()],
@@ -217,6 +260,10 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
                     .inputs
                     .try_into()
                     .map_err(|_| anyhow!("result_int expects one input"))?;
+                let ResultArgs::Simple(SimpleArgs::Int(log_width)) = op.args else {
+                    bail!("Expected integer argument")
+                };
+                let val = self.extend_int(val.into_int_value(), log_width, true)?;
                 self.builder().build_call(
                     print_fn,
                     &[tag_ptr.into(), tag_len.into(), val.into()],
@@ -229,6 +276,10 @@ impl<'c, H: HugrView<Node = Node>, AL: ArrayLowering + Clone> ResultEmitter<'c,
                     .inputs
                     .try_into()
                     .map_err(|_| anyhow!("result_uint expects one input"))?;
+                let ResultArgs::Simple(SimpleArgs::Int(log_width)) = op.args else {
+                    bail!("Expected integer argument")
+                };
+                let val = self.extend_int(val.into_int_value(), log_width, false)?;
                 self.builder().build_call(
                     print_fn,
                     &[tag_ptr.into(), tag_len.into(), val.into()],
-- 
2.43.0


From dbbcd0326e9cbed81c6325d7f0fb9096d7f201f9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 79/83] fix: keep borrows and returns that carry state order
 edges

---
 tket/src/passes/borrow_squash.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tket/src/passes/borrow_squash.rs b/tket/src/passes/borrow_squash.rs
index 0f770dc..f194bd4 100644
--- a/tket/src/passes/borrow_squash.rs
+++ b/tket/src/passes/borrow_squash.rs
@@ -233,7 +233,12 @@ fn borrow_squash_traversal<H: HugrMut<Node = Node>>(
                 let (_, prev_return) = oe.get_mut();
                 match prev_return.take() {
                     Some(prev_return) => {
-                        rb_elisions.push((prev_return, Borrow(node, borrowed_out, borrow_from)));
+                        // Other nodes may rely on the state order edges of these ones
+                        // (e.g. those nested in another region that use the borrowed value).
+                        if !has_order_edges(hugr, prev_return.0) && !has_order_edges(hugr, node) {
+                            rb_elisions
+                                .push((prev_return, Borrow(node, borrowed_out, borrow_from)));
+                        }
                     }
                     None => {
                         oe.remove_entry(); // double borrow - this will panic, don't bother optimizing
@@ -327,6 +332,12 @@ fn next_array_op(
     Some((node, idx, is_br.action, is_br.borrow_from))
 }
 
+fn has_order_edges(h: &impl HugrView<Node = Node>, n: Node) -> bool {
+    let op = h.get_optype(n);
+    op.other_input_port().is_some_and(|p| h.is_linked(n, p))
+        || op.other_output_port().is_some_and(|p| h.is_linked(n, p))
+}
+
 fn wire_type(h: &impl HugrView<Node = Node>, w: Wire) -> Type {
     let Some(EdgeKind::Value(ty)) = h.get_optype(w.node()).port_kind(w.source()) else {
         panic!("Invalid wire {w}")
-- 
2.43.0


From 1c44dd6c29a4bdc30c69b3fe48fa7b26bfe3a3ef Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:58:41 +0000
Subject: [PATCH 80/83] fix: squash borrows of the selected regions only

---
 tket/src/passes/borrow_squash.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tket/src/passes/borrow_squash.rs b/tket/src/passes/borrow_squash.rs
index f194bd4..e7beca6 100644
--- a/tket/src/passes/borrow_squash.rs
+++ b/tket/src/passes/borrow_squash.rs
@@ -60,10 +60,17 @@ impl<H: HugrMut<Node = Node>> ComposablePass<H> for BorrowSquashPass {
         let mut results = Vec::new();
         for region in regions {
             let mut seen = HashSet::new();
-            // Start with all nodes not reachable along dataflow edges from other nodes. (Includes Input.)
+            // Start with all nodes not reachable along dataflow edges from other nodes of
+            // the region. (Includes Input.)
+            let is_reachable = |n: Node| {
+                hugr.in_value_types(n).any(|(p, _)| {
+                    let src = hugr.single_linked_output(n, p);
+                    src.is_some_and(|(src, _)| hugr.get_parent(src) == Some(*region))
+                })
+            };
             let mut queue = VecDeque::from_iter(
                 hugr.children(*region)
-                    .filter(|n| hugr.in_value_types(*n).next().is_none())
+                    .filter(|n| !is_reachable(*n))
                     .flat_map(|n| all_outs(hugr, n)),
             );
 
@@ -192,10 +199,12 @@ fn borrow_squash_traversal<H: HugrMut<Node = Node>>(
 ) -> Vec<(Node, Node)> {
     let array_ty = wire_type(hugr, start);
     if !is_borrow_array(&array_ty) {
+        let region = hugr.get_parent(start.node());
         for (n, _) in hugr.linked_inputs(start.node(), start.source()) {
             // Traverse successors until we find an array-creating op. Borrows/Returns
             // will be traversed when reached along their array input.
-            if is_borrow_return(n, hugr).is_none() {
+            // Values may also be used in nested regions, which are not part of this one.
+            if hugr.get_parent(n) == region && is_borrow_return(n, hugr).is_none() {
                 candidates.extend(all_outs(hugr, n));
             }
         }
-- 
2.43.0


From fd40025762fc377530414d9d905dc319a90b7d6b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:02:13 +0000
Subject: [PATCH 81/83] fix: do not encode regions that output values from
 outside

---
 tket/src/serialize/pytket/circuit.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/circuit.rs b/tket/src/serialize/pytket/circuit.rs
index bb5cc65..1ec3f4c 100644
--- a/tket/src/serialize/pytket/circuit.rs
+++ b/tket/src/serialize/pytket/circuit.rs
@@ -335,7 +335,9 @@ impl<Node: HugrNode> EncodedCircuit<Node> {
         let mut encoder_count = 0;
         while let Some(node) = candidate_nodes.pop_front() {
             let node_op = circuit.hugr().get_optype(node);
-            if !OpTag::DataflowParent.is_superset(node_op.tag()) {
+            if !OpTag::DataflowParent.is_superset(node_op.tag())
+                || has_nonlocal_outputs(circuit.hugr(), node)
+            {
                 for child in circuit.hugr().children(node) {
                     add_candidate(child, &mut candidate_nodes);
                 }
@@ -534,3 +536,14 @@ impl<Node: HugrNode> IndexMut<Node> for EncodedCircuit<Node> {
             .serial_circuit
     }
 }
+
+/// Returns `true` if some output of a dataflow region is a value defined
+/// outside of it. Such a region cannot be described by a pytket circuit.
+fn has_nonlocal_outputs<H: HugrView>(hugr: &H, region: H::Node) -> bool {
+    let Some([_, output]) = hugr.get_io(region) else {
+        return false;
+    };
+    hugr.in_value_types(output)
+        .flat_map(|(port, _)| hugr.linked_outputs(output, port))
+        .any(|(src, _)| hugr.get_parent(src) != Some(region))
+}
-- 
2.43.0


From 73dc0c5a51a4eb73c130912e5452ef76d162eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:21 +0000
Subject: [PATCH 82/83] fix: declare wasm and gpu signatures over rows of any
 types

---
 tket-exts/src/tket_exts/data/tket/gpu.json    | 20 +++++++++----------
 tket-exts/src/tket_exts/data/tket/wasm.json   | 20 +++++++++----------
 .../src/extension/classical_compute.rs        | 14 ++++++-------
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/tket-exts/src/tket_exts/data/tket/gpu.json b/tket-exts/src/tket_exts/data/tket/gpu.json
index 4a9be39..3119fa0 100644
--- a/tket-exts/src/tket_exts/data/tket/gpu.json
+++ b/tket-exts/src/tket_exts/data/tket/gpu.json
@@ -112,7 +112,7 @@
                         "tp": "List",
                         "param": {
                           "tp": "Type",
-                          "b": "C"
+                          "b": "A"
                         }
                       }
                     }
@@ -128,7 +128,7 @@
                         "tp": "List",
                         "param": {
                           "tp": "Type",
-                          "b": "C"
+                          "b": "A"
                         }
                       }
                     }
@@ -140,7 +140,7 @@
             {
               "t": "R",
               "i": 0,
-              "b": "C"
+              "b": "A"
             }
           ],
           "output": [
@@ -159,7 +159,7 @@
                         "tp": "List",
                         "param": {
                           "tp": "Type",
-                          "b": "C"
+                          "b": "A"
                         }
                       }
                     }
@@ -279,7 +279,7 @@
                         "tp": "List",
                         "param": {
                           "tp": "Type",
-                          "b": "C"
+                          "b": "A"
                         }
                       }
                     }
@@ -295,7 +295,7 @@
                         "tp": "List",
                         "param": {
                           "tp": "Type",
-                          "b": "C"
+                          "b": "A"
                         }
                       }
                     }
@@ -359,7 +359,7 @@
                         "tp": "List",
                         "param": {
                           "tp": "Type",
-                          "b": "C"
+                          "b": "A"
                         }
                       }
                     }
@@ -375,7 +375,7 @@
                         "tp": "List",
                         "param": {
                           "tp": "Type",
-                          "b": "C"
+                          "b": "A"
                         }
                       }
                     }
@@ -420,7 +420,7 @@
                         "tp": "List",
                         "param": {
                           "tp": "Type",
-                          "b": "C"
+                          "b": "A"
                         }
                       }
                     }
@@ -441,7 +441,7 @@
             {
               "t": "R",
               "i": 0,
-              "b": "C"
+              "b": "A"
             }
           ]
         }
diff --git a/tket-exts/src/tket_exts/data/tket/wasm.json b/tket-exts/src/tket_exts/data/tket/wasm.json
index d9a2e3a..b806e63 100644
--- a/tket-exts/src/tket_exts/data/tket/wasm.json
+++ b/tket-exts/src/tket_exts/data/tket/wasm.json
@@ -112,7 +112,7 @@
                         "tp": "List",
                         "param": {
                           "tp": "Type",
-                          "b": "C"
+                          "b": "A"
                         }
                       }
                     }
@@ -128,7 +128,7 @@
                         "tp": "List",
                         "param": {
                           "tp": "Type",
-                          "b": "C"
+                          "b": "A"
                         }
                       }
                     }
@@ -140,7 +140,7 @@
             {
               "t": "R",
               "i": 0,
-              "b": "C"
+              "b": "A"
             }
           ],
           "output": [
@@ -159,7 +159,7 @@
                         "tp": "List",
                         "param": {
                           "tp": "Type",
-                          "b": "C"
+                          "b": "A"
                         }
                       }
                     }
@@ -279,7 +279,7 @@
                         "tp": "List",
                         "param": {
                           "tp": "Type",
-                          "b": "C"
+                          "b": "A"
                         }
                       }
                     }
@@ -295,7 +295,7 @@
                         "tp": "List",
                         "param": {
                           "tp": "Type",
-                          "b": "C"
+                          "b": "A"
                         }
                       }
                     }
@@ -359,7 +359,7 @@
                         "tp": "List",
                         "param": {
                           "tp": "Type",
-                          "b": "C"
+                          "b": "A"
                         }
                       }
                     }
@@ -375,7 +375,7 @@
                         "tp": "List",
                         "param": {
                           "tp": "Type",
-                          "b": "C"
+                          "b": "A"
                         }
                       }
                     }
@@ -420,7 +420,7 @@
                         "tp": "List",
                         "param": {
                           "tp": "Type",
-                          "b": "C"
+                          "b": "A"
                         }
                       }
                     }
@@ -441,7 +441,7 @@
             {
               "t": "R",
               "i": 0,
-              "b": "C"
+              "b": "A"
             }
           ]
         }
diff --git a/tket-qsystem/src/extension/classical_compute.rs b/tket-qsystem/src/extension/classical_compute.rs
index 461082e..bdd98fe 100644
--- a/tket-qsystem/src/extension/classical_compute.rs
+++ b/tket-qsystem/src/extension/classical_compute.rs
@@ -303,8 +303,8 @@ macro_rules! compute_opdef {
                     Self::dispose_context => Signature::new(context_type, type_row![]).into(),
                     // <id: usize, inputs: TypeRow, outputs: TypeRow> [Module] -> [ComputeType::Func { inputs, outputs }]
                     Self::lookup_by_id => {
-                        let inputs = TypeRV::new_row_var_use(1, TypeBound::Copyable);
-                        let outputs = TypeRV::new_row_var_use(2, TypeBound::Copyable);
+                        let inputs = TypeRV::new_row_var_use(1, TypeBound::Linear);
+                        let outputs = TypeRV::new_row_var_use(2, TypeBound::Linear);
 
                         let func_type = ComputeType::<$ext>::func_custom_type(
                             inputs,
@@ -325,8 +325,8 @@ macro_rules! compute_opdef {
                     }
                     // <name: String, inputs: TypeRow, outputs: TypeRow> [Module] -> [ComputeType::Func { inputs, outputs }]
                     Self::lookup_by_name => {
-                        let inputs = TypeRV::new_row_var_use(1, TypeBound::Copyable);
-                        let outputs = TypeRV::new_row_var_use(2, TypeBound::Copyable);
+                        let inputs = TypeRV::new_row_var_use(1, TypeBound::Linear);
+                        let outputs = TypeRV::new_row_var_use(2, TypeBound::Linear);
 
                         let func_type = ComputeType::<$ext>::func_custom_type(
                             inputs,
@@ -348,8 +348,8 @@ macro_rules! compute_opdef {
                     // <inputs: TypeRow, outputs: TypeRow> [Context, ComputeType::Func { inputs, outputs }, inputs] -> [Context, future<tuple<outputs>>>]
                     Self::call => {
                         let context_type: TypeRV = context_type.into();
-                        let inputs = TypeRV::new_row_var_use(0, TypeBound::Copyable);
-                        let outputs = TypeRV::new_row_var_use(1, TypeBound::Copyable);
+                        let inputs = TypeRV::new_row_var_use(0, TypeBound::Linear);
+                        let outputs = TypeRV::new_row_var_use(1, TypeBound::Linear);
                         let func_type = Type::new_extension(ComputeType::<$ext>::func_custom_type(
                             inputs.clone(),
                             outputs.clone(),
@@ -374,7 +374,7 @@ macro_rules! compute_opdef {
                     }
                     Self::read_result => {
                         let context_type: TypeRV = context_type.into();
-                        let outputs = TypeRV::new_row_var_use(0, TypeBound::Copyable);
+                        let outputs = TypeRV::new_row_var_use(0, TypeBound::Linear);
                         let result_type =
                             TypeRV::new_extension(ComputeType::<$ext>::result_custom_type(
                                 outputs.clone(),
-- 
2.43.0


From 7c98aa13f985811be3fabf5d494f4b6ceef6e025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:17 +0000
Subject: [PATCH 83/83] fix: emit string constants with NUL characters under
 distinct names

---
 tket-qsystem/src/llvm/prelude.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tket-qsystem/src/llvm/prelude.rs b/tket-qsystem/src/llvm/prelude.rs
index be72d9e..641413c 100644
--- a/tket-qsystem/src/llvm/prelude.rs
+++ b/tket-qsystem/src/llvm/prelude.rs
@@ -170,7 +170,8 @@ pub fn emit_global_string<'c, H: HugrView<Node = Node>>(
             format!("{lower32:08X}")
         };
         // Use unicode-aware character slicing to prevent slicing through multi-byte characters
-        let prefix_chars: String = str.chars().take(10).collect();
+        // NUL would end the symbol name, before the part that makes it unique.
+        let prefix_chars: String = str.chars().filter(|c| *c != '\0').take(10).collect();
         let name_prefix = format!("{symbol_prefix}{prefix_chars}.{hash}");
 
         (0..)
-- 
2.43.0

