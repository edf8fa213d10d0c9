From 1a63a4fb97d98f8be428a945b94d6b416a8b9290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:43 +0000
Subject: [PATCH 01/22] fix: count self-loops in DirectedGraph::edge_count

An edge is stored under both its vertices, but a self-loop only once, so halving
the number of stored entries under-counted graphs with self-loops (and made the
topological sort accept some of them).
---
 core/src/directed_graph.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/core/src/directed_graph.rs b/core/src/directed_graph.rs
index 767923e..292ce32 100644
--- a/core/src/directed_graph.rs
+++ b/core/src/directed_graph.rs
@@ -32,12 +32,9 @@ impl DirectedGraph {
     }
 
     pub fn edge_count(&self) -> usize {
-        let mut total_count: usize = 0;
-        for (_, edges) in &self.edge_map {
-            total_count += edges.len();
-        }
-        // Each edge is saved twice => the count should be a multiple of 2, and divided by 2
-        total_count / 2
+        // An edge is saved under both its vertices, but a self-loop only once
+        // => counting each edge from its start vertex only
+        self.edges().count()
     }
 
     pub fn contains_vertex(&self, vertex_id: VertexId) -> bool {
-- 
2.43.0


From a77e2c55f341d9840e140d6515f1be30487148e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:06 +0000
Subject: [PATCH 02/22] fix: report unreadable lines of graph files instead of
 panicking

Ids over 64 bits, non-ASCII digits and lines that are not UTF-8 made the gcmd and
TGF readers panic; they are now errors naming the line, like any other bad line.
---
 core/src/format/gcmd.rs  | 20 ++++++++++----------
 core/src/format/tgf.rs   | 10 +++++-----
 core/src/format/utils.rs |  8 +++++++-
 3 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/core/src/format/gcmd.rs b/core/src/format/gcmd.rs
index fd77c0a..c493fc0 100644
--- a/core/src/format/gcmd.rs
+++ b/core/src/format/gcmd.rs
@@ -49,19 +49,19 @@ fn parse_line(line: &str) -> Result<GraphCommand, String> {
     }
 
     if let Some(cap) = ADD_EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
-        Ok(AddEdge(VertexId(*v1), VertexId(*v2)))
+        let v1 = utils::parse_id(&cap[1])?;
+        let v2 = utils::parse_id(&cap[2])?;
+        Ok(AddEdge(VertexId(v1), VertexId(v2)))
     } else if let Some(cap) = ADD_VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        Ok(AddVertex(VertexId(*v1)))
+        let v1 = utils::parse_id(&cap[1])?;
+        Ok(AddVertex(VertexId(v1)))
     } else if let Some(cap) = REMOVE_EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
-        Ok(RemoveEdge(VertexId(*v1), VertexId(*v2)))
+        let v1 = utils::parse_id(&cap[1])?;
+        let v2 = utils::parse_id(&cap[2])?;
+        Ok(RemoveEdge(VertexId(v1), VertexId(v2)))
     } else if let Some(cap) = REMOVE_VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        Ok(RemoveVertex(VertexId(*v1)))
+        let v1 = utils::parse_id(&cap[1])?;
+        Ok(RemoveVertex(VertexId(v1)))
     } else {
         Err(format!["Couldn't parse '{}'", line])
     }
diff --git a/core/src/format/tgf.rs b/core/src/format/tgf.rs
index 6b7ea0a..8c8f3c9 100644
--- a/core/src/format/tgf.rs
+++ b/core/src/format/tgf.rs
@@ -33,12 +33,12 @@ fn parse_line(line: &str) -> Result<GraphCommand, String> {
     }
 
     if let Some(cap) = EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
-        Ok(AddEdge(VertexId(*v1), VertexId(*v2)))
+        let v1 = utils::parse_id(&cap[1])?;
+        let v2 = utils::parse_id(&cap[2])?;
+        Ok(AddEdge(VertexId(v1), VertexId(v2)))
     } else if let Some(cap) = VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        Ok(AddVertex(VertexId(*v1)))
+        let v1 = utils::parse_id(&cap[1])?;
+        Ok(AddVertex(VertexId(v1)))
     } else {
         Err(format!["Couldn't parse '{}'", line])
     }
diff --git a/core/src/format/utils.rs b/core/src/format/utils.rs
index 5c89f31..8b28047 100644
--- a/core/src/format/utils.rs
+++ b/core/src/format/utils.rs
@@ -39,7 +39,7 @@ where
     let reader = BufReader::new(file);
     let mut result: Vec<GraphCommand> = vec![];
     for (index, line) in reader.lines().enumerate() {
-        let line = line.unwrap(); // Ignore errors.
+        let line = line.map_err(|err| format!["Error at line {}: {}", index + 1, err])?;
         if !line.is_empty() && !is_comment(&line) {
             match parse_line(&line) {
                 Ok(command) => result.push(command),
@@ -49,3 +49,9 @@ where
     }
     Ok(result)
 }
+
+/// Parses a vertex id
+pub fn parse_id(id: &str) -> Result<u64, String> {
+    id.parse::<u64>()
+        .map_err(|err| format!["Invalid vertex id '{}': {}", id, err])
+}
-- 
2.43.0


From 1f77694087cbfbff766582e353f55f3c2671675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:20 +0000
Subject: [PATCH 03/22] fix: DAG shortest paths skip vertices not reachable
 from the start

A vertex after the start in the topological order, but not reachable from it, made
dag_shortest_paths (and so dag_longest_paths) panic.
---
 core/src/algorithm/shortest_path.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/algorithm/shortest_path.rs b/core/src/algorithm/shortest_path.rs
index 5c37b25..cce486c 100644
--- a/core/src/algorithm/shortest_path.rs
+++ b/core/src/algorithm/shortest_path.rs
@@ -36,10 +36,11 @@ where
         .skip_while(|v| **v != start)
         .for_each(|v| {
             graph.outbound_edges(*v).for_each(|edge| {
-                // FIXME is it necessarily true here ...
-                let ScoredPath { path, score } = scores
-                    .get(v)
-                    .expect("The current score of the processed vertex should be in the map");
+                // Vertices coming after start in the topological order are not always reachable from it
+                let ScoredPath { path, score } = match scores.get(v) {
+                    Some(scored_path) => scored_path,
+                    None => return,
+                };
                 let Edge(_, w) = edge;
                 let new_score = score + scorefn(&edge);
                 if let Some(current_score) = scores.get(w).map(|x| x.score) {
-- 
2.43.0


From 8115052650c4b88f083eb482d86008bf9c3677a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:22 +0000
Subject: [PATCH 04/22] fix: best-first search returns the best path to each
 vertex

A vertex was marked as visited by the first path that reached it, so a better path
found later was dropped and the search was only optimal for unit costs.
---
 core/src/iter/iter_best.rs | 49 ++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/core/src/iter/iter_best.rs b/core/src/iter/iter_best.rs
index 3f40749..e1ce62a 100644
--- a/core/src/iter/iter_best.rs
+++ b/core/src/iter/iter_best.rs
@@ -5,7 +5,7 @@ use crate::iter::iter_datastructure::{MinPriorityQueue, SearchQueue};
 use crate::path::Path;
 
 use crate::path::ScoredPath;
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 
 /// Best-First search iterator
 
@@ -15,6 +15,7 @@ where
 {
     queue: MinPriorityQueue<ScoredPath>,
     visited: HashSet<VertexId>,
+    best: HashMap<VertexId, i64>,
     graph: &'a DirectedGraph,
     scorefn: F,
 }
@@ -25,27 +26,32 @@ where
 {
     type Item = ScoredPath;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.queue.pop() {
-            None => None,
-            Some(weighted_path) => {
-                let vid = weighted_path.path.last().unwrap();
-                self.graph
-                    .outbound_edges(*vid)
-                    .map(|Edge(_, v)| v)
-                    .for_each(|v| {
-                        if !self.visited.contains(v) {
-                            self.visited.insert(*v);
-                            let new_path = weighted_path.path.append(*v);
-                            let new_scored_path = ScoredPath {
-                                path: weighted_path.path.append(*v),
-                                score: (self.scorefn)(self.graph, &new_path),
-                            };
-                            self.queue.push(new_scored_path)
-                        }
-                    });
-                Some(weighted_path)
+        while let Some(weighted_path) = self.queue.pop() {
+            let vid = *weighted_path.path.last().unwrap();
+            // A better path to this vertex has already been returned
+            if !self.visited.insert(vid) {
+                continue;
             }
+            self.graph
+                .outbound_edges(vid)
+                .map(|Edge(_, v)| v)
+                .for_each(|v| {
+                    if !self.visited.contains(v) {
+                        let new_path = weighted_path.path.append(*v);
+                        let score = (self.scorefn)(self.graph, &new_path);
+                        // A vertex can be reached by several paths: keeping only the improvements
+                        if self.best.get(v).map_or(true, |best| score < *best) {
+                            self.best.insert(*v, score);
+                            self.queue.push(ScoredPath {
+                                path: new_path,
+                                score,
+                            })
+                        }
+                    }
+                });
+            return Some(weighted_path);
         }
+        None
     }
 }
 
@@ -62,7 +68,7 @@ where
     let score = scorefn(&graph, &path);
     let mut iter = empty_best_iter(graph, scorefn);
     iter.queue.push(ScoredPath { path, score });
-    iter.visited.insert(start_vertex);
+    iter.best.insert(start_vertex, score);
     iter
 }
 
@@ -74,6 +80,7 @@ where
     BestFirstIter {
         queue: MinPriorityQueue::<ScoredPath>::new(),
         visited: HashSet::new(),
+        best: HashMap::new(),
         graph: graph,
         scorefn: scorefn,
     }
-- 
2.43.0


From 8fc4e4a9a8877bc474a14c47504f06b28555a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:20 +0000
Subject: [PATCH 05/22] fix: accept constraint lists that say nothing about
 cycles

Validation rejected every list with neither ContainsCycle nor its negation.
---
 core/src/constraint/checker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/constraint/checker.rs b/core/src/constraint/checker.rs
index 299ea74..1aa4d5e 100644
--- a/core/src/constraint/checker.rs
+++ b/core/src/constraint/checker.rs
@@ -98,7 +98,7 @@ fn check_cycle_inclusion_exclusion(constraints: &Vec<Constraint>) -> Result<(),
     let contains_no_cycle = negated_constraints(constraints)
         .find(|c| **c == ContainsCycle)
         .is_some();
-    if contains_cycle != contains_no_cycle {
+    if !(contains_cycle && contains_no_cycle) {
         ok()
     } else {
         fail(format![
-- 
2.43.0


From 0595b66b09113bae1363783e8c58291713948e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:32 +0000
Subject: [PATCH 06/22] fix: --max-score sets an upper bound

---
 command/src/arg_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/src/arg_utils.rs b/command/src/arg_utils.rs
index 5d72cca..be3f976 100644
--- a/command/src/arg_utils.rs
+++ b/command/src/arg_utils.rs
@@ -103,7 +103,7 @@ pub fn build_constraint_min_score(score: i64) -> Constraint {
 }
 
 pub fn build_constraint_max_score(score: i64) -> Constraint {
-    MinScore(score)
+    MaxScore(score)
 }
 
 pub fn build_constraint_exact_score(score: i64) -> Vec<Constraint> {
-- 
2.43.0


From 1788d805eebfec9ef0e9aa62035191e85770c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:18 +0000
Subject: [PATCH 07/22] fix: the path of a cycle includes its closing edge

---
 command/src/bin/gc-cycle.rs | 20 ++++++++++++++++++--
 core/src/iter/iter_cycle.rs |  6 +++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index f22fa24..32a5744 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -325,10 +325,26 @@ fn check<F>(graph: &DirectedGraph, cycle: &Cycle, constraints: &Vec<Constraint>,
 where
     F: Fn(&DirectedGraph, &path::Path) -> i64,
 {
-    let path = cycle.as_path();
+    // Length and score of a cycle are given by its vertices, but its edges include the closing one
+    let path = path::Path::from(&cycle.iter().copied().collect());
     let score = scorefn(graph, &path);
     let scored_path = path::ScoredPath { path, score };
-    constraints.iter().all(|c| c.check_complete(&scored_path))
+    let closed_path = path::ScoredPath {
+        path: cycle.as_path(),
+        score,
+    };
+    constraints.iter().all(|c| match is_edge_constraint(c) {
+        true => c.check_complete(&closed_path),
+        false => c.check_complete(&scored_path),
+    })
+}
+
+fn is_edge_constraint(constraint: &Constraint) -> bool {
+    match constraint {
+        Constraint::ContainsEdge(_) => true,
+        Constraint::Not(c) => is_edge_constraint(c),
+        _ => false,
+    }
 }
 
 // Formatter
diff --git a/core/src/iter/iter_cycle.rs b/core/src/iter/iter_cycle.rs
index a2d7208..b8f4d2f 100644
--- a/core/src/iter/iter_cycle.rs
+++ b/core/src/iter/iter_cycle.rs
@@ -33,7 +33,11 @@ impl Cycle {
     /// Converts a cycle into a path
     /// Path will include first and last element that are identical
     pub fn as_path(&self) -> Path {
-        Path::from(&self.vertices)
+        let path = Path::from(&self.vertices);
+        match self.vertices.first() {
+            Some(first) => path.append(*first),
+            None => path,
+        }
     }
 
     /// length of the cycle
-- 
2.43.0


From 44e3f456d08d21f01bcbf95530e8a168e04264fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:40 +0000
Subject: [PATCH 08/22] fix: cycle search finds the cycles no starting vertex
 leads to

---
 core/src/iter/iter_cycle.rs | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/core/src/iter/iter_cycle.rs b/core/src/iter/iter_cycle.rs
index b8f4d2f..573ecd2 100644
--- a/core/src/iter/iter_cycle.rs
+++ b/core/src/iter/iter_cycle.rs
@@ -144,9 +144,43 @@ fn find_starting_edges(graph: &DirectedGraph) -> Vec<&VertexId> {
     if res.is_empty() {
         graph.head_option().iter().for_each(|x| res.push(x));
     }
+
+    // A cycle of the same component is not always reachable from these vertices (eg a cycle
+    // with no edge coming into it): starting as well from the vertices left out
+    let component = reachable(&res, |v| {
+        graph
+            .outbound_edges(v)
+            .map(|Edge(_, x)| *x)
+            .chain(graph.inbound_edges(v).map(|Edge(x, _)| *x))
+            .collect()
+    });
+    let successors = |v: VertexId| graph.outbound_edges(v).map(|Edge(_, x)| *x).collect();
+    let mut reached = reachable(&res, successors);
+    for vertex in graph.vertices().filter(|v| component.contains(*v)) {
+        if !reached.contains(vertex) {
+            res.push(vertex);
+            reached.extend(reachable(&vec![vertex], successors));
+        }
+    }
     res
 }
 
+fn reachable<F>(from: &Vec<&VertexId>, neighbours: F) -> HashSet<VertexId>
+where
+    F: Fn(VertexId) -> Vec<VertexId>,
+{
+    let mut reached = from.iter().map(|v| **v).collect::<HashSet<VertexId>>();
+    let mut pending = reached.iter().copied().collect::<Vec<VertexId>>();
+    while let Some(vertex) = pending.pop() {
+        for next in neighbours(vertex) {
+            if reached.insert(next) {
+                pending.push(next);
+            }
+        }
+    }
+    reached
+}
+
 // Helpers
 
 // Extracts a cycle made by the last element of a Path
-- 
2.43.0


From 8543d5325c32dd3f6c44ba437a0f8dd8e1505d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:57 +0000
Subject: [PATCH 09/22] fix: gc-cycle accepts lists of vertices and edges to
 include or exclude

---
 command/src/bin/gc-cycle.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index 32a5744..b6e0ff1 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -140,28 +140,28 @@ fn main() {
                 .long("include-all")
                 .help("Return all the cycles from the graph that are including all the provided vertices")
                 .required(false)
-                .takes_value(true),
+                .min_values(1),
         )
         .arg(
             Arg::with_name("exclude-all")
                 .long("exclude-all")
                 .help("Return all the cycles from the graph that not including any of the provided vertices")
                 .required(false)
-                .takes_value(true),
+                .min_values(1),
         )
         .arg(
             Arg::with_name("include-all-edges")
                 .long("include-all-edges")
                 .help("Return all the cycles from the graph that are including all the provided edges")
                 .required(false)
-                .takes_value(true),
+                .min_values(2),
         )
         .arg(
             Arg::with_name("exclude-all-edges")
                 .long("exclude-all-edges")
                 .help("Return all the cycles from the graph that not including any of the provided edges")
                 .required(false)
-                .takes_value(true),
+                .min_values(2),
         )
         .get_matches();
 
-- 
2.43.0


From e3a0c988a01ab1419324360294b967f13f2b4726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:29 +0000
Subject: [PATCH 10/22] fix: max flow can give flow back along backward edges

---
 core/src/algorithm/max_flow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/algorithm/max_flow.rs b/core/src/algorithm/max_flow.rs
index 009f4b9..69815e2 100644
--- a/core/src/algorithm/max_flow.rs
+++ b/core/src/algorithm/max_flow.rs
@@ -202,7 +202,7 @@ impl<'a> Iterator for AugmentingPathIter<'a> {
             let backward_edges = self
                 .graph
                 .inbound_edges(*vid)
-                .map(|Edge(_, v)| (v, Backward));
+                .map(|Edge(v, _)| (v, Backward));
             // forward + backward edges
             (foward_edges.chain(backward_edges))
                 .filter(|(v, _)| !path.contains_vertex(**v)) // avoiding cycles here
-- 
2.43.0


From fab1c18e6dfc0e0e052b9285a84da03011a45138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:16 +0000
Subject: [PATCH 11/22] fix: depth-first iteration visits vertices in
 depth-first order

---
 core/src/iter/iter_depth.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/core/src/iter/iter_depth.rs b/core/src/iter/iter_depth.rs
index f847faa..3823552 100644
--- a/core/src/iter/iter_depth.rs
+++ b/core/src/iter/iter_depth.rs
@@ -21,21 +21,22 @@ impl<'a> Iterator for DepthFirstIter<'a> {
     // children are pushed in reverse order in the stack
     // First child to be considered by the DFS will be the last one
     fn next(&mut self) -> Option<VertexId> {
-        match self.stack.pop() {
-            None => None,
-            Some(vid) => {
-                self.graph
-                    .outbound_edges(vid)
-                    .map(|Edge(_, v)| v)
-                    .for_each(|v| {
-                        if !self.visited.contains(v) {
-                            self.visited.insert(*v);
-                            self.stack.push(*v)
-                        }
-                    });
-                Some(vid)
+        while let Some(vid) = self.stack.pop() {
+            // A vertex can be in the stack several times: it is visited from the deepest one
+            if !self.visited.insert(vid) {
+                continue;
             }
+            self.graph
+                .outbound_edges(vid)
+                .map(|Edge(_, v)| v)
+                .for_each(|v| {
+                    if !self.visited.contains(v) {
+                        self.stack.push(*v)
+                    }
+                });
+            return Some(vid);
         }
+        None
     }
 }
 
@@ -51,7 +52,6 @@ pub fn dfs_iter(graph: &DirectedGraph) -> DepthFirstIter {
 pub fn dfs_iter_from(graph: &DirectedGraph, start_vertex: VertexId) -> DepthFirstIter {
     let mut dfs_iter = empty_dfs_iter(graph);
     dfs_iter.stack.push(start_vertex);
-    dfs_iter.visited.insert(start_vertex);
     dfs_iter
 }
 
-- 
2.43.0


From f600ff43bd6df63d3a5e7769796d51879d4e03dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:42 +0000
Subject: [PATCH 12/22] fix: report failures to write the end of a graph file

---
 core/src/format/gcmd.rs | 6 ++++--
 core/src/format/tgf.rs  | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/format/gcmd.rs b/core/src/format/gcmd.rs
index c493fc0..f4001c7 100644
--- a/core/src/format/gcmd.rs
+++ b/core/src/format/gcmd.rs
@@ -87,7 +87,8 @@ pub fn save(graph: &DirectedGraph, filename: &str) -> std::io::Result<()> {
         let Edge(VertexId(src), VertexId(dest)) = edge;
         writeln![buffered, "AddEdge {} {}", src, dest]?;
     }
-    Ok(())
+    // Errors are not reported when the buffer is flushed by its drop
+    buffered.flush()
 }
 
 /// Updates an existing file with a list of GraphCommand
@@ -99,7 +100,8 @@ pub fn add_commands(filename: &str, commands: Vec<GraphCommand>) -> std::io::Res
         let line = command_into_line(command);
         writeln![buffered, "{}", line]?;
     }
-    Ok(())
+    // Errors are not reported when the buffer is flushed by its drop
+    buffered.flush()
 }
 
 fn command_into_line(command: GraphCommand) -> String {
diff --git a/core/src/format/tgf.rs b/core/src/format/tgf.rs
index 8c8f3c9..f38f81d 100644
--- a/core/src/format/tgf.rs
+++ b/core/src/format/tgf.rs
@@ -64,7 +64,8 @@ pub fn save(graph: &DirectedGraph, filename: String) -> std::io::Result<()> {
         let Edge(VertexId(src), VertexId(dest)) = edge;
         writeln!(buffered, "{} {}", src, dest)?;
     }
-    Ok(())
+    // Errors are not reported when the buffer is flushed by its drop
+    buffered.flush()
 }
 
 #[cfg(test)]
-- 
2.43.0


From ff44117fbda0fbf941924cf563b09126b116fe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:44 +0000
Subject: [PATCH 13/22] fix: gc-add and gc-delete report failures and apply
 nothing when an argument is malformed

---
 command/src/bin/gc-add.rs    | 46 ++++++++++++++++++++++--------------
 command/src/bin/gc-delete.rs | 20 +++++++++++-----
 2 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/command/src/bin/gc-add.rs b/command/src/bin/gc-add.rs
index 87940d6..7134fa2 100644
--- a/command/src/bin/gc-add.rs
+++ b/command/src/bin/gc-add.rs
@@ -87,45 +87,55 @@ fn main() {
     let path = args.value_of("path").unwrap();
     let reverse_edges = args.is_present("reverse");
 
-    args.values_of("vertex")
+    // All the arguments are parsed before the graph gets changed
+    let vertices: Option<Vec<VertexId>> = args
+        .values_of("vertex")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
-        .map(|vids| vids.map(|vid| VertexId(vid)).collect())
-        .map(|vids| graph_utils::add_vertices(path, vids));
+        .map(|vids| vids.map(|vid| VertexId(vid)).collect());
 
-    args.values_of("edge")
+    let edge = args
+        .values_of("edge")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| vids.map(|vid| VertexId(vid)).collect())
         .map(|vids| {
             arg_utils::as_vertex_tuple(vids)
                 .expect("Invalid number of vertices. Must be an even number")
         })
-        .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| reverse_if_needed(reverse_edges, vids));
 
-    args.values_of("chain")
+    let chain = args
+        .values_of("chain")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| chain_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
-        .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| reverse_if_needed(reverse_edges, vids));
 
-    args.values_of("cycle")
+    let cycle = args
+        .values_of("cycle")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| {
             cycle_from_vertices(vids.map(|vid| VertexId(vid)).collect()).expect("Invalid cycle")
         })
-        .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| reverse_if_needed(reverse_edges, vids));
 
-    args.values_of("star")
+    let star = args
+        .values_of("star")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| star_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
-        .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| reverse_if_needed(reverse_edges, vids));
 
-    args.values_of("clique")
+    let clique = args
+        .values_of("clique")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
-        .map(|vids| clique_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| clique_from_vertices(vids.map(|vid| VertexId(vid)).collect()));
+
+    if let Some(vids) = vertices {
+        graph_utils::add_vertices(path, vids).expect("Couldn't add vertices");
+    }
+    for edges in vec![edge, chain, cycle, star, clique] {
+        if let Some(edges) = edges {
+            graph_utils::add_edges(path, edges).expect("Couldn't add edges");
+        }
+    }
 }
 
 fn chain_from_vertices(vertices: Vec<VertexId>) -> Vec<(VertexId, VertexId)> {
diff --git a/command/src/bin/gc-delete.rs b/command/src/bin/gc-delete.rs
index 905a639..bdee3cc 100644
--- a/command/src/bin/gc-delete.rs
+++ b/command/src/bin/gc-delete.rs
@@ -41,14 +41,22 @@ fn main() {
 
     let path = args.value_of("path").unwrap();
 
-    args.values_of("vertex")
+    // All the arguments are parsed before the graph gets changed
+    let vertices: Option<Vec<VertexId>> = args
+        .values_of("vertex")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
-        .map(|vids| vids.map(|vid| VertexId(vid)).collect())
-        .map(|vids| graph_utils::remove_vertices(path, vids));
+        .map(|vids| vids.map(|vid| VertexId(vid)).collect());
 
-    args.values_of("edge")
+    let edges = args
+        .values_of("edge")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| vids.map(|vid| VertexId(vid)).collect())
-        .map(|vids| arg_utils::as_vertex_tuple(vids).expect("Invalid number of vertices. Must be an even number"))
-        .map(|vids| graph_utils::remove_edges(path, vids));
+        .map(|vids| arg_utils::as_vertex_tuple(vids).expect("Invalid number of vertices. Must be an even number"));
+
+    if let Some(vids) = vertices {
+        graph_utils::remove_vertices(path, vids).expect("Couldn't remove vertices");
+    }
+    if let Some(edges) = edges {
+        graph_utils::remove_edges(path, edges).expect("Couldn't remove edges");
+    }
 }
-- 
2.43.0


From 8bf4810bf0fc3a51ec161d18e7fdcc6ab8d84913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:32 +0000
Subject: [PATCH 14/22] fix: taking the lock of a graph fails when it is
 already locked

---
 command/src/graph_utils.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/command/src/graph_utils.rs b/command/src/graph_utils.rs
index 28e40d6..ae65d19 100644
--- a/command/src/graph_utils.rs
+++ b/command/src/graph_utils.rs
@@ -26,7 +26,14 @@ pub fn init(root_dir: &str) -> io::Result<()> {
 /// Creates a lock file indicating a command is already getting process
 /// Any command execution be put on hold / fail straight away if the lock file exists
 pub fn lock(root_dir: &str) -> io::Result<()> {
-    touch(lock_path(root_dir).as_ref())
+    let path = lock_path(root_dir);
+    create_parent(path.as_ref());
+    // Fails when the lock file already exists
+    fs::OpenOptions::new()
+        .create_new(true)
+        .write(true)
+        .open(path)
+        .map(|_| ())
 }
 
 /// Removes the lock file to indicate
@@ -133,8 +140,7 @@ pub fn remove_edges(root_dir: &str, edges: Vec<(VertexId, VertexId)>) -> std::io
 /// Helpers
 
 fn touch(path: &path::Path) -> io::Result<()> {
-    // Making sure parent directory exists
-    path.parent().map(|parent| fs::create_dir_all(parent));
+    create_parent(path);
     fs::OpenOptions::new()
         .create(true)
         .write(true)
@@ -142,6 +148,11 @@ fn touch(path: &path::Path) -> io::Result<()> {
         .map(|_| ())
 }
 
+// Making sure parent directory exists
+fn create_parent(path: &path::Path) {
+    path.parent().map(|parent| fs::create_dir_all(parent));
+}
+
 fn lock_path(root_dir: &str) -> Box<path::Path> {
     path::Path::new(root_dir).join(LOCK_FILE).into_boxed_path()
 }
-- 
2.43.0


From 7263600f83ec7480d1938935fd38423224092e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:06 +0000
Subject: [PATCH 15/22] fix: gc-build takes the lock of the graph it rewrites

---
 command/src/bin/gc-build.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/command/src/bin/gc-build.rs b/command/src/bin/gc-build.rs
index ba884ec..0337db8 100644
--- a/command/src/bin/gc-build.rs
+++ b/command/src/bin/gc-build.rs
@@ -1,6 +1,7 @@
 use clap::{App, Arg};
 use gc_command::graph_utils;
 use gc_command::version;
+use std::io::{Error, ErrorKind};
 
 fn main() {
     let args = App::new("gc-build")
@@ -31,14 +32,18 @@ fn main() {
     let path = args.value_of("path").unwrap();
     let verbose = args.is_present("verbose");
 
-    let graph = graph_utils::load_graph(path).expect("Couldn't load graph");
-    if verbose {
-        println!("Vertices: {}", graph.vertex_count());
-        println!("Edges: {}", graph.edge_count());
-    }
+    // The graph can't be changed by another command between the load and the save
+    graph_utils::with_lock(path, || {
+        let graph = graph_utils::load_graph(path)
+            .map_err(|err| Error::new(ErrorKind::Other, format!("Couldn't load graph: {}", err)))?;
+        if verbose {
+            println!("Vertices: {}", graph.vertex_count());
+            println!("Edges: {}", graph.edge_count());
+        }
 
-    graph_utils::save_graph_as_commands(path, &graph)
-        .expect("Couldn't save graph. Data maybe lost !");
+        graph_utils::save_graph_as_commands(path, &graph)
+    })
+    .expect("Couldn't build graph. The graph might be locked (check 'lock' file), or data maybe lost !");
 
     println!("Done.")
 }
-- 
2.43.0


From c325f82d6f3133190d0ee843b52f969547763d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:48 +0000
Subject: [PATCH 16/22] fix: gc-random creates the requested vertices and
 edges, and always ends

---
 command/src/bin/gc-random.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/command/src/bin/gc-random.rs b/command/src/bin/gc-random.rs
index 74dc781..46853ed 100644
--- a/command/src/bin/gc-random.rs
+++ b/command/src/bin/gc-random.rs
@@ -117,15 +117,20 @@ fn creates_random_dag(vertex_count: usize, edge_count: usize) -> Option<Directed
     let mut rng = rand::thread_rng();
     let layer = 10;
     let layer_size = (vertex_count / layer) as u64;
+    let vertex_count = vertex_count as u64;
     let mut graph = DirectedGraph::new();
-    while graph.edge_count() < edge_count {
-        for vid in 1..vertex_count {
-            let this = vid as u64;
-            let other = rng.gen::<u64>();
-            let (src, dst) = (this.min(other), this.max(other));
-            if dst-src > layer_size {
-                graph.add_edge(Edge(VertexId(src), VertexId(dst)));
-            }
+    for vid in 1..=vertex_count {
+        graph.add_vertex(VertexId(vid));
+    }
+    // Can't have more edges than the layers allow
+    let span = vertex_count.saturating_sub(layer_size + 1);
+    let mut missing = (edge_count as u64).min(span * (span + 1) / 2);
+    while missing > 0 {
+        let this = rng.gen_range(1, vertex_count + 1);
+        let other = rng.gen_range(1, vertex_count + 1);
+        let (src, dst) = (this.min(other), this.max(other));
+        if dst-src > layer_size && graph.add_edge(Edge(VertexId(src), VertexId(dst))) {
+            missing -= 1;
         }
     }
 
-- 
2.43.0


From 2c824b78cbdb8a2fb5a0a4904438cfa7b8f581bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:38 +0000
Subject: [PATCH 17/22] fix: gc-random keeps the lock until the new graph is
 stored

---
 command/src/bin/gc-random.rs | 10 +---------
 command/src/graph_utils.rs   | 10 ++++++++++
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/command/src/bin/gc-random.rs b/command/src/bin/gc-random.rs
index 46853ed..ef9e1ba 100644
--- a/command/src/bin/gc-random.rs
+++ b/command/src/bin/gc-random.rs
@@ -90,18 +90,10 @@ fn main() {
         }
 
         // Cleaning current graph first
-        graph_utils::clean(path).expect(&format![
+        graph_utils::replace_graph(path, &random_graph).expect(&format![
             "A problem occured. Path '{}' might not exist, or the graph is currently lock (check 'lock' file)",
             &path
         ]);
-        graph_utils::init(path).expect(&format![
-            "A problem occured. Unable to create a new graph at '{}' (check directory structure and 'lock' file)",
-            &path
-        ]);
-        graph_utils::save_graph_as_commands(path, &random_graph).expect(&format![
-            "A problem occured. Unable to save graph at '{}' (check directory structure and 'lock' file)",
-            &path
-        ]);
     } else {
         println!("Couldn't generate graph.")
     }
diff --git a/command/src/graph_utils.rs b/command/src/graph_utils.rs
index ae65d19..50c52fe 100644
--- a/command/src/graph_utils.rs
+++ b/command/src/graph_utils.rs
@@ -87,6 +87,16 @@ pub fn clean(root_dir: &str) -> std::io::Result<()> {
     })
 }
 
+/// Replaces the current graph, making sure no other command changes it meanwhile
+/// This can not be undone
+pub fn replace_graph(root_dir: &str, graph: &DirectedGraph) -> std::io::Result<()> {
+    with_lock(root_dir, || {
+        std::fs::remove_dir_all(root_path(root_dir).as_ref())?;
+        init(root_dir)?;
+        save_graph_as_commands(root_dir, graph)
+    })
+}
+
 /// Adds a Vertex to the graph
 pub fn add_vertex(root_dir: &str, vid: VertexId) -> std::io::Result<()> {
     apply_graph_commands(root_dir, vec![AddVertex(vid)])
-- 
2.43.0


From c993161fc93fc3d7bc1e288bd5bad951924db153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:32 +0000
Subject: [PATCH 18/22] fix: malformed option values are reported instead of
 being ignored

---
 command/src/bin/gc-csp.rs    | 18 +++++++++---------
 command/src/bin/gc-cycle.rs  | 22 +++++++++++-----------
 command/src/bin/gc-random.rs |  4 ++--
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/command/src/bin/gc-csp.rs b/command/src/bin/gc-csp.rs
index 72d0f79..2a7a8b5 100644
--- a/command/src/bin/gc-csp.rs
+++ b/command/src/bin/gc-csp.rs
@@ -148,17 +148,17 @@ fn main() {
 
     let include = args
         .values_of("include")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid include"))
         .map(arg_utils::build_constraint_include);
 
     let exclude = args
         .values_of("exclude")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid exclude"))
         .map(arg_utils::build_constraint_exclude);
 
     let ordered = args
         .values_of("ordered")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid ordered"))
         .map(arg_utils::build_constraint_ordered);
 
     let include_cycle = arg_utils::option_of(args.is_present("include-cycle"),
@@ -169,32 +169,32 @@ fn main() {
 
     let min_length = args
         .value_of("min-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid min-length"))
         .map(arg_utils::build_constraint_min_length);
 
     let max_length = args
         .value_of("max-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid max-length"))
         .map(arg_utils::build_constraint_max_length);
 
     let exact_length = args
         .value_of("exact-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid exact-length"))
         .map(arg_utils::build_constraint_exact_length);
 
     let min_score = args
         .value_of("min-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid min-score"))
         .map(arg_utils::build_constraint_min_score);
 
     let max_score = args
         .value_of("max-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid max-score"))
         .map(arg_utils::build_constraint_max_score);
 
     let exact_score = args
         .value_of("exact-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid exact-score"))
         .map(arg_utils::build_constraint_exact_score);
 
 
diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index b6e0ff1..5557bc0 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -179,49 +179,49 @@ fn main() {
         Some(1)
     } else {
         args.value_of("take-n")
-            .and_then(|x| x.parse::<usize>().ok())
+            .map(|x| x.parse::<usize>().expect("Invalid take-n"))
     };
     let take_all = args.is_present("all");
     // Constraints
     let include_all = args
         .values_of("include-all")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid include-all"))
         .map(arg_utils::build_constraint_include);
     let exclude_all = args
         .values_of("exclude-all")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid exclude-all"))
         .map(arg_utils::build_constraint_exclude);
     let include_all_edges = args
         .values_of("include-all-edges")
-        .and_then(|ids| arg_utils::parse_edge_list(ids.collect()))
+        .map(|ids| arg_utils::parse_edge_list(ids.collect()).expect("Invalid include-all-edges"))
         .map(arg_utils::build_constraint_include_edges);
     let exclude_all_edges = args
         .values_of("exclude-all-edges")
-        .and_then(|ids| arg_utils::parse_edge_list(ids.collect()))
+        .map(|ids| arg_utils::parse_edge_list(ids.collect()).expect("Invalid exclude-all-edges"))
         .map(arg_utils::build_constraint_exclude_edges);
     let min_length = args
         .value_of("min-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid min-length"))
         .map(arg_utils::build_constraint_min_length);
     let max_length = args
         .value_of("max-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid max-length"))
         .map(arg_utils::build_constraint_max_length);
     let exact_length = args
         .value_of("exact-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid exact-length"))
         .map(arg_utils::build_constraint_exact_length);
     let min_score = args
         .value_of("min-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid min-score"))
         .map(arg_utils::build_constraint_min_score);
     let max_score = args
         .value_of("max-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid max-score"))
         .map(arg_utils::build_constraint_max_score);
     let exact_score = args
         .value_of("exact-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid exact-score"))
         .map(arg_utils::build_constraint_exact_score);
 
     let constraints = build_all_constraints(
diff --git a/command/src/bin/gc-random.rs b/command/src/bin/gc-random.rs
index ef9e1ba..f86acd5 100644
--- a/command/src/bin/gc-random.rs
+++ b/command/src/bin/gc-random.rs
@@ -68,10 +68,10 @@ fn main() {
     let path = args.value_of("path").unwrap();
     let force = args.is_present("force");
     let vertex_count =  args.value_of("vertex-count")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid vertex-count"))
         .unwrap();
     let edge_count =  args.value_of("edge-count")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid edge-count"))
         .unwrap_or(vertex_count * 3);
 
 
-- 
2.43.0


From e7d951e811051b3b9cecc68201bc6fa183871a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:45 +0000
Subject: [PATCH 19/22] fix: commands appended to a file whose last line is not
 terminated start on a new line

---
 core/src/format/gcmd.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/core/src/format/gcmd.rs b/core/src/format/gcmd.rs
index f4001c7..0db4c2a 100644
--- a/core/src/format/gcmd.rs
+++ b/core/src/format/gcmd.rs
@@ -23,7 +23,7 @@ use crate::graph_command::GraphCommand::RemoveVertex;
 use lazy_static::*;
 use regex::Regex;
 use std::fs::{File, OpenOptions};
-use std::io::{BufWriter, Write};
+use std::io::{BufWriter, Read, Seek, SeekFrom, Write};
 
 ///
 /// Reading a Command file
@@ -94,8 +94,13 @@ pub fn save(graph: &DirectedGraph, filename: &str) -> std::io::Result<()> {
 /// Updates an existing file with a list of GraphCommand
 /// New commands will be appended at the end of the file
 pub fn add_commands(filename: &str, commands: Vec<GraphCommand>) -> std::io::Result<()> {
-    let file = OpenOptions::new().write(true).append(true).open(filename)?;
+    let mut file = OpenOptions::new().read(true).append(true).open(filename)?;
+    let needs_newline = !commands.is_empty() && !ends_with_newline(&mut file)?;
     let mut buffered = BufWriter::new(file);
+    // The last line may have been left open (by an editor, for instance)
+    if needs_newline {
+        writeln![buffered]?;
+    }
     for command in commands {
         let line = command_into_line(command);
         writeln![buffered, "{}", line]?;
@@ -104,6 +109,17 @@ pub fn add_commands(filename: &str, commands: Vec<GraphCommand>) -> std::io::Res
     buffered.flush()
 }
 
+/// Tests if the last line of a file is terminated. True for an empty file
+fn ends_with_newline(file: &mut File) -> std::io::Result<bool> {
+    if file.seek(SeekFrom::End(0))? == 0 {
+        return Ok(true);
+    }
+    file.seek(SeekFrom::End(-1))?;
+    let mut last = [0; 1];
+    file.read_exact(&mut last)?;
+    Ok(last == *b"\n")
+}
+
 fn command_into_line(command: GraphCommand) -> String {
     use GraphCommand::*;
     match command {
-- 
2.43.0


From d125cc7e373cbee92bf624aa03f06fed894509be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:08 +0000
Subject: [PATCH 20/22] fix: a graph that can't be saved completely isn't lost

Saving truncated the stored file first: gc-build (or gc-random) cut short
by a full device or killed while writing lost the graph.
---
 command/src/graph_utils.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/command/src/graph_utils.rs b/command/src/graph_utils.rs
index 50c52fe..595023e 100644
--- a/command/src/graph_utils.rs
+++ b/command/src/graph_utils.rs
@@ -70,13 +70,19 @@ fn load_graph_from_path(filepath: &path::Path) -> Result<DirectedGraph, String>
 
 pub fn save_graph_as_commands(filepath: &str, graph: &DirectedGraph) -> io::Result<()> {
     let command_path = command_path(filepath);
-    gcmd::save(
+    // The current file is replaced once the new one is complete: a failure doesn't lose the graph
+    let new_path = command_path.with_extension("new");
+    let saved = gcmd::save(
         graph,
-        command_path
-            .as_ref()
+        new_path
             .to_str()
             .expect("Invalid path. (UTF-9 ?)"),
     )
+    .and_then(|_| fs::rename(&new_path, &command_path));
+    if saved.is_err() {
+        let _ = fs::remove_file(&new_path);
+    }
+    saved
 }
 
 /// Cleans-up the graph directory structure
-- 
2.43.0


From e122979e24a81ba68cb25ec48b321f620bc20f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:26 +0000
Subject: [PATCH 21/22] fix: gc-build is verbose only when asked to be

---
 command/src/bin/gc-build.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/command/src/bin/gc-build.rs b/command/src/bin/gc-build.rs
index 0337db8..1e2b2fb 100644
--- a/command/src/bin/gc-build.rs
+++ b/command/src/bin/gc-build.rs
@@ -22,10 +22,8 @@ fn main() {
                 .long("verbose")
                 .short("v")
                 .help("Verbose mode")
-                .default_value("false")
                 .required(false)
-                .takes_value(false)
-                .max_values(1),
+                .takes_value(false),
         )
         .get_matches();
 
-- 
2.43.0


From 15377ec839b16b62ddc5783ed2c23bed609c0952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:50 +0000
Subject: [PATCH 22/22] fix: graphs with the same vertices and edges are equal
 whatever the order of the edits

The derived comparison compared the lists of edges of each vertex in the
order the edges were added in, so that two graphs with the same vertices
and edges could differ.
---
 core/src/directed_graph.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/src/directed_graph.rs b/core/src/directed_graph.rs
index 292ce32..87f9777 100644
--- a/core/src/directed_graph.rs
+++ b/core/src/directed_graph.rs
@@ -6,12 +6,23 @@ use crate::graph::*;
 
 /// A directed graph structure that doesn't contain any information concerning the vertex or the
 /// edge attributes
-#[derive(Debug, PartialEq)]
+#[derive(Debug)]
 pub struct DirectedGraph {
     // Each edge is indexed by both its vertices => 1 edge appears twice in the map
     edge_map: HashMap<VertexId, Vec<Edge>>,
 }
 
+/// Graphs are equal when they have the same vertices and the same edges, whatever the order
+/// the edges were added in
+impl PartialEq for DirectedGraph {
+    fn eq(&self, other: &DirectedGraph) -> bool {
+        self.vertex_count() == other.vertex_count()
+            && self.edge_count() == other.edge_count()
+            && self.vertices().all(|v| other.contains_vertex(*v))
+            && self.edges().all(|e| other.contains_edge(*e))
+    }
+}
+
 impl DirectedGraph {
     pub fn new() -> DirectedGraph {
         DirectedGraph {
-- 
2.43.0

