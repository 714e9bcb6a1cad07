From 928f1a6fe5278db4d25f242da7d3616880bb7f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:53 +0000
Subject: [PATCH 01/14] fix: Dijkstra compares per-direction length, and resets
 touched entries before resizing

The buffers' length was compared with the number of directions (2), so a query on a graph
of two nodes indexed empty buffers, and a Dijkstra reused for a smaller graph reset
entries out of bounds.
---
 src/routing/dijkstra.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/routing/dijkstra.rs b/src/routing/dijkstra.rs
index acdb424..292145d 100644
--- a/src/routing/dijkstra.rs
+++ b/src/routing/dijkstra.rs
@@ -72,16 +72,17 @@ impl Dijkstra {
         // fwd and bwd
         for &dir in &[Direction::FWD, Direction::BWD] {
             let dir = self.dir_idx(dir);
-            if self.costs.len() != new_len {
-                self.costs[dir].resize(new_len, std::f64::INFINITY);
-                self.predecessors[dir].resize(new_len, None);
-            }
-
+            // reset before resizing, because touched indices belong to the previous query's graph
             for i in self.touched[dir].drain(..) {
                 self.costs[dir][i] = std::f64::INFINITY;
                 self.predecessors[dir][i] = None;
             }
 
+            if self.costs[dir].len() != new_len {
+                self.costs[dir].resize(new_len, std::f64::INFINITY);
+                self.predecessors[dir].resize(new_len, None);
+            }
+
             // assert!(self.costs[dir].iter().all(|&c| c == f64::INFINITY));
             // assert!(self.predecessors[dir].iter().all(|&p| p == None));
 
-- 
2.43.0


From 0658f53a0d6ff5e36cf55209277d1ed3168cc888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:53 +0000
Subject: [PATCH 02/14] fix: offset-arrays cover nodes of highest index without
 leaving or entering edges

Iterating over the edges of such a node (e.g. in a routing-query) was out of bounds.
---
 src/network/graph/building.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index c6b81c8..4413791 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -758,8 +758,9 @@ impl GraphBuilder {
                 // update edge-idx
                 edge_idx += 1;
             }
-            // last node needs an upper bound as well for `leaving_edges(...)`
-            graph.fwd_offsets.push(offset);
+            // last nodes may have no leaving edges,
+            // and the last node needs an upper bound as well for `leaving_edges(...)`
+            graph.fwd_offsets.resize(graph.node_ids.len() + 1, offset);
             progress_bar.set(offset);
             if progress_bar.has_progressed_significantly() {
                 progress_bar.remember_significant_progress();
@@ -873,7 +874,8 @@ impl GraphBuilder {
                 proto_edges.len(),
                 "Last offset-value should be as big as the number of proto-edges."
             );
-            graph.bwd_offsets.push(offset);
+            // last nodes may have no leaving edges as well
+            graph.bwd_offsets.resize(graph.node_ids.len() + 1, offset);
             progress_bar.set(graph.fwd_dsts.len());
             if progress_bar.has_progressed_significantly() {
                 progress_bar.remember_significant_progress();
-- 
2.43.0


From 77a4430e162c2aef1640bfd659fd45e54222790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:53 +0000
Subject: [PATCH 03/14] fix: write the dst-node's coordinates as DstLat/DstLon
 instead of the src-node's

---
 src/io/writing/network/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/writing/network/mod.rs b/src/io/writing/network/mod.rs
index 8bb40f4..1c5fe8b 100644
--- a/src/io/writing/network/mod.rs
+++ b/src/io/writing/network/mod.rs
@@ -118,12 +118,12 @@ fn write_edges_to_file<W: Write>(
                                     write!(writer, "{}", dst_idx)?;
                                 }
                                 configs::parsing::edges::MetaInfo::DstLat => {
-                                    let dst_idx = bwd_edges.dst_idx(edge_idx);
+                                    let dst_idx = fwd_edges.dst_idx(edge_idx);
                                     let dst_lat = nodes.coord(dst_idx).lat;
                                     write!(writer, "{}", dst_lat)?;
                                 }
                                 configs::parsing::edges::MetaInfo::DstLon => {
-                                    let dst_idx = bwd_edges.dst_idx(edge_idx);
+                                    let dst_idx = fwd_edges.dst_idx(edge_idx);
                                     let dst_lon = nodes.coord(dst_idx).lon;
                                     write!(writer, "{}", dst_lon)?;
                                 }
-- 
2.43.0


From a4b684b4d24b2a8b993be0e7ef606768c30192e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:53 +0000
Subject: [PATCH 04/14] fix: writers flush their buffers, so failing last
 writes are reported

When a BufWriter is dropped, errors of writing its remaining buffer are ignored, so
truncated files have been reported as written successfully.
---
 src/io/writing/network/edges.rs         | 6 ++++++
 src/io/writing/network/graph/fmi.rs     | 3 +++
 src/io/writing/routing/random_or_all.rs | 3 +++
 src/io/writing/smarts.rs                | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/src/io/writing/network/edges.rs b/src/io/writing/network/edges.rs
index 2aaf532..71367c1 100644
--- a/src/io/writing/network/edges.rs
+++ b/src/io/writing/network/edges.rs
@@ -55,6 +55,9 @@ impl Writer {
 
         write_edges_to_file(&mut writer, graph, writing_cfg)?;
 
+        // errors would be ignored when dropping the writer
+        writer.flush()?;
+
         info!("FINISHED");
         Ok(())
     }
@@ -119,6 +122,9 @@ impl Writer {
             writeln!(writer, "{} {}", fwd_edges.id(edge_idx), values[*edge_idx])?;
         }
 
+        // errors would be ignored when dropping the writer
+        writer.flush()?;
+
         Ok(())
     }
 }
diff --git a/src/io/writing/network/graph/fmi.rs b/src/io/writing/network/graph/fmi.rs
index 224594f..2e99a3f 100644
--- a/src/io/writing/network/graph/fmi.rs
+++ b/src/io/writing/network/graph/fmi.rs
@@ -205,6 +205,9 @@ impl Writer {
             &writing::network::edges::Config::from(writing_cfg.clone()),
         )?;
 
+        // errors would be ignored when dropping the writer
+        writer.flush()?;
+
         info!("FINISHED");
         Ok(())
     }
diff --git a/src/io/writing/routing/random_or_all.rs b/src/io/writing/routing/random_or_all.rs
index 1d88b37..f2df626 100644
--- a/src/io/writing/routing/random_or_all.rs
+++ b/src/io/writing/routing/random_or_all.rs
@@ -154,6 +154,9 @@ impl Writer {
             writeln!(writer, "{} {} {}", src_id, dst_id, 1)?;
         }
 
+        // errors would be ignored when dropping the writer
+        writer.flush()?;
+
         Ok(())
     }
 }
diff --git a/src/io/writing/smarts.rs b/src/io/writing/smarts.rs
index a96ee52..c38680e 100644
--- a/src/io/writing/smarts.rs
+++ b/src/io/writing/smarts.rs
@@ -68,6 +68,9 @@ impl Writer {
 
         writeln!(writer, "</data>")?;
 
+        // errors would be ignored when dropping the writer
+        writer.flush()?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 827327a9d285afe3206720df2e5d334a42028519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 05/14] fix: fmi-parser reports files ending before all
 declared nodes and edges are read

A truncated map-file has been parsed into a graph missing edges without any error.
---
 src/io/parsing/network/graph/fmi.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index b8e70f0..4abe6a7 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -120,6 +120,14 @@ impl super::Parsing for Parser {
             let proto_edge = ProtoShortcut::try_from_str(&line, &builder.cfg().edges.categories)?;
             builder.insert(proto_edge)?;
         }
+
+        // file may be truncated
+        if line_number < self.edge_lines.end {
+            return Err(err::Msg::from(format!(
+                "The fmi-map-file declares {} edges, but ends before all of them are provided.",
+                self.edge_lines.len()
+            )));
+        }
         info!("FINISHED");
 
         Ok(())
@@ -151,6 +159,14 @@ impl super::Parsing for Parser {
             let proto_node = ProtoNode::from_str(&line, &builder.cfg().nodes)?;
             builder.insert(proto_node);
         }
+
+        // file may be truncated
+        if line_number < self.node_lines.end {
+            return Err(err::Msg::from(format!(
+                "The fmi-map-file declares {} nodes, but ends before all of them are provided.",
+                self.node_lines.len()
+            )));
+        }
         info!("FINISHED");
 
         Ok(())
-- 
2.43.0


From 7bcaa4d2bf7bc769f439af6e5b6445659618fb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 06/14] fix: parser of route-pairs reports files ending before
 all declared route-pairs are read

---
 src/io/parsing/routing/routes.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io/parsing/routing/routes.rs b/src/io/parsing/routing/routes.rs
index 315d435..22b653d 100644
--- a/src/io/parsing/routing/routes.rs
+++ b/src/io/parsing/routing/routes.rs
@@ -136,6 +136,15 @@ impl super::Parsing for Parser {
             ));
         }
 
+        // file may be truncated
+        if route_pairs.len() < self.route_lines.len() {
+            return Err(format!(
+                "The routes-file declares {} route-pairs, but only {} are provided.",
+                self.route_lines.len(),
+                route_pairs.len()
+            ));
+        }
+
         Ok(route_pairs)
     }
 }
-- 
2.43.0


From 4311bb8e1ff9be538fbeb0cfbdcfce50e41650bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 07/14] fix: pbf-parser reports errors of reading and decoding
 instead of skipping the data

Errors have been filtered out, so a failing read or a corrupted blob led to a graph missing
all data of the blob and behind it.
---
 src/io/parsing/network/graph/pbf.rs | 30 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/io/parsing/network/graph/pbf.rs b/src/io/parsing/network/graph/pbf.rs
index bf2f5e5..dca47c0 100644
--- a/src/io/parsing/network/graph/pbf.rs
+++ b/src/io/parsing/network/graph/pbf.rs
@@ -78,14 +78,13 @@ impl super::Parsing for Parser {
                 builder.cfg().map_file.display()
             ));
 
-        for mut way in OsmPbfReader::new(file)
-            .par_iter()
-            .filter_map(Result::ok)
-            .filter_map(|obj| match obj {
-                OsmObj::Way(way) => Some(way),
-                _ => None,
-            })
-        {
+        for obj in OsmPbfReader::new(file).par_iter() {
+            let mut way = match obj {
+                Ok(OsmObj::Way(way)) => way,
+                Ok(_) => continue,
+                Err(e) => return Err(format!("Reading ways from pbf-file failed: {}", e).into()),
+            };
+
             if way.nodes.len() < 2 {
                 continue;
             }
@@ -179,14 +178,13 @@ impl super::Parsing for Parser {
             .read(true)
             .open(&cfg.map_file)
             .expect(&format!("Couldn't open {}", cfg.map_file.display()));
-        for node in OsmPbfReader::new(file)
-            .par_iter()
-            .filter_map(Result::ok)
-            .filter_map(|obj| match obj {
-                OsmObj::Node(node) => Some(node),
-                _ => None,
-            })
-        {
+        for obj in OsmPbfReader::new(file).par_iter() {
+            let node = match obj {
+                Ok(OsmObj::Node(node)) => node,
+                Ok(_) => continue,
+                Err(e) => return Err(format!("Reading nodes from pbf-file failed: {}", e).into()),
+            };
+
             // add node to graph if it's part of an edge
             builder.insert(ProtoNode {
                 id: node.id.0,
-- 
2.43.0


From 54ac5c9a79219cb0631407f4a525be7aebf16c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:15 +0000
Subject: [PATCH 08/14] fix: report an error if a worker stops before all
 route-pairs are worked off

A panicking worker (or providing 0 workers) led to workloads missing its routes, which have
been written as successful result.
---
 src/bin/osmgraphing/balancing/multithreading.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bin/osmgraphing/balancing/multithreading.rs b/src/bin/osmgraphing/balancing/multithreading.rs
index d6e42bd..37bc3ab 100644
--- a/src/bin/osmgraphing/balancing/multithreading.rs
+++ b/src/bin/osmgraphing/balancing/multithreading.rs
@@ -154,6 +154,18 @@ impl Master {
             }
         }
 
+        // Workers are joined above as soon as no work is left.
+        // -> Remaining workers have stopped unexpectedly, so their outcome is missing.
+        for worker_socket in self.worker_sockets.iter_mut().filter_map(Option::take) {
+            worker_socket.drop_and_join()?;
+        }
+        if route_pairs.len() > 0 {
+            return Err(err::Msg::from(format!(
+                "{} route-pairs are left, but there is no worker for working them off.",
+                route_pairs.len()
+            )));
+        }
+
         info!(
             "{}{:.1}{}{:.1}{}",
             "On average, ",
-- 
2.43.0


From beddb6fb14daaaf10d14828e11d7b687c1b76611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:15 +0000
Subject: [PATCH 09/14] fix: a route-pair of count 0 is not worked off instead
 of underflowing

---
 src/bin/osmgraphing/balancing/multithreading.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/osmgraphing/balancing/multithreading.rs b/src/bin/osmgraphing/balancing/multithreading.rs
index 37bc3ab..d329742 100644
--- a/src/bin/osmgraphing/balancing/multithreading.rs
+++ b/src/bin/osmgraphing/balancing/multithreading.rs
@@ -476,10 +476,9 @@ impl Worker {
             if let Some(best_path) = best_path {
                 num_of_found_paths.push(1);
 
-                for _ in 0..(route_count - 1) {
+                for _ in 0..route_count {
                     chosen_paths.push(best_path.clone());
                 }
-                chosen_paths.push(best_path);
             } else {
                 warn!("Didn't find any path when executing Dijkstra.")
             }
-- 
2.43.0


From 0c8879d671611471b562593d265ab80c714b5fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:30 +0000
Subject: [PATCH 10/14] fix: do not offer the same alternative route several
 times

Facets of the convex hull which face away from the origin lead to paths
that are already known. They were added again, so alternatives had
duplicates.
---
 src/routing/explorating.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/routing/explorating.rs b/src/routing/explorating.rs
index 06eb0a6..227b71d 100644
--- a/src/routing/explorating.rs
+++ b/src/routing/explorating.rs
@@ -308,8 +308,14 @@ impl ConvexHullExplorator {
                         // Add new path if it's cost-vector's projection onto the alpha-vector
                         // is smaller.
 
+                        // Facets, whose normal-vector points away from the origin, lead to paths
+                        // that have already been found with another facet.
                         let is_path_new = Approx(new_alpha_cost) < Approx(any_alpha_cost)
-                            && !new_found_paths.contains(&new_path);
+                            && !self
+                                .found_paths
+                                .values()
+                                .chain(new_found_paths.iter())
+                                .any(|path| Approx(path.costs()) == Approx(new_path.costs()));
                         if is_path_new {
                             trace!("Push {}", new_path);
                             new_found_paths.push(new_path);
-- 
2.43.0


From 0c1ac45e83ea0bbf352d607ceb84352dd47f5d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:08 +0000
Subject: [PATCH 11/14] fix: a balancing-run does not overwrite the results of
 a run started in the same second

---
 src/bin/osmgraphing/balancing/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/osmgraphing/balancing/mod.rs b/src/bin/osmgraphing/balancing/mod.rs
index 46c2173..361f4c9 100644
--- a/src/bin/osmgraphing/balancing/mod.rs
+++ b/src/bin/osmgraphing/balancing/mod.rs
@@ -107,11 +107,13 @@ mod simulation_pipeline {
         let raw_cfg = raw_cfg.as_ref();
 
         // set results-directory dependent of the current date in utc
+        fs::create_dir_all(&balancing_cfg.results_dir)?;
         balancing_cfg.results_dir = balancing_cfg.results_dir.join(format!(
             "utc_{}",
             chrono::Utc::now().format("%Y-%m-%d_%H-%M-%S")
         ));
-        fs::create_dir_all(&balancing_cfg.results_dir)?;
+        // fails if existing, because results of other runs should not be overwritten
+        fs::create_dir(&balancing_cfg.results_dir)?;
         info!("Storing results in {}", balancing_cfg.results_dir.display());
 
         fs::copy(
-- 
2.43.0


From a3c363eeedefdc6d181589ed46715e99738c68ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:36 +0000
Subject: [PATCH 12/14] sim: let simulated maps be built in several chunks (cfg
 osmgraphing_sim, off by default)

---
 src/defaults.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/defaults.rs b/src/defaults.rs
index 2987328..2a29dde 100644
--- a/src/defaults.rs
+++ b/src/defaults.rs
@@ -32,7 +32,11 @@ pub mod capacity {
     // Change this value before compiling, dependent of your number of stored metrics in the graph.
     pub const SMALL_VEC_INLINE_SIZE: usize = compiler::GRAPH_DIM;
     pub type DimVec<T> = smallvec::SmallVec<[T; SMALL_VEC_INLINE_SIZE]>;
+    #[cfg(not(osmgraphing_sim))]
     pub const MAX_BYTE_PER_CHUNK: usize = 200 * 1_000_000;
+    /// Simulated maps are small, but should be worked off in several chunks as well.
+    #[cfg(osmgraphing_sim)]
+    pub const MAX_BYTE_PER_CHUNK: usize = 1_600;
 }
 
 pub mod parsing {
-- 
2.43.0


From 88a4da4156737c5658e09176e89d0a45d77f49e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:22 +0000
Subject: [PATCH 13/14] fix: a truncated pair is not taken as the number of
 route-pairs

A file of route-pairs, whose first pair is cut after its first id, had this
id taken as another count. If the id was 0, the file was accepted and empty.
---
 src/io/parsing/routing/routes.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/parsing/routing/routes.rs b/src/io/parsing/routing/routes.rs
index 22b653d..84c8ed9 100644
--- a/src/io/parsing/routing/routes.rs
+++ b/src/io/parsing/routing/routes.rs
@@ -50,6 +50,9 @@ impl super::Parsing for Parser {
 
                 if let Ok(count) = params[0].parse::<usize>() {
                     counts.push(count);
+                    // a truncated route-line must not be taken as another count
+                    line_number += 1;
+                    break;
                 }
             } else if is_taking_counts {
                 break;
-- 
2.43.0


From 674f5fed72bad785bbebd7c22d9720b7d522b08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 14/14] fix: explore with ignored metrics even if rounding
 makes their alphas negative

The alphas of a cell result from a linear system, which demands zero for ignored metrics.
Rounding may lead to slightly negative values, for which Dijkstra does not look for a path,
so alternatives behind this cell are missed.
---
 src/routing/explorating.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/routing/explorating.rs b/src/routing/explorating.rs
index 227b71d..dd7df7f 100644
--- a/src/routing/explorating.rs
+++ b/src/routing/explorating.rs
@@ -270,7 +270,16 @@ impl ConvexHullExplorator {
 
                     // calculate alphas
                     query.routing_cfg.alphas =
-                        if let Some(x) = algebra::Matrix::from_rows(rows).lu().solve(&b) {
+                        if let Some(mut x) = algebra::Matrix::from_rows(rows).lu().solve(&b) {
+                            // Rounding could make alphas of ignored metrics slightly negative,
+                            // in which case Dijkstra wouldn't look for a path.
+                            for (alpha, is_considered) in
+                                x.iter_mut().zip(&query.is_metric_considered)
+                            {
+                                if !is_considered {
+                                    *alpha = 0.0;
+                                }
+                            }
                             x
                         } else {
                             continue;
-- 
2.43.0

