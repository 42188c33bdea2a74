From 14a9974eb44ece89a0245cc1d229ca029fe47b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 01/14] fix: do not panic in subsets_par_iter when all subsets
 are empty

The sanity check assumed that the absence of a max index implies that there
are no subsets. A family that consists of empty subsets only also has no max
index.
---
 fenris-paradis/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fenris-paradis/src/lib.rs b/fenris-paradis/src/lib.rs
index 959a1fe..48494b1 100644
--- a/fenris-paradis/src/lib.rs
+++ b/fenris-paradis/src/lib.rs
@@ -266,8 +266,8 @@ impl DisjointSubsets {
             self.max_index.is_none() || storage.len() > self.max_index.unwrap(),
             "Subsets contain indices out of bounds."
         );
-        // Sanity check: if we don't have a max index, then we also cannot have any subsets
-        debug_assert_eq!(self.max_index.is_none(), self.subsets.len() == 0);
+        // Sanity check: if we don't have a max index, then no subset can contain any index
+        debug_assert_eq!(self.max_index.is_none(), self.subsets.total_num_elements() == 0);
         let access = unsafe { storage.create_access() };
 
         DisjointSubsetsParIter {
-- 
2.43.0


From 7c60c388327ae4d1c112fca71c4c49faaa40968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 02/14] fix: allow splitting a DisjointSubsetsProducer at its
 end

rayon permits Producer::split_at with index <= len (used e.g. by take and skip),
but the producer panicked for index == len.
---
 fenris-paradis/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fenris-paradis/src/lib.rs b/fenris-paradis/src/lib.rs
index 48494b1..e994b05 100644
--- a/fenris-paradis/src/lib.rs
+++ b/fenris-paradis/src/lib.rs
@@ -356,7 +356,7 @@ impl<'a, Access: Send + Clone> Producer for DisjointSubsetsProducer<'a, Access>
 
     fn split_at(self, index: usize) -> (Self, Self) {
         let producer_len = self.range_len;
-        assert!(index < producer_len);
+        assert!(index <= producer_len);
         let global_subset_idx = self.range_start_idx + index;
 
         let producer_left = DisjointSubsetsProducer {
-- 
2.43.0


From fc6bf665702b9595b641314653eda709c4dbc589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 03/14] fix: keep no workspace borrow across element assembler
 callbacks

The parallel assemblers held a RefCell borrow of their thread-local workspace
while calling the element assembler. If the element assembler uses rayon, the
worker may steal another element of the same assembly while it waits, which
panicked with 'RefCell already borrowed' depending on the schedule.
---
 src/assembly/global.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/assembly/global.rs b/src/assembly/global.rs
index 3578a62..af38f4d 100644
--- a/src/assembly/global.rs
+++ b/src/assembly/global.rs
@@ -222,7 +222,9 @@ impl<T: Scalar + Send> CsrParAssembler<T> {
             let batch_start = batch_size * batch_index;
             let batch_end = min(num_elements, batch_start + batch_size);
             assert!(batch_end >= batch_start);
-            let mut node_buffer = node_buffer.get_or_default().borrow_mut();
+            // The element assembler might itself use rayon, see the remarks in `assemble_into_csr`
+            let node_buffer_cell = node_buffer.get_or_default();
+            let mut node_buffer = node_buffer_cell.take();
             for i in batch_start..batch_end {
                 let element_node_count = element_assembler.element_node_count(i);
                 node_buffer.resize(element_node_count, usize::MAX);
@@ -235,6 +237,7 @@ impl<T: Scalar + Send> CsrParAssembler<T> {
                     }
                 }
             }
+            node_buffer_cell.replace(node_buffer);
         });
 
         // TODO: Parallelize offset computation
@@ -325,7 +328,10 @@ impl<T: Real + Send> CsrParAssembler<T> {
             color
                 .subsets_par_iter(&mut block_adapter)
                 .map(|mut subset| {
-                    let ws = &mut *self.workspace.get_or_default().borrow_mut();
+                    // Move the workspace out of its cell while we're using it: the element assembler might itself
+                    // use rayon, in which case this thread may process another subset before it returns
+                    let workspace = self.workspace.get_or_default();
+                    let mut ws = workspace.take();
 
                     let element_index = subset.label();
                     let element_node_count = element_assembler.element_node_count(element_index);
@@ -367,6 +373,7 @@ impl<T: Real + Send> CsrParAssembler<T> {
                         }
                     }
 
+                    workspace.replace(ws);
                     Ok(())
                 })
                 .collect::<eyre::Result<()>>()?;
@@ -657,7 +664,10 @@ impl<T: Real> VectorParAssembler<T> {
             color
                 .subsets_par_iter(&mut block_adapter)
                 .map(|mut subset| {
-                    let ws = &mut *self.workspace.get_or_default().borrow_mut();
+                    // Move the workspace out of its cell while we're using it: the element assembler might itself
+                    // use rayon, in which case this thread may process another subset before it returns
+                    let workspace = self.workspace.get_or_default();
+                    let mut ws = workspace.take();
 
                     let element_index = subset.label();
                     let element_node_count = element_assembler.element_node_count(element_index);
@@ -676,6 +686,7 @@ impl<T: Real> VectorParAssembler<T> {
                         }
                     }
 
+                    workspace.replace(ws);
                     Ok(())
                 })
                 .collect::<eyre::Result<()>>()?;
-- 
2.43.0


From e2f0f2c5044b36469edfed2f40921c0d278dfcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 04/14] fix: FixedInterpolator construction panicked for two or
 more points in a space without elements

---
 src/space/fixed_interpolator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/space/fixed_interpolator.rs b/src/space/fixed_interpolator.rs
index faa7961..ae369a1 100644
--- a/src/space/fixed_interpolator.rs
+++ b/src/space/fixed_interpolator.rs
@@ -269,9 +269,9 @@ impl<T: Real> FixedInterpolator<T> {
             supported_node_offsets.push(point_node_support_begin);
 
             let Some((element_idx, xi)) = space.find_closest_element_and_reference_coords(point)
-            // break out of the loop if there are no elements in the space
+            // If there are no elements in the space, then the point has no supported nodes
             else {
-                break;
+                continue;
             };
 
             let element_node_count = space.element_node_count(element_idx);
@@ -351,9 +351,9 @@ impl<T: Real> FixedInterpolator<T> {
             supported_node_offsets.push(point_node_support_begin);
 
             let Some((element_idx, xi)) = closest_element_and_ref_coord
-            // break out of the loop if there are no elements in the space
+            // If there are no elements in the space, then the point has no supported nodes
             else {
-                break;
+                continue;
             };
 
             let element_node_count = space.element_node_count(element_idx);
-- 
2.43.0


From bb5ed494c879587fe89d311e90d73665a0e2813b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 05/14] fix: report invalid node references and dimensions in
 MSH files instead of panicking or returning an invalid mesh

---
 src/io/msh.rs | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/io/msh.rs b/src/io/msh.rs
index a3409ff..bc3322f 100644
--- a/src/io/msh.rs
+++ b/src/io/msh.rs
@@ -98,7 +98,7 @@ where
 
     // Collect all connectivity matching the target connectivity
     for element_block in &msh_elements.element_blocks {
-        let block_connectivity = connectivity_from_element_block(element_block)?;
+        let block_connectivity = connectivity_from_element_block(element_block, vertices.len())?;
         connectivity.extend(block_connectivity);
     }
 
@@ -154,7 +154,12 @@ where
 }
 
 /// Tries to convert a `mshio::ElementBlock` to a `Vec<Connectivity>`.
-fn connectivity_from_element_block<C, I>(element_block: &mshio::ElementBlock<u64, I>) -> eyre::Result<Vec<C>>
+///
+/// Returns an error if an element references a node outside of the range `1 ..= num_nodes`.
+fn connectivity_from_element_block<C, I>(
+    element_block: &mshio::ElementBlock<u64, I>,
+    num_nodes: usize,
+) -> eyre::Result<Vec<C>>
 where
     C: MshConnectivity,
     I: mshio::MshIntT,
@@ -179,6 +184,18 @@ where
             if element.nodes.len() < requested_nodes {
                 return Err(eyre!("not enough nodes to initialize connectivity"));
             }
+            if let Some(tag) = element
+                .nodes
+                .iter()
+                .find(|&&tag| tag == 0 || tag > num_nodes as u64)
+            {
+                return Err(eyre!(
+                    "element {} references node {}, but the msh file contains only the nodes 1 to {}",
+                    element.element_tag,
+                    tag,
+                    num_nodes
+                ));
+            }
             connectivity.push(C::try_connectivity_from_msh_element(element)?);
         }
 
@@ -192,12 +209,9 @@ where
     C: MshConnectivity,
     I: mshio::MshIntT,
 {
+    // Note: The dimension of a malformed block may be negative, in which case it does not match
     element_block.element_type == C::msh_element_type()
-        && element_block
-            .entity_dim
-            .to_usize()
-            .expect("failed to convert element block dimension to usize")
-            == C::reference_dim()
+        && element_block.entity_dim.to_usize() == Some(C::reference_dim())
 }
 
 macro_rules! f_to_t {
@@ -257,14 +271,14 @@ macro_rules! impl_msh_connectivity {
             }
 
             fn try_connectivity_from_msh_element(element: &mshio::Element<u64>) -> eyre::Result<Self> {
-                assert_eq!(
-                    element.nodes.len(),
-                    $num_nodes,
-                    "number of msh element nodes have to match with connectivity"
-                );
+                if element.nodes.len() != $num_nodes {
+                    return Err(eyre!("number of msh element nodes have to match with connectivity"));
+                }
                 let mut nodes = [0; $num_nodes];
                 for i in 0..$num_nodes {
-                    nodes[i] = element.nodes[i] as usize - 1;
+                    nodes[i] = (element.nodes[i] as usize)
+                        .checked_sub(1)
+                        .ok_or_else(|| eyre!("msh element references node 0, which is not a valid node"))?;
                 }
                 Ok(Self(nodes))
             }
-- 
2.43.0


From 5d184ccd408241513d3a1438f1a02820eba5eca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 06/14] fix: reject MSH files whose node tags do not start at 1
 instead of loading wrong connectivity

---
 src/io/msh.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/io/msh.rs b/src/io/msh.rs
index bc3322f..07fd47f 100644
--- a/src/io/msh.rs
+++ b/src/io/msh.rs
@@ -96,6 +96,14 @@ where
         ));
     }
 
+    // Node tags are only usable as (one-based) vertex indices if they start at 1
+    if msh_nodes.min_node_tag != 1 {
+        return Err(eyre!(
+            "node tags start at {} in msh file (only tags starting at 1 are supported)",
+            msh_nodes.min_node_tag
+        ));
+    }
+
     // Collect all connectivity matching the target connectivity
     for element_block in &msh_elements.element_blocks {
         let block_connectivity = connectivity_from_element_block(element_block, vertices.len())?;
-- 
2.43.0


From 44a0ef3b4c01bbadda5de1b1a544c63209b122da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 07/14] fix: dump_matrix_to_file panicked for a matrix with
 rows but no columns

---
 src/util.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 4ea831d..22d3900 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -333,9 +333,11 @@ pub fn dump_matrix_to_file<'a, T: Scalar + Display>(
 
     let matrix = matrix.into();
     for i in 0..matrix.nrows() {
-        write!(writer, "{}", matrix[(i, 0)])?;
-        for j in 1..matrix.ncols() {
-            write!(writer, " {}", matrix[(i, j)])?;
+        for j in 0..matrix.ncols() {
+            if j > 0 {
+                write!(writer, " ")?;
+            }
+            write!(writer, "{}", matrix[(i, j)])?;
         }
         writeln!(writer)?;
     }
-- 
2.43.0


From 90f0183bb3644be91ebf8bebf515339c143465d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:56 +0000
Subject: [PATCH 08/14] fix: try_export reported success for a truncated file
 when the end could not be written

---
 src/io/vtk.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/io/vtk.rs b/src/io/vtk.rs
index 9fd4b2e..2129eb6 100644
--- a/src/io/vtk.rs
+++ b/src/io/vtk.rs
@@ -19,7 +19,7 @@ use crate::vtkio::model::{Attributes, ByteOrder, DataArray, Piece, Version, Vtk}
 // TODO: We've currently disabled all vtkio impls, might have to re-enable/re-implement some of them in the future
 //pub use fenris_geometry::vtkio::*;
 use num::{ToPrimitive, Zero};
-use std::fs::create_dir_all;
+use std::fs::{create_dir_all, write};
 use std::path::Path;
 
 /// Represents connectivity that is supported by VTK.
@@ -551,15 +551,24 @@ where
             Some("vtk") | _ => Version { major: 4, minor: 1 },
         };
 
-        Vtk {
+        let vtk = Vtk {
             version,
             // If we don't have a title then just make the filepath the title
             title: self.title.clone().unwrap_or(fallback_title),
             byte_order: ByteOrder::BigEndian,
             data: dataset,
             file_path: None,
+        };
+
+        // vtkio's `export` drops its buffered writer without flushing it, so that an error while writing
+        // the rest of the file (such as a full disk) goes unnoticed. Therefore we write the file ourselves.
+        let mut bytes = Vec::new();
+        match filepath.extension().and_then(|ext| ext.to_str()) {
+            Some("vtk") => vtk.write_legacy(&mut bytes)?,
+            Some("vtu") => vtk.write_xml(&mut bytes)?,
+            _ => return Ok(vtk.export(filepath)?),
         }
-        .export(filepath)?;
+        write(filepath, bytes)?;
         Ok(())
     }
 }
-- 
2.43.0


From 71e2c2c19ddc99148b1c803c52fe55ddc5fd66d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:52 +0000
Subject: [PATCH 09/14] fix: reset the stopping criterion at the start of each
 CG solve

---
 fenris-sparse/src/cg.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fenris-sparse/src/cg.rs b/fenris-sparse/src/cg.rs
index 8ab9fb2..0bdfc04 100644
--- a/fenris-sparse/src/cg.rs
+++ b/fenris-sparse/src/cg.rs
@@ -379,6 +379,9 @@ where
             marker: PhantomData,
         };
 
+        self.stopping_criterion
+            .reset(&self.operator, (&x).into(), (&b).into());
+
         let Buffers { r, z, p, Ap } = self.workspace.prepare_buffers(x.len());
 
         // r = b - Ax
-- 
2.43.0


From 463f419d36c3297943b3f23deab33e23e64319a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:52 +0000
Subject: [PATCH 10/14] fix: do not report Newton convergence when the residual
 is NaN

---
 fenris-optimize/src/newton.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fenris-optimize/src/newton.rs b/fenris-optimize/src/newton.rs
index 00da70b..1466cb9 100644
--- a/fenris-optimize/src/newton.rs
+++ b/fenris-optimize/src/newton.rs
@@ -97,7 +97,8 @@ where
 
     let mut iter = 0;
 
-    while f.norm() > settings.tolerance {
+    // A residual which is not a number has not converged, so do not use `f.norm() > tolerance` here
+    while !(f.norm() <= settings.tolerance) {
         if settings
             .max_iterations
             .map(|max_iter| iter == max_iter)
-- 
2.43.0


From 225f51b2ef73684521b671f7a5266faa4d0425a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 11/14] fix: NestedVec::push keeps offsets consistent if
 cloning an element panics

---
 fenris-nested-vec/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fenris-nested-vec/src/lib.rs b/fenris-nested-vec/src/lib.rs
index 50bf7f9..e7dc073 100644
--- a/fenris-nested-vec/src/lib.rs
+++ b/fenris-nested-vec/src/lib.rs
@@ -143,9 +143,10 @@ impl<'a, T> Drop for ArrayAppender<'a, T> {
 
 impl<T: Clone> NestedVec<T> {
     pub fn push(&mut self, array: &[T]) {
-        self.offsets_begin.push(self.data.len());
-        self.data.extend_from_slice(array);
-        self.offsets_end.push(self.data.len());
+        // The appender records the offsets also if cloning an element panics, so that
+        // the offsets never become inconsistent
+        let appender = self.begin_array();
+        appender.data.extend_from_slice(array);
     }
 }
 
-- 
2.43.0


From 19173f99851021c6c0d470254423156108886d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 12/14] fix: reject inconsistent offsets when deserializing
 NestedVec

---
 fenris-nested-vec/src/lib.rs | 42 +++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/fenris-nested-vec/src/lib.rs b/fenris-nested-vec/src/lib.rs
index e7dc073..a36b5cd 100644
--- a/fenris-nested-vec/src/lib.rs
+++ b/fenris-nested-vec/src/lib.rs
@@ -3,14 +3,54 @@ use std::fmt;
 use std::fmt::Debug;
 use std::ops::Range;
 
-// TODO: Manually implement Deserialize to avoid soundness hole
 #[derive(Clone, PartialEq, Eq, Serialize, Deserialize)]
+#[serde(try_from = "UncheckedNestedVec<T>")]
 pub struct NestedVec<T> {
     data: Vec<T>,
     offsets_begin: Vec<usize>,
     offsets_end: Vec<usize>,
 }
 
+/// The serialized form of [`NestedVec`], before its offsets have been checked.
+#[derive(Deserialize)]
+#[serde(rename = "NestedVec")]
+struct UncheckedNestedVec<T> {
+    data: Vec<T>,
+    offsets_begin: Vec<usize>,
+    offsets_end: Vec<usize>,
+}
+
+impl<T> TryFrom<UncheckedNestedVec<T>> for NestedVec<T> {
+    type Error = &'static str;
+
+    fn try_from(unchecked: UncheckedNestedVec<T>) -> Result<Self, Self::Error> {
+        let UncheckedNestedVec {
+            data,
+            offsets_begin,
+            offsets_end,
+        } = unchecked;
+
+        if offsets_begin.len() != offsets_end.len() {
+            return Err("the number of begin and end offsets must be equal");
+        }
+
+        // Arrays are stored in order and do not overlap
+        let mut prev_end = 0;
+        for (&begin, &end) in offsets_begin.iter().zip(&offsets_end) {
+            if begin < prev_end || end < begin || end > data.len() {
+                return Err("offsets must be ordered and within the bounds of the data");
+            }
+            prev_end = end;
+        }
+
+        Ok(Self {
+            data,
+            offsets_begin,
+            offsets_end,
+        })
+    }
+}
+
 impl<T: Debug> Debug for NestedVec<T> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         f.debug_list().entries(self.iter()).finish()
-- 
2.43.0


From ca866773899a623aa335d4fa242ea3215ed51834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 13/14] fix: check the invariants of DisjointSubsets when
 deserializing it

---
 fenris-paradis/src/lib.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/fenris-paradis/src/lib.rs b/fenris-paradis/src/lib.rs
index e994b05..10f0078 100644
--- a/fenris-paradis/src/lib.rs
+++ b/fenris-paradis/src/lib.rs
@@ -168,6 +168,7 @@ pub unsafe trait ParallelIndexedCollection<'a> {
 /// empty.
 ///
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
+#[serde(try_from = "UncheckedDisjointSubsets")]
 pub struct DisjointSubsets {
     // Store the max global index present in any of the subsets. We need this to
     // ensure that none of the indices are out of bounds when accessing a storage.
@@ -183,6 +184,32 @@ pub struct DisjointSubsets {
 #[derive(Copy, Clone, Debug, PartialEq, Eq)]
 pub struct SubsetsNotDisjointError;
 
+/// The serialized form of [`DisjointSubsets`], before its invariants have been checked.
+#[derive(Deserialize)]
+#[serde(rename = "DisjointSubsets")]
+struct UncheckedDisjointSubsets {
+    max_index: Option<usize>,
+    subsets: NestedVec<usize>,
+    labels: Vec<usize>,
+}
+
+impl TryFrom<UncheckedDisjointSubsets> for DisjointSubsets {
+    type Error = &'static str;
+
+    fn try_from(unchecked: UncheckedDisjointSubsets) -> Result<Self, Self::Error> {
+        // Parallel access to the subsets relies on these invariants for soundness
+        if unchecked.subsets.len() != unchecked.labels.len() {
+            return Err("must have exactly one label per subset");
+        }
+        let disjoint_subsets = Self::try_from_disjoint_subsets(unchecked.subsets, unchecked.labels)
+            .map_err(|_| "subsets must be disjoint")?;
+        if disjoint_subsets.max_index != unchecked.max_index {
+            return Err("max index must be the largest index present in any of the subsets");
+        }
+        Ok(disjoint_subsets)
+    }
+}
+
 impl DisjointSubsets {
     pub fn try_from_disjoint_subsets<Subsets: Into<NestedVec<usize>>>(
         subsets: Subsets,
-- 
2.43.0


From 9f8529b1d5a683081579fe196e1ff377fe9ff0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:14 +0000
Subject: [PATCH 14/14] fix: CsrMatrix as linear operator must not read the
 previous contents of its output

---
 fenris-sparse/src/cg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fenris-sparse/src/cg.rs b/fenris-sparse/src/cg.rs
index 0bdfc04..aed837f 100644
--- a/fenris-sparse/src/cg.rs
+++ b/fenris-sparse/src/cg.rs
@@ -45,6 +45,8 @@ where
     T: Scalar + Zero + One + ClosedMul + ClosedAdd,
 {
     fn apply(&self, mut y: DVectorViewMut<T>, x: DVectorView<T>) -> Result<(), Box<dyn Error>> {
+        // spmm multiplies the previous contents of y by zero, which leaves NaN if they are not finite
+        y.fill(T::zero());
         spmm_csr_dense(T::zero(), &mut y, T::one(), Op::NoOp(self), Op::NoOp(&x));
         Ok(())
     }
-- 
2.43.0

