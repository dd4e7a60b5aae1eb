From ee8f439273b5869218b384beac30e85d59a8ab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 01/69] fix: check external data containment for a model named
 by a bare file name

A path without a directory part has an empty parent. Canonicalizing it fails,
so the check that a symbolic link does not lead out of the model directory was
skipped.
---
 crates/onnx-ir/src/external_data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/onnx-ir/src/external_data.rs b/crates/onnx-ir/src/external_data.rs
index 8921b7f..4847478 100644
--- a/crates/onnx-ir/src/external_data.rs
+++ b/crates/onnx-ir/src/external_data.rs
@@ -152,6 +152,13 @@ impl ExternalDataInfo {
             }
         }
 
+        // A model named by a bare file name has an empty parent path: its directory is
+        // the current one. An empty path cannot be canonicalized for the check below.
+        let base_path = if base_path.as_os_str().is_empty() {
+            Path::new(".")
+        } else {
+            base_path
+        };
         let resolved = base_path.join(&self.location);
 
         // Extra safety: canonicalize and verify the resolved path is under base_path
-- 
2.43.0


From a4f9910619f5416b1e0f600e3bbeeb576d651bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 02/69] fix: validate the external data range before reading it

offset + length could wrap around, and an absurd length made the buffer
allocation abort the process instead of reporting the bad range.
---
 crates/onnx-ir/src/tensor_store.rs | 36 +++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/crates/onnx-ir/src/tensor_store.rs b/crates/onnx-ir/src/tensor_store.rs
index 61d13c4..8bb7612 100644
--- a/crates/onnx-ir/src/tensor_store.rs
+++ b/crates/onnx-ir/src/tensor_store.rs
@@ -145,22 +145,24 @@ impl TensorDataRef {
         // SAFETY: We're mapping a read-only file
         let mmap = unsafe { memmap2::Mmap::map(&file)? };
 
-        let start = offset as usize;
-        let end = start + length as usize;
+        let range = usize::try_from(offset)
+            .ok()
+            .zip(usize::try_from(length).ok())
+            .and_then(|(start, length)| Some(start..start.checked_add(length)?));
 
-        if end > mmap.len() {
+        let Some(data) = range.and_then(|range| mmap.get(range)) else {
             return Err(std::io::Error::new(
                 std::io::ErrorKind::UnexpectedEof,
                 format!(
-                    "External data range {}..{} exceeds file size {}",
-                    start,
-                    end,
+                    "External data range (offset {}, length {}) exceeds file size {}",
+                    offset,
+                    length,
                     mmap.len()
                 ),
             ));
-        }
+        };
 
-        Ok(mmap[start..end].to_vec())
+        Ok(data.to_vec())
     }
 
     /// Load external data using standard file I/O
@@ -173,6 +175,24 @@ impl TensorDataRef {
             )
         });
 
+        // Check the range before allocating: the length comes from the model
+        let file_len = file.metadata().map(|m| m.len()).unwrap_or_else(|e| {
+            panic!(
+                "Failed to get the size of external data file '{}': {}",
+                file_path.display(),
+                e
+            )
+        });
+        if offset.checked_add(length).is_none_or(|end| end > file_len) {
+            panic!(
+                "External data range (offset {}, length {}) exceeds the {} bytes of '{}'",
+                offset,
+                length,
+                file_len,
+                file_path.display()
+            );
+        }
+
         file.seek(SeekFrom::Start(offset)).unwrap_or_else(|e| {
             panic!(
                 "Failed to seek to offset {} in '{}': {}",
-- 
2.43.0


From ccff568b05528c44573c190ab8d7ccdd0ecbafed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:30 +0000
Subject: [PATCH 03/69] fix: refuse tensors whose payload does not match their
 shape

The bytes of an initializer or constant were never compared with its
dimensions and element type, so short or long data was imported as a malformed
tensor. Raw, typed and external payloads are now checked on import.
---
 crates/onnx-ir/src/proto_conversion.rs | 52 ++++++++++++++++++++------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/crates/onnx-ir/src/proto_conversion.rs b/crates/onnx-ir/src/proto_conversion.rs
index e77bfa2..0967446 100644
--- a/crates/onnx-ir/src/proto_conversion.rs
+++ b/crates/onnx-ir/src/proto_conversion.rs
@@ -366,7 +366,15 @@ pub fn tensor_data_ref_from_proto(
             | DType::U32
             | DType::U16
             | DType::U8
-            | DType::Bool => Ok(TensorDataRef::new(tensor.raw_data, shape, elem)),
+            | DType::Bool => {
+                check_payload_size(
+                    &tensor.name,
+                    &tensor.dims,
+                    elem,
+                    tensor.raw_data.len() as u64,
+                )?;
+                Ok(TensorDataRef::new(tensor.raw_data, shape, elem))
+            }
             _ => Err(ParseError::VariantNotFound(format!(
                 "Unsupported dtype {:?}",
                 elem
@@ -427,10 +435,38 @@ pub fn tensor_data_ref_from_proto(
                 )));
             }
         };
+        check_payload_size(&tensor.name, &tensor.dims, elem, raw_bytes.len() as u64)?;
         Ok(TensorDataRef::new(raw_bytes, shape, elem))
     }
 }
 
+/// Number of bytes a tensor with these dimensions and element type occupies
+fn expected_payload_size(name: &str, dims: &[i64], dtype: DType) -> Result<u64, ParseError> {
+    dims.iter()
+        .try_fold(dtype.size() as u64, |size, &dim| {
+            size.checked_mul(u64::try_from(dim).ok()?)
+        })
+        .ok_or_else(|| {
+            ParseError::VariantNotFound(format!("Tensor '{name}' has invalid dimensions {dims:?}"))
+        })
+}
+
+/// Check that the payload of a tensor is exactly as large as its dimensions and element type
+fn check_payload_size(
+    name: &str,
+    dims: &[i64],
+    dtype: DType,
+    actual: u64,
+) -> Result<(), ParseError> {
+    let expected = expected_payload_size(name, dims, dtype)?;
+    if actual != expected {
+        return Err(ParseError::VariantNotFound(format!(
+            "Tensor '{name}' of type {dtype:?} with dimensions {dims:?} needs {expected} bytes but has {actual}"
+        )));
+    }
+    Ok(())
+}
+
 /// Create a TensorDataRef for externally stored tensor data
 ///
 /// Parses the external_data field and creates a lazy reference that will
@@ -467,16 +503,10 @@ fn create_external_data_ref(
         .resolve_path(base)
         .map_err(ParseError::VariantNotFound)?;
 
-    // Calculate the length if not specified
-    // When length is not provided, we need to calculate it from shape and dtype
-    let length = external_info.length.unwrap_or_else(|| {
-        let num_elements: usize = if shape.is_empty() {
-            1 // scalar
-        } else {
-            shape.iter().product()
-        };
-        (num_elements * dtype.size()) as u64
-    });
+    // When the length is not specified, it follows from shape and dtype
+    let expected = expected_payload_size(&tensor.name, &tensor.dims, dtype)?;
+    let length = external_info.length.unwrap_or(expected);
+    check_payload_size(&tensor.name, &tensor.dims, dtype, length)?;
 
     log::debug!(
         "Creating external data ref for '{}': file={}, offset={}, length={}",
-- 
2.43.0


From bf111c40822d3721f1639d0ec48d90db7ef22da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:40 +0000
Subject: [PATCH 04/69] fix: infer broadcast shapes soundly when an input's
 shape is unknown

---
 crates/onnx-ir/src/processor.rs | 64 ++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 34 deletions(-)

diff --git a/crates/onnx-ir/src/processor.rs b/crates/onnx-ir/src/processor.rs
index d72d4f5..855731a 100644
--- a/crates/onnx-ir/src/processor.rs
+++ b/crates/onnx-ir/src/processor.rs
@@ -566,47 +566,41 @@ pub fn compute_broadcast_rank(inputs: &[crate::ir::Argument]) -> usize {
 pub fn compute_broadcast_static_shape(
     inputs: &[crate::ir::Argument],
 ) -> Option<Vec<Option<usize>>> {
-    let static_shapes: Vec<_> = inputs
-        .iter()
-        .filter_map(|input| input.ty.static_shape().cloned())
-        .collect();
-
-    if static_shapes.is_empty() {
-        return None;
-    }
+    use crate::ir::ArgType;
 
-    if static_shapes.len() == 1 {
-        let broadcast_rank = compute_broadcast_rank(inputs);
-        if broadcast_rank == static_shapes[0].len() {
-            return Some(static_shapes[0].clone());
-        }
+    let max_rank = compute_broadcast_rank(inputs);
+    if !inputs
+        .iter()
+        .any(|input| matches!(input.ty.static_shape(), Some(shape) if shape.len() == max_rank))
+    {
         return None;
     }
 
-    if static_shapes.windows(2).all(|w| w[0] == w[1]) {
-        return Some(static_shapes[0].clone());
-    }
+    // Dimensions of every input that has any; unknown ones may still be broadcast
+    let shapes: Vec<Vec<Option<usize>>> = inputs
+        .iter()
+        .filter_map(|input| match &input.ty {
+            ArgType::Tensor(tensor) => match &tensor.static_shape {
+                Some(shape) if shape.len() == tensor.rank => Some(shape.clone()),
+                _ => Some(vec![None; tensor.rank]),
+            },
+            ArgType::Shape(len) => Some(vec![Some(*len)]),
+            ArgType::ScalarTensor(_) | ArgType::ScalarNative(_) => None,
+        })
+        .collect();
 
-    let max_rank = static_shapes.iter().map(|s| s.len()).max()?;
     let mut result: Vec<Option<usize>> = vec![Some(1); max_rank];
 
-    for shape in &static_shapes {
+    for shape in &shapes {
         let offset = max_rank - shape.len();
-        for (i, dim) in shape.iter().enumerate() {
-            let result_idx = offset + i;
-            match (result[result_idx], *dim) {
-                (_, None) | (None, _) => {
-                    // If either dim is symbolic, result is symbolic
-                    result[result_idx] = None;
-                }
-                (Some(cur), Some(d)) => {
-                    if cur == 1 {
-                        result[result_idx] = Some(d);
-                    } else if d != 1 && d != cur {
-                        // Incompatible broadcast
-                        return None;
-                    }
-                }
+        for (dim, out) in shape.iter().zip(&mut result[offset..]) {
+            match (*out, *dim) {
+                // Not broadcast: the other inputs have this size or are 1 here
+                (Some(cur), Some(d)) if cur != 1 && d != 1 && d != cur => return None,
+                (Some(cur), _) if cur != 1 => {}
+                (_, Some(d)) if d != 1 => *out = Some(d),
+                (_, None) => *out = None,
+                _ => {}
             }
         }
     }
@@ -642,10 +636,12 @@ pub fn broadcast_output_type(
     if has_shape && !has_real_tensor {
         let shape_rank = inputs
             .iter()
-            .find_map(|input| match &input.ty {
+            .filter_map(|input| match &input.ty {
                 ArgType::Shape(rank) => Some(*rank),
                 _ => None,
             })
+            // A shape of length 1 is broadcast to the length of the other
+            .reduce(|a, b| if a == 1 { b } else { a })
             .expect("Shape input must exist");
 
         return ArgType::Shape(shape_rank);
-- 
2.43.0


From 3fa50762ae5489d2b24e5dc4c256a16daa9ff70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:08 +0000
Subject: [PATCH 05/69] fix: do not state the input's dimensions for operators
 that change them

---
 crates/onnx-ir/src/node/conv_transpose1d.rs |  2 +-
 crates/onnx-ir/src/node/conv_transpose2d.rs |  2 +-
 crates/onnx-ir/src/node/conv_transpose3d.rs |  2 +-
 crates/onnx-ir/src/node/global_avg_pool.rs  |  7 ++++++-
 crates/onnx-ir/src/node/max_pool1d.rs       |  2 +-
 crates/onnx-ir/src/node/max_pool2d.rs       |  2 +-
 crates/onnx-ir/src/node/pad.rs              |  4 ++--
 crates/onnx-ir/src/node/resize.rs           |  2 +-
 crates/onnx-ir/src/node/slice.rs            |  5 ++---
 crates/onnx-ir/src/node/tile.rs             |  2 +-
 crates/onnx-ir/src/processor.rs             | 10 ++++++++++
 11 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/crates/onnx-ir/src/node/conv_transpose1d.rs b/crates/onnx-ir/src/node/conv_transpose1d.rs
index ecd0a9f..75b4e5d 100644
--- a/crates/onnx-ir/src/node/conv_transpose1d.rs
+++ b/crates/onnx-ir/src/node/conv_transpose1d.rs
@@ -103,7 +103,7 @@ impl NodeProcessor for Convtranspose1dProcessor {
         }
 
         // Output type inference
-        crate::processor::same_as_input(node);
+        crate::processor::same_rank_as_input(node);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/conv_transpose2d.rs b/crates/onnx-ir/src/node/conv_transpose2d.rs
index 3ea3108..8d3aefc 100644
--- a/crates/onnx-ir/src/node/conv_transpose2d.rs
+++ b/crates/onnx-ir/src/node/conv_transpose2d.rs
@@ -104,7 +104,7 @@ impl NodeProcessor for Convtranspose2dProcessor {
         }
 
         // Output type inference
-        crate::processor::same_as_input(node);
+        crate::processor::same_rank_as_input(node);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/conv_transpose3d.rs b/crates/onnx-ir/src/node/conv_transpose3d.rs
index b76d44b..d35c27f 100644
--- a/crates/onnx-ir/src/node/conv_transpose3d.rs
+++ b/crates/onnx-ir/src/node/conv_transpose3d.rs
@@ -77,7 +77,7 @@ impl NodeProcessor for Convtranspose3dProcessor {
         _output_preferences: &OutputPreferences,
     ) -> Result<(), ProcessError> {
         // Output type inference
-        crate::processor::same_as_input(node);
+        crate::processor::same_rank_as_input(node);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/global_avg_pool.rs b/crates/onnx-ir/src/node/global_avg_pool.rs
index 6bc0c83..914e175 100644
--- a/crates/onnx-ir/src/node/global_avg_pool.rs
+++ b/crates/onnx-ir/src/node/global_avg_pool.rs
@@ -53,7 +53,12 @@ impl NodeProcessor for GlobalAveragePoolProcessor {
         };
 
         // Output has the same type and rank as input (spatial dimensions become 1)
-        node.outputs[0].ty = ArgType::Tensor(input_tensor.clone());
+        let mut output_tensor = input_tensor.clone();
+        // Every spatial dimension is reduced to 1
+        if let Some(shape) = &mut output_tensor.static_shape {
+            shape.iter_mut().skip(2).for_each(|dim| *dim = Some(1));
+        }
+        node.outputs[0].ty = ArgType::Tensor(output_tensor);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/max_pool1d.rs b/crates/onnx-ir/src/node/max_pool1d.rs
index e06f39a..dd6487d 100644
--- a/crates/onnx-ir/src/node/max_pool1d.rs
+++ b/crates/onnx-ir/src/node/max_pool1d.rs
@@ -149,7 +149,7 @@ impl NodeProcessor for MaxPool1dProcessor {
         }
 
         // Output type is same as input
-        crate::processor::same_as_input(node);
+        crate::processor::same_rank_as_input(node);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/max_pool2d.rs b/crates/onnx-ir/src/node/max_pool2d.rs
index 0be4776..0d3f738 100644
--- a/crates/onnx-ir/src/node/max_pool2d.rs
+++ b/crates/onnx-ir/src/node/max_pool2d.rs
@@ -145,7 +145,7 @@ impl NodeProcessor for MaxPool2dProcessor {
         }
 
         // Output type is same as input
-        crate::processor::same_as_input(node);
+        crate::processor::same_rank_as_input(node);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/pad.rs b/crates/onnx-ir/src/node/pad.rs
index 6efa21d..fefc7c5 100644
--- a/crates/onnx-ir/src/node/pad.rs
+++ b/crates/onnx-ir/src/node/pad.rs
@@ -178,8 +178,8 @@ impl NodeProcessor for PadProcessor {
         // Location: After output count validation
 
         // Output has same type as input
-        if let Some(input) = node.inputs.first() {
-            node.outputs[0].ty = input.ty.clone();
+        if !node.inputs.is_empty() {
+            crate::processor::same_rank_as_input(node);
         }
 
         Ok(())
diff --git a/crates/onnx-ir/src/node/resize.rs b/crates/onnx-ir/src/node/resize.rs
index 1679e0e..12b6307 100644
--- a/crates/onnx-ir/src/node/resize.rs
+++ b/crates/onnx-ir/src/node/resize.rs
@@ -415,7 +415,7 @@ impl NodeProcessor for ResizeProcessor {
         }
 
         // Infer output type
-        crate::processor::same_as_input(node);
+        crate::processor::same_rank_as_input(node);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/node/slice.rs b/crates/onnx-ir/src/node/slice.rs
index 85d8cce..d8521c9 100644
--- a/crates/onnx-ir/src/node/slice.rs
+++ b/crates/onnx-ir/src/node/slice.rs
@@ -174,9 +174,8 @@ impl NodeProcessor for SliceProcessor {
 
         match input_ty {
             ArgType::Tensor(_) => {
-                // Slicing a tensor preserves its type and rank during rank inference.
-                // Shape inference pass will handle the actual shape changes.
-                node.outputs[0].ty = input_ty;
+                // Slicing a tensor preserves its element type and rank, not its dimensions.
+                crate::processor::same_rank_as_input(node);
             }
             ArgType::Shape(shape_rank) => {
                 // Slicing a Shape extracts a sub-part, resulting in a Shape.
diff --git a/crates/onnx-ir/src/node/tile.rs b/crates/onnx-ir/src/node/tile.rs
index a024c91..299aa79 100644
--- a/crates/onnx-ir/src/node/tile.rs
+++ b/crates/onnx-ir/src/node/tile.rs
@@ -99,7 +99,7 @@ impl NodeProcessor for TileProcessor {
         // Negative repeats don't make semantic sense and should be rejected.
 
         // Infer output type - same as input
-        crate::processor::same_as_input(node);
+        crate::processor::same_rank_as_input(node);
 
         Ok(())
     }
diff --git a/crates/onnx-ir/src/processor.rs b/crates/onnx-ir/src/processor.rs
index 855731a..22e2fe7 100644
--- a/crates/onnx-ir/src/processor.rs
+++ b/crates/onnx-ir/src/processor.rs
@@ -549,6 +549,16 @@ pub fn same_as_input(node: &mut RawNode) {
     node.outputs[0].ty = node.inputs[0].ty.clone();
 }
 
+/// Copy input type to output without its dimensions (for operations that preserve
+/// element type and rank but change sizes)
+pub fn same_rank_as_input(node: &mut RawNode) {
+    let mut ty = node.inputs[0].ty.clone();
+    if let crate::ir::ArgType::Tensor(tensor) = &mut ty {
+        tensor.static_shape = None;
+    }
+    node.outputs[0].ty = ty;
+}
+
 /// Compute broadcast output rank from multiple inputs
 pub fn compute_broadcast_rank(inputs: &[crate::ir::Argument]) -> usize {
     use crate::ir::ArgType;
-- 
2.43.0


From 1001b7b25907cb4c1b8e38da0ad18baf4f6d6001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:12 +0000
Subject: [PATCH 06/69] fix: infer convolution output sizes under automatic
 padding

---
 crates/onnx-ir/src/node/conv1d.rs |  8 +++++++-
 crates/onnx-ir/src/node/conv2d.rs | 13 +++++++++++--
 crates/onnx-ir/src/node/conv3d.rs | 14 ++++++++++++--
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/crates/onnx-ir/src/node/conv1d.rs b/crates/onnx-ir/src/node/conv1d.rs
index 92faaaf..377f8bf 100644
--- a/crates/onnx-ir/src/node/conv1d.rs
+++ b/crates/onnx-ir/src/node/conv1d.rs
@@ -199,10 +199,16 @@ impl NodeProcessor for Conv1dProcessor {
                     .as_ref()
                     .and_then(|s| s.get(2).copied().flatten())?;
                 let (pad_left, pad_right) = config.padding.as_tuple();
-                let padding = pad_left + pad_right;
                 let dilation = config.dilation;
                 let kernel = config.kernel_size;
                 let stride = config.stride;
+                let padding = match config.auto_pad {
+                    AutoPad::SameUpper | AutoPad::SameLower => {
+                        return (stride > 0).then(|| l_in.div_ceil(stride));
+                    }
+                    AutoPad::Valid => 0,
+                    AutoPad::NotSet => pad_left + pad_right,
+                };
                 // L_out = floor((L_in + padding - dilation * (kernel - 1) - 1) / stride + 1)
                 let numerator = l_in as isize + padding as isize
                     - dilation as isize * (kernel as isize - 1)
diff --git a/crates/onnx-ir/src/node/conv2d.rs b/crates/onnx-ir/src/node/conv2d.rs
index e946e6f..9e45bff 100644
--- a/crates/onnx-ir/src/node/conv2d.rs
+++ b/crates/onnx-ir/src/node/conv2d.rs
@@ -198,13 +198,20 @@ impl NodeProcessor for Conv2dProcessor {
                                    stride: usize,
                                    dilation: usize,
                                    pad_begin: usize,
-                                   pad_end: usize|
+                                   pad_end: usize,
+                                   auto_pad: &AutoPad|
              -> Option<usize> {
                 let input_dim = tensor
                     .static_shape
                     .as_ref()
                     .and_then(|s| s.get(dim_idx).copied().flatten())?;
-                let padding = pad_begin + pad_end;
+                let padding = match auto_pad {
+                    AutoPad::SameUpper | AutoPad::SameLower => {
+                        return (stride > 0).then(|| input_dim.div_ceil(stride));
+                    }
+                    AutoPad::Valid => 0,
+                    AutoPad::NotSet => pad_begin + pad_end,
+                };
                 let numerator = input_dim as isize + padding as isize
                     - dilation as isize * (kernel as isize - 1)
                     - 1;
@@ -223,6 +230,7 @@ impl NodeProcessor for Conv2dProcessor {
                     config.dilation[0],
                     pad_top,
                     pad_bottom,
+                    &config.auto_pad,
                 );
                 let w_out = compute_spatial(
                     3,
@@ -231,6 +239,7 @@ impl NodeProcessor for Conv2dProcessor {
                     config.dilation[1],
                     pad_left,
                     pad_right,
+                    &config.auto_pad,
                 );
                 (h_out, w_out)
             });
diff --git a/crates/onnx-ir/src/node/conv3d.rs b/crates/onnx-ir/src/node/conv3d.rs
index f1f04eb..16552c8 100644
--- a/crates/onnx-ir/src/node/conv3d.rs
+++ b/crates/onnx-ir/src/node/conv3d.rs
@@ -128,13 +128,20 @@ impl NodeProcessor for Conv3dProcessor {
                                    stride: usize,
                                    dilation: usize,
                                    pad_begin: usize,
-                                   pad_end: usize|
+                                   pad_end: usize,
+                                   auto_pad: &AutoPad|
              -> Option<usize> {
                 let input_dim = tensor
                     .static_shape
                     .as_ref()
                     .and_then(|s| s.get(dim_idx).copied().flatten())?;
-                let padding = pad_begin + pad_end;
+                let padding = match auto_pad {
+                    AutoPad::SameUpper | AutoPad::SameLower => {
+                        return (stride > 0).then(|| input_dim.div_ceil(stride));
+                    }
+                    AutoPad::Valid => 0,
+                    AutoPad::NotSet => pad_begin + pad_end,
+                };
                 let numerator = input_dim as isize + padding as isize
                     - dilation as isize * (kernel as isize - 1)
                     - 1;
@@ -154,6 +161,7 @@ impl NodeProcessor for Conv3dProcessor {
                     config.dilation[0],
                     pad_front,
                     pad_back,
+                    &config.auto_pad,
                 );
                 let h_out = compute_spatial(
                     3,
@@ -162,6 +170,7 @@ impl NodeProcessor for Conv3dProcessor {
                     config.dilation[1],
                     pad_top,
                     pad_bottom,
+                    &config.auto_pad,
                 );
                 let w_out = compute_spatial(
                     4,
@@ -170,6 +179,7 @@ impl NodeProcessor for Conv3dProcessor {
                     config.dilation[2],
                     pad_left,
                     pad_right,
+                    &config.auto_pad,
                 );
                 (d_out, h_out, w_out)
             });
-- 
2.43.0


From 325e9a18c45e3e3a6528fa9ee1fe63108a331f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 07/69] fix: the inner product of two vectors is a scalar

---
 crates/burn-onnx/src/burn/node/matmul.rs |  6 ++++++
 crates/onnx-ir/src/node/matmul.rs        | 15 ++++++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/matmul.rs b/crates/burn-onnx/src/burn/node/matmul.rs
index 15dea3f..4e13110 100644
--- a/crates/burn-onnx/src/burn/node/matmul.rs
+++ b/crates/burn-onnx/src/burn/node/matmul.rs
@@ -39,6 +39,12 @@ impl NodeCodegen for onnx_ir::matmul::MatMulNode {
         };
         let output_rank = match &output_arg.ty {
             ArgType::Tensor(t) => t.rank,
+            // Inner product of two vectors
+            ArgType::ScalarTensor(_) => {
+                return quote! {
+                    let #output = #lhs.mul(#rhs).sum();
+                };
+            }
             _ => panic!("output must be a tensor"),
         };
 
diff --git a/crates/onnx-ir/src/node/matmul.rs b/crates/onnx-ir/src/node/matmul.rs
index 9781517..87f0946 100644
--- a/crates/onnx-ir/src/node/matmul.rs
+++ b/crates/onnx-ir/src/node/matmul.rs
@@ -109,11 +109,16 @@ impl NodeProcessor for MatMulProcessor {
                     out_rank -= 1;
                 }
 
-                node.outputs[0].ty = ArgType::Tensor(TensorType {
-                    dtype: a.dtype,
-                    rank: out_rank,
-                    static_shape: None,
-                });
+                node.outputs[0].ty = if a.rank == 1 && b.rank == 1 {
+                    // The inner product of two vectors has no dimensions
+                    ArgType::ScalarTensor(a.dtype)
+                } else {
+                    ArgType::Tensor(TensorType {
+                        dtype: a.dtype,
+                        rank: out_rank,
+                        static_shape: None,
+                    })
+                };
             }
             _ => {
                 return Err(ProcessError::TypeMismatch {
-- 
2.43.0


From a658720d4a7ae7fd2dd7cfc7ed167484bfc67446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 08/69] fix: broadcast Expand's input against its target shape

---
 crates/burn-onnx/src/burn/node/expand.rs |  7 ++-
 crates/onnx-ir/src/node/expand.rs        | 56 ++++++++++++++++++++++--
 2 files changed, 58 insertions(+), 5 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/expand.rs b/crates/burn-onnx/src/burn/node/expand.rs
index 4c9ed2a..fcfaef6 100644
--- a/crates/burn-onnx/src/burn/node/expand.rs
+++ b/crates/burn-onnx/src/burn/node/expand.rs
@@ -18,7 +18,12 @@ impl NodeCodegen for onnx_ir::expand::ExpandNode {
         let output_rank = output_arg.ty.rank();
 
         let shape = match &self.config {
-            onnx_ir::expand::ExpandConfig::Static(s) => s.to_tokens(),
+            onnx_ir::expand::ExpandConfig::Static(s) => {
+                // A target shorter than the input is aligned with its trailing dimensions
+                let mut shape = vec![1i64; output_rank.saturating_sub(s.len())];
+                shape.extend(s);
+                shape.to_tokens()
+            }
             onnx_ir::expand::ExpandConfig::Runtime(r) => {
                 let shape_arg = &self.inputs[r.input_index];
                 match &shape_arg.ty {
diff --git a/crates/onnx-ir/src/node/expand.rs b/crates/onnx-ir/src/node/expand.rs
index bf4efc0..d6c5bd9 100644
--- a/crates/onnx-ir/src/node/expand.rs
+++ b/crates/onnx-ir/src/node/expand.rs
@@ -37,6 +37,45 @@ pub enum ExpandConfig {
 
 pub(crate) struct ExpandProcessor;
 
+/// Shape of expanding `input` to `target`: both are broadcast against each other, so a target
+/// dimension of 1 (or a missing one) keeps the input's dimension.
+fn broadcast_to_target(
+    input: &ArgType,
+    target: &[i64],
+) -> Result<Vec<Option<usize>>, ProcessError> {
+    let input_rank = match input {
+        ArgType::Tensor(tensor) => tensor.rank,
+        _ => 0,
+    };
+    let static_shape = match input {
+        ArgType::Tensor(TensorType {
+            static_shape: Some(shape),
+            ..
+        }) if shape.len() == input_rank => Some(shape),
+        _ => None,
+    };
+    let rank = input_rank.max(target.len());
+
+    (0..rank)
+        .map(|i| {
+            let target_dim = (i + target.len()).checked_sub(rank).map(|j| target[j]);
+            let input_dim = match (i + input_rank).checked_sub(rank) {
+                Some(j) => static_shape.and_then(|shape| shape[j]),
+                None => Some(1),
+            };
+            match (target_dim, input_dim) {
+                (None | Some(1 | -1), dim) => Ok(dim),
+                (Some(target), Some(dim)) if dim != 1 && dim as i64 != target => {
+                    Err(ProcessError::Custom(format!(
+                        "Expand: cannot broadcast dimension of size {dim} to {target}"
+                    )))
+                }
+                (Some(target), _) => Ok(Some(target as usize)),
+            }
+        })
+        .collect()
+}
+
 impl NodeProcessor for ExpandProcessor {
     type Config = ExpandConfig;
 
@@ -113,11 +152,11 @@ impl NodeProcessor for ExpandProcessor {
         match config {
             ExpandConfig::Static(shape) => {
                 // TODO: Validate shape values are positive or -1 per ONNX spec - Negative values other than -1 are invalid - Missing constraint validation
-                // TODO: Validate broadcasting rules - Per spec, input shape and target shape must be compatible for broadcasting - Missing broadcast validation
+                let output_shape = broadcast_to_target(&node.inputs[0].ty, &shape)?;
                 node.outputs[0].ty = ArgType::Tensor(TensorType {
                     dtype: input_elem_type,
-                    rank: shape.len(),
-                    static_shape: Some(shape.iter().map(|&dim| Some(dim as usize)).collect()),
+                    rank: output_shape.len(),
+                    static_shape: Some(output_shape),
                 });
             }
             ExpandConfig::Runtime(_) => {
@@ -150,6 +189,14 @@ impl NodeProcessor for ExpandProcessor {
                     }
                 };
 
+                if output_rank < node.inputs[0].ty.rank() {
+                    return Err(ProcessError::Custom(format!(
+                        "Expand: runtime shape of {} elements is shorter than the input rank {}",
+                        output_rank,
+                        node.inputs[0].ty.rank()
+                    )));
+                }
+
                 node.outputs[0].ty = ArgType::Tensor(TensorType {
                     dtype: input_elem_type,
                     rank: output_rank,
@@ -167,7 +214,8 @@ impl NodeProcessor for ExpandProcessor {
             (&node.inputs[0].ty, &node.outputs[0].ty)
             && let (Some(in_shape), Some(out_shape)) = (&in_t.static_shape, &out_t.static_shape)
         {
-            return in_shape == out_shape;
+            // Unknown dimensions that look alike can still be different sizes
+            return in_shape == out_shape && in_shape.iter().all(|dim| dim.is_some());
         }
         false
     }
-- 
2.43.0


From bababc1b1a2693f3bf98bb41e839e3639ccd11d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 09/69] fix: clamp the start and end of Shape to the rank

---
 crates/onnx-ir/src/node/shape.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/crates/onnx-ir/src/node/shape.rs b/crates/onnx-ir/src/node/shape.rs
index 1409e97..3fa88ba 100644
--- a/crates/onnx-ir/src/node/shape.rs
+++ b/crates/onnx-ir/src/node/shape.rs
@@ -124,14 +124,9 @@ impl NodeProcessor for ShapeProcessor {
             end_dim += rank as i64;
         }
 
-        // TODO: Missing clamping to [0, rank] as per ONNX spec - out-of-bounds positive values are not clamped.
-        // The spec explicitly states: "Values are clamped to [0, rank]" but implementation only normalizes negative indices.
-        // This could lead to panics or incorrect results when start/end exceed rank.
-        // Should add: start_dim = start_dim.max(0).min(rank); end_dim = end_dim.max(0).min(rank);
-
-        // Calculate dimensions
-        let start = start_dim as usize;
-        let end = end_dim as usize;
+        // Both ends are clamped to [0, rank], and an inverted range is empty
+        let start = start_dim.clamp(0, rank as i64) as usize;
+        let end = (end_dim.clamp(0, rank as i64) as usize).max(start);
 
         let config = ShapeConfig { start, end };
         Ok(config)
-- 
2.43.0


From 6ac72060d5b3031d787280c8acf04090926bd363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 10/69] fix: honour or refuse the axes of reductions

---
 crates/onnx-ir/src/node/reduce.rs | 45 ++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/crates/onnx-ir/src/node/reduce.rs b/crates/onnx-ir/src/node/reduce.rs
index d05ea41..c13b5ac 100644
--- a/crates/onnx-ir/src/node/reduce.rs
+++ b/crates/onnx-ir/src/node/reduce.rs
@@ -196,9 +196,7 @@ impl NodeProcessor for ReduceProcessor {
         };
 
         // Get config values before using them
-        let config = self
-            .extract_config(node, opset)
-            .expect("Config extraction failed");
+        let config = self.extract_config(node, opset)?;
         let dims = config.dims.clone();
         let keepdims = if config.keepdims { 1 } else { 0 };
 
@@ -225,6 +223,10 @@ impl NodeProcessor for ReduceProcessor {
                 }
 
                 if keepdims == 1 {
+                    if dims.is_empty() {
+                        // No axes: every dimension is reduced
+                        shape.fill(Some(1));
+                    }
                     for dim in &dims {
                         shape[*dim] = Some(1);
                     }
@@ -262,33 +264,52 @@ impl NodeProcessor for ReduceProcessor {
         // Extract axes and keepdims attributes
         let mut axes = Vec::new();
         let mut keepdims = 1;
+        let mut noop_with_empty_axes = false;
 
         for (key, value) in node.attrs.iter() {
             match key.as_str() {
                 "axes" => axes = value.clone().into_i64s(),
                 "keepdims" => keepdims = value.clone().into_i64(),
+                "noop_with_empty_axes" => noop_with_empty_axes = value.clone().into_i64() != 0,
                 _ => {}
             }
         }
 
         // Process axes from additional input (if available)
-        if let Some(value) = node.inputs.get(1).and_then(|argument| argument.value()) {
-            axes = value.to_vec::<i64>().unwrap();
+        if let Some(argument) = node.inputs.get(1).filter(|arg| !arg.is_optional()) {
+            axes = argument
+                .value()
+                .ok_or_else(|| {
+                    ProcessError::Custom("Reduce: axes must be known at build time".to_string())
+                })?
+                .to_vec::<i64>()
+                .unwrap();
+        }
+
+        if axes.is_empty() && noop_with_empty_axes {
+            return Err(ProcessError::Custom(
+                "Reduce: noop_with_empty_axes without axes is not supported".to_string(),
+            ));
         }
 
-        let mut dims: Vec<usize> = axes
+        let rank = tensor_rank as i64;
+        let mut dims = axes
             .into_iter()
-            .map(|mut dim| {
-                if dim < 0 {
-                    // Accepted range is [-r, r-1] where r = rank(data) but Burn only supports positive dim
-                    dim += tensor_rank as i64;
+            .map(|dim| {
+                if !(-rank..rank).contains(&dim) {
+                    return Err(ProcessError::InvalidAttribute {
+                        name: "axes".to_string(),
+                        reason: format!("axis {dim} is out of range for rank {rank}"),
+                    });
                 }
-                dim as usize
+                // Burn only supports positive dim
+                Ok(if dim < 0 { dim + rank } else { dim } as usize)
             })
-            .collect();
+            .collect::<Result<Vec<usize>, ProcessError>>()?;
 
         // Sort the dimensions to ensure consistent order
         dims.sort();
+        dims.dedup();
 
         let config = ReduceConfig::new(dims, keepdims == 1);
         Ok(config)
-- 
2.43.0


From ad9f175fdc112538a9e7a4c1f48a2bd24325cf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 11/69] fix: check LayerNormalization's axis against the
 input's rank

---
 crates/onnx-ir/src/node/layer_norm.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/onnx-ir/src/node/layer_norm.rs b/crates/onnx-ir/src/node/layer_norm.rs
index 6a057c7..1c3e553 100644
--- a/crates/onnx-ir/src/node/layer_norm.rs
+++ b/crates/onnx-ir/src/node/layer_norm.rs
@@ -22,7 +22,7 @@
 use derive_new::new;
 use onnx_ir_derive::NodeBuilder;
 
-use crate::ir::{Argument, Node, RawNode};
+use crate::ir::{ArgType, Argument, Node, RawNode};
 use crate::processor::{
     InputSpec, NodeProcessor, NodeSpec, OutputPreferences, OutputSpec, ProcessError,
 };
@@ -122,9 +122,18 @@ impl NodeProcessor for LayerNormProcessor {
 
         // TODO: Validate epsilon > 0 for numerical stability - Negative or zero epsilon could cause issues - burn/crates/onnx-ir/src/node/layer_norm.rs:132
         // TODO: Validate stash_type is 1 or unspecified - Spec only defines stash_type=1 (float), other values undefined - burn/crates/onnx-ir/src/node/layer_norm.rs:132
-        // TODO: Validate axis is within valid range for input tensor rank - Out of bounds axis should be rejected - burn/crates/onnx-ir/src/node/layer_norm.rs:132
 
-        if axis != -1 && axis != weight_shape.len() as i64 - 1 {
+        let input_rank = match &node.inputs[0].ty {
+            ArgType::Tensor(tensor) => tensor.rank as i64,
+            ty => {
+                return Err(ProcessError::TypeMismatch {
+                    expected: "Tensor".to_string(),
+                    actual: format!("{ty:?}"),
+                });
+            }
+        };
+
+        if (axis != -1 && axis != input_rank - 1) || weight_shape.len() != 1 {
             return Err(ProcessError::Custom(
                 "LayerNorm: normalization is only supported on the last axis right now".to_string(),
             ));
-- 
2.43.0


From 8c701bcc0824c53a824f6d05388bb92933635e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:57 +0000
Subject: [PATCH 12/69] fix: refuse negative pads of ConvTranspose1d

---
 crates/onnx-ir/src/node/conv_transpose1d.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/node/conv_transpose1d.rs b/crates/onnx-ir/src/node/conv_transpose1d.rs
index 75b4e5d..b1f85d9 100644
--- a/crates/onnx-ir/src/node/conv_transpose1d.rs
+++ b/crates/onnx-ir/src/node/conv_transpose1d.rs
@@ -130,7 +130,12 @@ impl NodeProcessor for Convtranspose1dProcessor {
             }
         }
 
-        // Check the pads are symmetric
+        // Check the pads are not negative and symmetric
+        if pads.iter().any(|&pad| pad < 0) {
+            return Err(ProcessError::Custom(
+                "Negative pad values are not supported".to_string(),
+            ));
+        }
         if pads.len() != 2 || pads[0] != pads[1] {
             return Err(ProcessError::Custom(format!(
                 "Asymmetric padding is not supported for ConvTranspose1d: {pads:?}"
-- 
2.43.0


From 78dbb4a2ea58d2cd01eba1f80c03cb128c654158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:21 +0000
Subject: [PATCH 13/69] fix: add outer-scope references in a stable order

---
 crates/onnx-ir/src/phases/node_conversion.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/onnx-ir/src/phases/node_conversion.rs b/crates/onnx-ir/src/phases/node_conversion.rs
index 8e1de43..6a474fb 100644
--- a/crates/onnx-ir/src/phases/node_conversion.rs
+++ b/crates/onnx-ir/src/phases/node_conversion.rs
@@ -74,8 +74,12 @@ fn convert_nodes_impl(
         ) {
             // Extract outer-scope references from subgraphs BEFORE building them
             // These references need their types resolved from the parent graph
-            let outer_refs =
-                crate::proto_conversion::extract_node_outer_scope_references(node_proto);
+            let mut outer_refs: Vec<String> =
+                crate::proto_conversion::extract_node_outer_scope_references(node_proto)
+                    .into_iter()
+                    .collect();
+            // The order of the set changes from run to run
+            outer_refs.sort();
 
             // Add outer-scope references as additional inputs to the node
             // This ensures:
-- 
2.43.0


From 75c8317704145830e0f1d9e85ece3ec03e6b15c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:21 +0000
Subject: [PATCH 14/69] fix: let bodies refer to a value that is also an
 operand of the node

---
 crates/onnx-ir/src/phases/node_conversion.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/crates/onnx-ir/src/phases/node_conversion.rs b/crates/onnx-ir/src/phases/node_conversion.rs
index 6a474fb..a22d659 100644
--- a/crates/onnx-ir/src/phases/node_conversion.rs
+++ b/crates/onnx-ir/src/phases/node_conversion.rs
@@ -96,12 +96,6 @@ fn convert_nodes_impl(
                 let state = state_rc.borrow();
                 let mut scope_ref_names: Vec<String> = Vec::new();
                 for ref_name in outer_refs {
-                    // Skip references that are already in the node's inputs
-                    if node.inputs.iter().any(|i| i.name == ref_name) {
-                        log::debug!("Skipping '{}' - already in node inputs", ref_name);
-                        continue;
-                    }
-
                     // Create an argument for this outer-scope reference
                     // The type will be resolved from the parent graph
                     let arg = state.init_in(&ref_name);
-- 
2.43.0


From 4edcea2c5930443e5a2038e72eb79fd56b9e83ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:19 +0000
Subject: [PATCH 15/69] fix: keep an identity operation that broadcasts its
 operand

---
 .../onnx-ir/src/simplify/identity_element.rs  | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/crates/onnx-ir/src/simplify/identity_element.rs b/crates/onnx-ir/src/simplify/identity_element.rs
index 06fa5b9..96f255c 100644
--- a/crates/onnx-ir/src/simplify/identity_element.rs
+++ b/crates/onnx-ir/src/simplify/identity_element.rs
@@ -63,6 +63,10 @@ pub(crate) fn eliminate_identity_elements(mut nodes: Vec<RawNode>) -> Vec<RawNod
         };
 
         if let Some(keep_idx) = passthrough {
+            // The other operand may broadcast the kept one to a larger shape
+            if !same_shape_without(node, keep_idx) {
+                continue;
+            }
             let keep_name = &node.inputs[keep_idx].name;
             log::debug!(
                 "Identity element elimination: {:?} '{}' (output '{}' -> input '{}')",
@@ -95,6 +99,32 @@ pub(crate) fn eliminate_identity_elements(mut nodes: Vec<RawNode>) -> Vec<RawNod
     nodes
 }
 
+/// Check that the node's output has the shape of the operand at `keep_idx` for every value of
+/// that operand: the other one (a constant) must not broadcast it.
+fn same_shape_without(node: &RawNode, keep_idx: usize) -> bool {
+    let kept = &node.inputs[keep_idx].ty;
+    let other = &node.inputs[1 - keep_idx].ty;
+    let output = &node.outputs[0].ty;
+
+    if std::mem::discriminant(kept) != std::mem::discriminant(output)
+        || kept.rank() != output.rank()
+        || other.is_tensor() && other.rank() > kept.rank()
+        || other.is_shape() && !kept.is_shape()
+    {
+        return false;
+    }
+
+    let Some(dims) = other.static_shape() else {
+        return true;
+    };
+    let kept_dims = kept.static_shape();
+    // Dimensions are aligned from the last one
+    dims.iter().rev().enumerate().all(|(i, dim)| {
+        *dim == Some(1)
+            || kept_dims.is_some_and(|k| i < k.len() && dim.is_some() && k[k.len() - 1 - i] == *dim)
+    })
+}
+
 /// Check if an argument is a constant where all elements equal `target`.
 ///
 /// Works for scalar constants and broadcast-compatible constant tensors.
-- 
2.43.0


From fbdefd20142c6e51178ff023e86077bf3e896063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:19 +0000
Subject: [PATCH 16/69] fix: do not merge random nodes

---
 crates/onnx-ir/src/simplify/redundant_nodes.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/simplify/redundant_nodes.rs b/crates/onnx-ir/src/simplify/redundant_nodes.rs
index ae07372..54dd04d 100644
--- a/crates/onnx-ir/src/simplify/redundant_nodes.rs
+++ b/crates/onnx-ir/src/simplify/redundant_nodes.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use crate::ir::{AttributeValue, RawNode, ValueSource};
+use crate::ir::{AttributeValue, NodeType, RawNode, ValueSource};
 
 /// Eliminate redundant nodes (common subexpression elimination).
 ///
@@ -58,6 +58,19 @@ pub(crate) fn eliminate_redundant_nodes(mut nodes: Vec<RawNode>) -> Vec<RawNode>
 ///
 /// Nodes with graph-valued attributes get a unique key (not eligible for CSE).
 fn cse_key(node: &RawNode) -> String {
+    // Every random node draws its own values, also from the same inputs and attributes
+    if matches!(
+        node.node_type,
+        NodeType::RandomNormal
+            | NodeType::RandomNormalLike
+            | NodeType::RandomUniform
+            | NodeType::RandomUniformLike
+            | NodeType::Bernoulli
+            | NodeType::Multinomial
+    ) {
+        return format!("__unique__:{}", node.name);
+    }
+
     // Skip nodes with graph attributes (too complex to compare)
     for value in node.attrs.values() {
         if matches!(
-- 
2.43.0


From 9327fba35b16bc133fbdb3c34b0b0d7fbb61eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:19 +0000
Subject: [PATCH 17/69] fix: compare the content of tensor attributes when
 merging nodes

---
 crates/onnx-ir/src/simplify/redundant_nodes.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/onnx-ir/src/simplify/redundant_nodes.rs b/crates/onnx-ir/src/simplify/redundant_nodes.rs
index 54dd04d..bbecaa0 100644
--- a/crates/onnx-ir/src/simplify/redundant_nodes.rs
+++ b/crates/onnx-ir/src/simplify/redundant_nodes.rs
@@ -102,6 +102,22 @@ fn cse_key(node: &RawNode) -> String {
     let mut attrs: Vec<(&String, &AttributeValue)> = node.attrs.iter().collect();
     attrs.sort_by_key(|(k, _)| *k);
 
+    // The Debug output of tensor data abbreviates its content
+    let attrs: Vec<String> = attrs
+        .into_iter()
+        .map(|(key, value)| match value {
+            AttributeValue::Tensor(data) => {
+                format!(
+                    "{key}={:?}{:?}{:?}",
+                    data.dtype,
+                    data.shape,
+                    &data.bytes[..]
+                )
+            }
+            value => format!("{key}={value:?}"),
+        })
+        .collect();
+
     format!("{:?}|{:?}|{:?}", node.node_type, input_names, attrs)
 }
 
-- 
2.43.0


From 086b51305378c39d054a0f74324f2bd8fa395608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:26 +0000
Subject: [PATCH 18/69] fix: fold constants only into a shape that holds the
 result

---
 crates/onnx-ir/src/simplify/constant_fold.rs | 42 ++++++++++++++------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/crates/onnx-ir/src/simplify/constant_fold.rs b/crates/onnx-ir/src/simplify/constant_fold.rs
index af258f3..8da1e64 100644
--- a/crates/onnx-ir/src/simplify/constant_fold.rs
+++ b/crates/onnx-ir/src/simplify/constant_fold.rs
@@ -133,7 +133,8 @@ fn eval_binary(node: &RawNode, op: BinaryOp) -> Option<(TensorData, ArgType)> {
 
     let dtype = lhs_data.dtype;
 
-    let shape = output_shape(&output_ty);
+    let len = element_count(&lhs_data).max(element_count(&rhs_data));
+    let shape = output_shape(&output_ty, len)?;
 
     match dtype {
         DType::I64 => {
@@ -167,16 +168,26 @@ fn eval_binary(node: &RawNode, op: BinaryOp) -> Option<(TensorData, ArgType)> {
 }
 
 /// Derive the output shape from the already-inferred output type.
-fn output_shape(output_ty: &ArgType) -> Vec<usize> {
-    match output_ty {
+///
+/// None when the type does not determine the shape, or determines one that does not hold
+/// exactly `len` elements (such as two operands broadcasting each other).
+fn output_shape(output_ty: &ArgType, len: usize) -> Option<Vec<usize>> {
+    let shape = match output_ty {
         ArgType::ScalarTensor(_) | ArgType::ScalarNative(_) => vec![],
         ArgType::Shape(len) => vec![*len],
-        ArgType::Tensor(t) => t
-            .static_shape
-            .as_ref()
-            .and_then(|ss| ss.iter().copied().collect::<Option<Vec<_>>>())
-            .unwrap_or_default(),
-    }
+        ArgType::Tensor(t) => match t.static_shape_known() {
+            Some(shape) => shape,
+            None if t.rank == 0 => vec![],
+            None if t.rank == 1 => vec![len],
+            None => return None,
+        },
+    };
+    (shape.iter().product::<usize>() == len).then_some(shape)
+}
+
+/// Number of elements of a constant.
+fn element_count(data: &TensorData) -> usize {
+    data.shape.iter().product()
 }
 
 fn broadcast_get<T: Copy>(slice: &[T], i: usize) -> T {
@@ -238,7 +249,7 @@ fn apply_binary_f64(lhs: &[f64], rhs: &[f64], op: &BinaryOp) -> Option<Vec<f64>>
 fn eval_neg(node: &RawNode) -> Option<(TensorData, ArgType)> {
     let data = node.inputs[0].value()?;
     let output_ty = node.outputs[0].ty.clone();
-    let shape = output_shape(&output_ty);
+    let shape = output_shape(&output_ty, element_count(&data))?;
 
     match data.dtype {
         DType::I64 => {
@@ -269,7 +280,7 @@ fn eval_neg(node: &RawNode) -> Option<(TensorData, ArgType)> {
 fn eval_sqrt(node: &RawNode) -> Option<(TensorData, ArgType)> {
     let data = node.inputs[0].value()?;
     let output_ty = node.outputs[0].ty.clone();
-    let shape = output_shape(&output_ty);
+    let shape = output_shape(&output_ty, element_count(&data))?;
 
     match data.dtype {
         DType::F32 => {
@@ -290,7 +301,7 @@ fn eval_sqrt(node: &RawNode) -> Option<(TensorData, ArgType)> {
 fn eval_cast(node: &RawNode) -> Option<(TensorData, ArgType)> {
     let data = node.inputs[0].value()?;
     let output_ty = node.outputs[0].ty.clone();
-    let shape = output_shape(&output_ty);
+    let shape = output_shape(&output_ty, element_count(&data))?;
 
     let target_dtype = match &output_ty {
         ArgType::ScalarTensor(d) | ArgType::ScalarNative(d) => *d,
@@ -354,10 +365,15 @@ fn eval_concat(node: &RawNode) -> Option<(TensorData, ArgType)> {
     let output_ty = node.outputs[0].ty.clone();
     let first_data = node.inputs[0].value()?;
     let dtype = first_data.dtype;
-    let shape = output_shape(&output_ty);
 
     let non_optional = || node.inputs.iter().filter(|arg| !arg.is_optional());
 
+    let mut len = 0;
+    for input in non_optional() {
+        len += element_count(&input.value()?);
+    }
+    let shape = output_shape(&output_ty, len)?;
+
     match dtype {
         DType::I64 => {
             let mut result: Vec<i64> = Vec::new();
-- 
2.43.0


From 1c09831c03617ce1826f290b6152ffb61de90cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:32 +0000
Subject: [PATCH 19/69] fix: do not fold a division or negation that overflows

---
 crates/onnx-ir/src/simplify/constant_fold.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/onnx-ir/src/simplify/constant_fold.rs b/crates/onnx-ir/src/simplify/constant_fold.rs
index 8da1e64..074cb6a 100644
--- a/crates/onnx-ir/src/simplify/constant_fold.rs
+++ b/crates/onnx-ir/src/simplify/constant_fold.rs
@@ -212,7 +212,7 @@ fn apply_binary_i64(lhs: &[i64], rhs: &[i64], op: &BinaryOp) -> Option<Vec<i64>>
                 if b == 0 {
                     return None;
                 }
-                a / b
+                a.checked_div(b)?
             }
         };
         result.push(val);
@@ -254,7 +254,10 @@ fn eval_neg(node: &RawNode) -> Option<(TensorData, ArgType)> {
     match data.dtype {
         DType::I64 => {
             let vals = data.to_i64_vec().ok()?;
-            let result: Vec<i64> = vals.iter().map(|v| -v).collect();
+            let result: Vec<i64> = vals
+                .iter()
+                .map(|v| v.checked_neg())
+                .collect::<Option<_>>()?;
             Some((TensorData::new(result, shape), output_ty))
         }
         DType::I32 => {
-- 
2.43.0


From 8b18e65b6b7ed865775bd95923d3bd836948f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:10 +0000
Subject: [PATCH 20/69] fix: follow Shape's end and Slice's negative steps when
 folding shapes

---
 crates/onnx-ir/src/simplify/constant_shape.rs | 38 ++++++++-----------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/crates/onnx-ir/src/simplify/constant_shape.rs b/crates/onnx-ir/src/simplify/constant_shape.rs
index b2e799d..0cdc7c5 100644
--- a/crates/onnx-ir/src/simplify/constant_shape.rs
+++ b/crates/onnx-ir/src/simplify/constant_shape.rs
@@ -178,34 +178,21 @@ fn extract_constant_shape_dim(
     }
 
     // The Shape node's input must have a fully known static shape (all dims concrete)
-    let static_shape = shape_node.inputs[0].ty.static_shape_known()?;
-
-    // Account for Shape's start/end attributes (opset 15+)
-    let rank = static_shape.len();
-    let mut start = shape_node
-        .attrs
-        .get("start")
-        .map(|v| v.clone().into_i64())
-        .unwrap_or(0);
-    if start < 0 {
-        start += rank as i64;
-    }
-    let start = start.max(0) as usize;
+    let shape_values = extract_full_static_shape(shape_node)?;
 
     // Gather's index (input[1]) must be a constant scalar
     let mut index_val = gather.inputs[1].value()?.scalar_i64().ok()?;
 
     // Handle negative indices (relative to the sliced shape length)
-    let sliced_len = static_shape.len() - start;
+    let sliced_len = shape_values.len() as i64;
     if index_val < 0 {
-        index_val += sliced_len as i64;
+        index_val += sliced_len;
     }
-    if index_val < 0 || index_val as usize >= sliced_len {
+    if index_val < 0 || index_val >= sliced_len {
         return None;
     }
 
-    let dim_idx = start + index_val as usize;
-    Some(static_shape[dim_idx] as i64)
+    Some(shape_values[index_val as usize])
 }
 
 /// Extract the full static shape from a Shape node, accounting for start/end attributes.
@@ -231,7 +218,7 @@ fn extract_full_static_shape(shape_node: &RawNode) -> Option<Vec<i64>> {
     if end < 0 {
         end += rank as i64;
     }
-    let end = (end as usize).min(rank);
+    let end = (end.max(0) as usize).min(rank);
 
     if start >= end {
         return Some(vec![]);
@@ -318,9 +305,14 @@ fn extract_constant_shape_slice(
         end += shape_len;
     }
 
-    // Clamp to bounds
-    start = start.clamp(0, shape_len);
-    end = end.clamp(0, shape_len);
+    // Clamp to bounds. A negative step starts at the last element at most and ends after the first
+    if step > 0 {
+        start = start.clamp(0, shape_len);
+        end = end.clamp(0, shape_len);
+    } else {
+        start = start.clamp(-1, shape_len - 1);
+        end = end.clamp(-1, shape_len - 1);
+    }
 
     // Compute the sliced result
     let result: Vec<i64> = if step > 0 {
@@ -334,7 +326,7 @@ fn extract_constant_shape_slice(
         let mut i = start;
         while i > end {
             vals.push(shape_values[i as usize]);
-            i += step; // step is negative
+            i = i.saturating_add(step); // step is negative
         }
         vals
     };
-- 
2.43.0


From 2bbf1562a9da3aeb59db6ce0232cb81ffecbc4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:45 +0000
Subject: [PATCH 21/69] fix: only permute by indices of all the dimensions

---
 crates/onnx-ir/src/simplify/permute_reshape.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/onnx-ir/src/simplify/permute_reshape.rs b/crates/onnx-ir/src/simplify/permute_reshape.rs
index 5a9c1fb..f674cd3 100644
--- a/crates/onnx-ir/src/simplify/permute_reshape.rs
+++ b/crates/onnx-ir/src/simplify/permute_reshape.rs
@@ -119,6 +119,16 @@ fn extract_permute_pattern(
             return None;
         }
 
+        // A Shape that leaves out dimensions shifts the indices
+        if shape_node.attrs.contains_key("end")
+            || shape_node
+                .attrs
+                .get("start")
+                .is_some_and(|v| v.clone().into_i64() != 0)
+        {
+            return None;
+        }
+
         // All Shape nodes must reference the same data input
         let this_data_input = &shape_node.inputs[0].name;
         match &shape_data_input {
@@ -134,6 +144,11 @@ fn extract_permute_pattern(
         return None;
     }
 
+    // A Reshape that changes the rank gathers only some of the dimensions
+    if reshape.inputs[0].ty.rank() != reshape.outputs[0].ty.rank() {
+        return None;
+    }
+
     // Verify it's actually a permutation (contains each index exactly once)
     let rank = perm.len();
     let mut seen = vec![false; rank];
-- 
2.43.0


From 4615f9120445a9630dfd490574053814a8518cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:27 +0000
Subject: [PATCH 22/69] fix: keep the parts of an attention pattern that are
 graph outputs

---
 .../src/simplify/coalesce_attention.rs        | 21 ++++++++++++++++---
 crates/onnx-ir/src/simplify/mod.rs            |  4 ++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/crates/onnx-ir/src/simplify/coalesce_attention.rs b/crates/onnx-ir/src/simplify/coalesce_attention.rs
index c4c1996..0fd0849 100644
--- a/crates/onnx-ir/src/simplify/coalesce_attention.rs
+++ b/crates/onnx-ir/src/simplify/coalesce_attention.rs
@@ -28,11 +28,21 @@ use crate::ir::{ArgType, Argument, AttributeValue, NodeType, RawNode, TensorData
 ///
 /// Seeds on Softmax nodes (invariant anchor in every SDPA variant), then traces
 /// backward/forward to match the full pattern.
-pub(crate) fn coalesce_attention(mut nodes: Vec<RawNode>) -> Vec<RawNode> {
+pub(crate) fn coalesce_graph_attention(
+    mut nodes: Vec<RawNode>,
+    graph_outputs: &[Argument],
+) -> Vec<RawNode> {
     // Build producer map: output_name -> node_index
     let producer = build_producer_map(&nodes);
     // Build consumer map: output_name -> list of node indices that consume it
-    let consumer = build_consumer_map(&nodes);
+    let mut consumer = build_consumer_map(&nodes);
+    // A graph output is a use of its own, outside the nodes
+    for output in graph_outputs {
+        consumer
+            .entry(output.name.clone())
+            .or_default()
+            .push(nodes.len());
+    }
 
     // Collect replacements: (node_index, replacement_node)
     let mut replacements: Vec<(usize, RawNode)> = Vec::new();
@@ -61,6 +71,11 @@ pub(crate) fn coalesce_attention(mut nodes: Vec<RawNode>) -> Vec<RawNode> {
     nodes
 }
 
+#[cfg(test)]
+fn coalesce_attention(nodes: Vec<RawNode>) -> Vec<RawNode> {
+    coalesce_graph_attention(nodes, &[])
+}
+
 /// Try to match a full SDPA pattern starting from a Softmax node.
 ///
 /// Returns a list of `(node_index, replacement_node)` pairs if the pattern matches.
@@ -167,7 +182,7 @@ fn try_match_sdpa(
         return None;
     }
     let final_matmul_idx = final_matmul_consumers[0];
-    let final_matmul = &nodes[final_matmul_idx];
+    let final_matmul = nodes.get(final_matmul_idx)?;
     if final_matmul.node_type != NodeType::MatMul {
         return None;
     }
diff --git a/crates/onnx-ir/src/simplify/mod.rs b/crates/onnx-ir/src/simplify/mod.rs
index b96ea32..8d8f3aa 100644
--- a/crates/onnx-ir/src/simplify/mod.rs
+++ b/crates/onnx-ir/src/simplify/mod.rs
@@ -45,7 +45,7 @@ use crate::{
     ir::{Argument, RawNode},
 };
 
-use coalesce_attention::coalesce_attention;
+use coalesce_attention::coalesce_graph_attention;
 use constant_fold::fold_constants;
 use constant_shape::simplify_constant_shape;
 use dead_nodes::eliminate_dead_nodes;
@@ -73,7 +73,7 @@ pub(crate) fn simplify_graph(
 
         // Attention coalescing (must run before permute-reshape, since attention
         // pattern uses native Transpose nodes, not Reshape-based transposes)
-        nodes = coalesce_attention(nodes);
+        nodes = coalesce_graph_attention(nodes, &outputs);
 
         // Structural pattern detection (must run before constant folding, which
         // replaces Gather/Slice nodes with Constants and destroys the patterns)
-- 
2.43.0


From c53c098d2b16174eb210620e5e9b2481c47bfd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:21 +0000
Subject: [PATCH 23/69] fix: take only one-element constants as attention
 scales, and all of them

---
 .../src/simplify/coalesce_attention.rs        | 38 +++++++++++--------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/crates/onnx-ir/src/simplify/coalesce_attention.rs b/crates/onnx-ir/src/simplify/coalesce_attention.rs
index 0fd0849..22d65ac 100644
--- a/crates/onnx-ir/src/simplify/coalesce_attention.rs
+++ b/crates/onnx-ir/src/simplify/coalesce_attention.rs
@@ -92,7 +92,8 @@ fn try_match_sdpa(
     // 1. Validate Softmax axis is last dimension
     let softmax_input = softmax.inputs.first()?;
     let rank = softmax_input.ty.rank();
-    if rank < 2 {
+    // A larger rank comes from a mask or scale that adds dimensions to the scores
+    if rank != 4 {
         return None;
     }
     let axis = get_softmax_axis(softmax, rank)?;
@@ -162,8 +163,9 @@ fn try_match_sdpa(
     else if let Some((q, k, prescale, extras)) =
         try_prescaled_qk_pattern(qk_matmul, qk_matmul_idx, nodes, producer, consumer)
     {
-        if prescale.is_some() {
-            scale_value = prescale;
+        if let Some(prescale) = prescale {
+            // A scale after the QK MatMul applies on top
+            scale_value = Some(prescale * scale_value.unwrap_or(1.0));
         }
         (q, k, extras)
     } else {
@@ -272,7 +274,7 @@ fn try_extract_scale<'a>(
     match node.node_type {
         NodeType::Div => {
             // Div(x, constant) -> scale = 1/constant
-            let divisor = node.inputs[1].value()?.scalar_f64().ok()?;
+            let divisor = single_value(&node.inputs[1])?;
             if divisor == 0.0 {
                 return None;
             }
@@ -281,15 +283,11 @@ fn try_extract_scale<'a>(
         NodeType::Mul => {
             // Mul(x, constant) or Mul(constant, x) -> scale = constant
             // Try input[1] as constant first (more common)
-            if let Some(data) = node.inputs[1].value()
-                && let Ok(val) = data.scalar_f64()
-            {
+            if let Some(val) = single_value(&node.inputs[1]) {
                 return Some((&node.inputs[0].name, val));
             }
             // Try input[0] as constant
-            if let Some(data) = node.inputs[0].value()
-                && let Ok(val) = data.scalar_f64()
-            {
+            if let Some(val) = single_value(&node.inputs[0]) {
                 return Some((&node.inputs[1].name, val));
             }
             None
@@ -298,6 +296,15 @@ fn try_extract_scale<'a>(
     }
 }
 
+/// The value of a constant of exactly one element.
+fn single_value(arg: &Argument) -> Option<f64> {
+    let data = arg.value()?;
+    if data.shape.iter().product::<usize>() != 1 {
+        return None;
+    }
+    data.scalar_f64().ok()
+}
+
 /// Build an Attention RawNode that replaces the final MatMul.
 fn build_attention_node(
     final_matmul: &RawNode,
@@ -418,7 +425,7 @@ fn try_standard_k_pattern(
             && is_single_use(&q_mul.outputs[0].name, consumer)
             && let Some((_, scale)) = try_extract_scale(q_mul, consumer)
         {
-            let q_real = if q_mul.inputs[1].value().is_some() {
+            let q_real = if single_value(&q_mul.inputs[1]).is_some() {
                 q_mul.inputs[0].clone()
             } else {
                 q_mul.inputs[1].clone()
@@ -539,10 +546,11 @@ fn try_prescaled_qk_pattern(
     };
 
     // Extract scale: effective_scale = sqrt_scale^2
-    let prescaled_scale = q_mul.inputs[scalar_idx]
-        .value()
-        .and_then(|data| data.scalar_f64().ok())
-        .map(|v| v * v);
+    let scale_input = &q_mul.inputs[scalar_idx];
+    let prescaled_scale = single_value(scale_input).map(|v| v * v);
+    if scale_input.value().is_some() && prescaled_scale.is_none() {
+        return None; // a constant vector, not a scale
+    }
 
     Some((
         q_arg,
-- 
2.43.0


From ebe6513ebbe8c72b5c8f32b60933599bfbd23c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:14 +0000
Subject: [PATCH 24/69] fix: keep a no-op node whose further outputs are used

---
 crates/onnx-ir/src/phases/post_processing.rs | 39 +++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/phases/post_processing.rs b/crates/onnx-ir/src/phases/post_processing.rs
index bbadc7c..61db68a 100644
--- a/crates/onnx-ir/src/phases/post_processing.rs
+++ b/crates/onnx-ir/src/phases/post_processing.rs
@@ -24,6 +24,42 @@ struct NoopEliminationPlan {
     nodes_to_remove: HashSet<usize>,
 }
 
+impl NoopEliminationPlan {
+    /// Keep the nodes that have further outputs (e.g. the mask of a Dropout) which are read by
+    /// another node or are graph outputs: only the first output of a no-op can be rewired.
+    fn keep_nodes_with_used_outputs(
+        &mut self,
+        nodes: &[RawNode],
+        outputs: &[Argument],
+        node_output_map: &HashMap<String, (usize, usize)>,
+    ) {
+        let used: HashSet<&str> = nodes
+            .iter()
+            .flat_map(|node| node.inputs.iter())
+            .chain(outputs)
+            .map(|arg| arg.name.as_str())
+            .collect();
+
+        self.nodes_to_remove.retain(|&idx| {
+            let mut further_outputs = nodes[idx].outputs.iter().skip(1);
+            !further_outputs.any(|out| used.contains(out.name.as_str()))
+        });
+
+        for (idx, node) in nodes.iter().enumerate() {
+            if !self.nodes_to_remove.contains(&idx)
+                && let Some(output) = node.outputs.first()
+            {
+                self.rewire_map.remove(&output.name);
+            }
+        }
+        for (original_name, (idx, _)) in node_output_map.iter() {
+            if !self.nodes_to_remove.contains(idx) {
+                self.rewire_map.remove(original_name);
+            }
+        }
+    }
+}
+
 /// Rewire an argument to bypass removed Identity nodes
 fn rewire_argument(
     arg: &mut Argument,
@@ -224,7 +260,8 @@ pub(crate) fn post_process(
     // No-op elimination (includes Identity nodes and any processor-declared no-ops)
     log::debug!("Starting no-op elimination");
     {
-        let elimination_plan = plan_noop_elimination(&nodes, &node_output_map, simplify);
+        let mut elimination_plan = plan_noop_elimination(&nodes, &node_output_map, simplify);
+        elimination_plan.keep_nodes_with_used_outputs(&nodes, &outputs, &node_output_map);
         apply_noop_elimination(&mut nodes, &mut outputs, elimination_plan);
     }
 
-- 
2.43.0


From eeb15e0d45f57bc4e9a3373455a9ee211901a499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:53 +0000
Subject: [PATCH 25/69] fix: a branch or loop body returning an outer constant
 keeps it alive

---
 crates/onnx-ir/src/phases/post_processing.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/onnx-ir/src/phases/post_processing.rs b/crates/onnx-ir/src/phases/post_processing.rs
index 61db68a..6c1aa23 100644
--- a/crates/onnx-ir/src/phases/post_processing.rs
+++ b/crates/onnx-ir/src/phases/post_processing.rs
@@ -191,6 +191,14 @@ fn apply_noop_elimination(
             output_arg_map.insert(output.name.clone(), output.clone());
         }
     }
+    // A subgraph's no-op may read a constant of an enclosing graph, which no node here produces
+    for &idx in &nodes_to_remove {
+        if let Some(input) = nodes[idx].inputs.first().filter(|input| input.is_constant()) {
+            output_arg_map
+                .entry(input.name.clone())
+                .or_insert_with(|| input.clone());
+        }
+    }
 
     // Step 2: Resolve transitive rewiring
     // If A -> B and B -> C, we need to make sure we map A -> C directly
-- 
2.43.0


From f25bf4a8cdb7b67647af3c7e373c41dc3892921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:43 +0000
Subject: [PATCH 26/69] fix: eliminating x + 0 of a folded x keeps track of the
 constant

---
 crates/onnx-ir/src/phases/post_processing.rs    |  6 +++++-
 crates/onnx-ir/src/simplify/identity_element.rs | 17 ++++++++++-------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/onnx-ir/src/phases/post_processing.rs b/crates/onnx-ir/src/phases/post_processing.rs
index 6c1aa23..126b992 100644
--- a/crates/onnx-ir/src/phases/post_processing.rs
+++ b/crates/onnx-ir/src/phases/post_processing.rs
@@ -193,7 +193,11 @@ fn apply_noop_elimination(
     }
     // A subgraph's no-op may read a constant of an enclosing graph, which no node here produces
     for &idx in &nodes_to_remove {
-        if let Some(input) = nodes[idx].inputs.first().filter(|input| input.is_constant()) {
+        if let Some(input) = nodes[idx]
+            .inputs
+            .first()
+            .filter(|input| input.is_constant())
+        {
             output_arg_map
                 .entry(input.name.clone())
                 .or_insert_with(|| input.clone());
diff --git a/crates/onnx-ir/src/simplify/identity_element.rs b/crates/onnx-ir/src/simplify/identity_element.rs
index 96f255c..2c0ba42 100644
--- a/crates/onnx-ir/src/simplify/identity_element.rs
+++ b/crates/onnx-ir/src/simplify/identity_element.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use crate::ir::{NodeType, RawNode, TensorDataExt};
+use crate::ir::{Argument, NodeType, RawNode, TensorDataExt};
 
 /// Eliminate binary ops where one operand is an identity element.
 ///
@@ -14,7 +14,7 @@ use crate::ir::{NodeType, RawNode, TensorDataExt};
 /// When detected, rewires consumers to use the non-identity input directly.
 /// The eliminated node becomes dead and is cleaned up by dead node elimination.
 pub(crate) fn eliminate_identity_elements(mut nodes: Vec<RawNode>) -> Vec<RawNode> {
-    let mut rename: HashMap<String, String> = HashMap::new();
+    let mut rename: HashMap<String, Argument> = HashMap::new();
 
     for node in &nodes {
         if node.inputs.len() != 2 || node.outputs.len() != 1 {
@@ -67,15 +67,15 @@ pub(crate) fn eliminate_identity_elements(mut nodes: Vec<RawNode>) -> Vec<RawNod
             if !same_shape_without(node, keep_idx) {
                 continue;
             }
-            let keep_name = &node.inputs[keep_idx].name;
+            let kept = &node.inputs[keep_idx];
             log::debug!(
                 "Identity element elimination: {:?} '{}' (output '{}' -> input '{}')",
                 node.node_type,
                 node.name,
                 node.outputs[0].name,
-                keep_name,
+                kept.name,
             );
-            rename.insert(node.outputs[0].name.clone(), keep_name.clone());
+            rename.insert(node.outputs[0].name.clone(), kept.clone());
         }
     }
 
@@ -90,8 +90,11 @@ pub(crate) fn eliminate_identity_elements(mut nodes: Vec<RawNode>) -> Vec<RawNod
 
     for node in &mut nodes {
         for input in &mut node.inputs {
-            if let Some(new_name) = rename.get(&input.name) {
-                input.name = new_name.clone();
+            if let Some(kept) = rename.get(&input.name) {
+                input.name = kept.name.clone();
+                // The kept operand may be a constant (folded in this iteration)
+                input.value_source = kept.value_source;
+                input.value_store = kept.value_store.clone();
             }
         }
     }
-- 
2.43.0


From a6ff8d621593ce79157ccb2eeb8a1c0dc78166ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 27/69] fix: a static Slice with a negative step selects the
 elements ONNX names

---
 crates/burn-onnx/src/burn/node/slice.rs | 101 +++++++++++++-----------
 1 file changed, 57 insertions(+), 44 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/slice.rs b/crates/burn-onnx/src/burn/node/slice.rs
index 83008dd..c63dc09 100644
--- a/crates/burn-onnx/src/burn/node/slice.rs
+++ b/crates/burn-onnx/src/burn/node/slice.rs
@@ -30,6 +30,61 @@ impl NodeCodegen for onnx_ir::slice::SliceNode {
     }
 }
 
+/// Slice expression of one axis with static bounds.
+fn static_range(start: i64, end: i64, step: i64) -> TokenStream {
+    if step < 0 {
+        return static_reverse_range(start, end, step);
+    }
+
+    let start = start.to_tokens();
+
+    // Check for i64::MAX which means "to the end"
+    // Slice indices are i32
+    if end == i64::MAX {
+        if step == 1 {
+            quote! { #start.. }
+        } else {
+            let step = step.to_tokens();
+            quote! { #start..;#step }
+        }
+    } else if end > i32::MAX as i64 {
+        panic!("Slice end index {} exceeds i32::MAX", end);
+    } else {
+        let end = end.to_tokens();
+        if step == 1 {
+            quote! { #start..#end }
+        } else {
+            let step = step.to_tokens();
+            quote! { #start..#end;#step }
+        }
+    }
+}
+
+/// Slice expression of one axis with static bounds and a negative step.
+///
+/// ONNX walks down from `start` (inclusive) to `end` (exclusive). Burn selects the ascending
+/// range and reverses it, so the bounds swap roles and both move up by one.
+fn static_reverse_range(start: i64, end: i64, step: i64) -> TokenStream {
+    // Ascending bounds already are a Burn range
+    if 0 <= start && start < end {
+        let (start, end, step) = (start.to_tokens(), end.to_tokens(), step.to_tokens());
+        return quote! { #start..#end;#step };
+    }
+
+    // -1 is the last element: everything up to it is selected
+    let upper = (start != -1 && start < i32::MAX as i64).then(|| (start + 1).to_tokens());
+    let lower = match end {
+        // -1 is the last element, which already ends the walk
+        -1 => i32::MAX as i64,
+        // Far below any dimension: down to the first element
+        e if e <= i32::MIN as i64 => 0,
+        e => e + 1,
+    }
+    .to_tokens();
+    let step = step.to_tokens();
+    quote! { #lower..#upper;#step }
+}
+
 fn generate_tensor_slice(
     node: &onnx_ir::slice::SliceNode,
     input_arg: &Argument,
@@ -57,29 +112,8 @@ fn generate_tensor_slice(
                     if let Some(&axis) = axes.get(idx) {
                         let axis_idx = axis as usize;
                         if axis_idx < rank {
-                            let start = start.to_tokens();
                             let step = *steps.get(idx).expect("Step value missing for axis");
-
-                            // Check for i64::MAX which means "to the end"
-                            // Slice indices are i32
-                            if *end == i64::MAX {
-                                if step == 1 {
-                                    ranges[axis_idx] = quote! { #start.. };
-                                } else {
-                                    let step = step.to_tokens();
-                                    ranges[axis_idx] = quote! { #start..;#step };
-                                }
-                            } else if *end > i32::MAX as i64 {
-                                panic!("Slice end index {} exceeds i32::MAX", end);
-                            } else {
-                                let end = end.to_tokens();
-                                if step == 1 {
-                                    ranges[axis_idx] = quote! { #start..#end };
-                                } else {
-                                    let step = step.to_tokens();
-                                    ranges[axis_idx] = quote! { #start..#end;#step };
-                                }
-                            }
+                            ranges[axis_idx] = static_range(*start, *end, step);
                         }
                     }
                 }
@@ -87,29 +121,8 @@ fn generate_tensor_slice(
                 // No axes provided - use default behavior (slice first dimensions)
                 let limit = starts.len().min(ends.len()).min(rank);
                 for (i, range) in ranges.iter_mut().enumerate().take(limit) {
-                    let start = starts[i].to_tokens();
                     let step = *steps.get(i).expect("Step value missing for dimension");
-
-                    // Check for i64::MAX which means "to the end"
-                    // Slice indices are i32
-                    if ends[i] == i64::MAX {
-                        if step == 1 {
-                            *range = quote! { #start.. };
-                        } else {
-                            let step = step.to_tokens();
-                            *range = quote! { #start..;#step };
-                        }
-                    } else if ends[i] > i32::MAX as i64 {
-                        panic!("Slice end index {} exceeds i32::MAX", ends[i]);
-                    } else {
-                        let end = ends[i].to_tokens();
-                        if step == 1 {
-                            *range = quote! { #start..#end };
-                        } else {
-                            let step = step.to_tokens();
-                            *range = quote! { #start..#end;#step };
-                        }
-                    }
+                    *range = static_range(starts[i], ends[i], step);
                 }
             }
         }
-- 
2.43.0


From 67ee8d14a25b990aeccba9d3865e30733056160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 28/69] fix: ReduceLogSumExp without kept dimensions subtracts
 the maximum along its own axes

---
 crates/burn-onnx/src/burn/node/reduce.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/reduce.rs b/crates/burn-onnx/src/burn/node/reduce.rs
index ed70cf8..3d015f6 100644
--- a/crates/burn-onnx/src/burn/node/reduce.rs
+++ b/crates/burn-onnx/src/burn/node/reduce.rs
@@ -289,13 +289,23 @@ macro_rules! impl_reduce_node {
                             _ => panic!("Reduce node input must be a tensor"),
                         };
 
+                        // The maximum keeps its reduced dimensions so that it broadcasts
+                        // against the input it is subtracted from.
                         let input_max_reduced = ReductionType::Max.forward_reduce(
                             quote! { input_double.clone() },
                             dims.clone(),
-                            keepdims,
+                            true,
+                            input_rank,
                             input_rank,
-                            output_rank,
                         );
+                        let max_output = if keepdims {
+                            quote! { input_max_reduced }
+                        } else if dims.is_empty() {
+                            quote! { input_max_reduced.reshape([1]) }
+                        } else {
+                            let dims_tokens = dims.to_tokens();
+                            quote! { input_max_reduced.squeeze_dims::<#output_rank>(&#dims_tokens) }
+                        };
 
                         let exp_reduced = ReductionType::Sum.forward_reduce(
                             quote! { input_exp_reduced },
@@ -312,7 +322,7 @@ macro_rules! impl_reduce_node {
                             let input_max_reduced = #input_max_reduced;
                             let input_exp_reduced = (input_double - input_max_reduced.clone().expand(input_shape)).exp();
                             let exp_sum_reduced = #exp_reduced;
-                            (input_max_reduced + exp_sum_reduced.log())
+                            (#max_output + exp_sum_reduced.log())
                         };
 
                         match &input_arg.ty {
-- 
2.43.0


From 797f89fc79c13f50c180abc53898c7c96bca585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 29/69] fix: Range with a static negative delta counts down

---
 crates/burn-onnx/src/burn/node/range.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/burn-onnx/src/burn/node/range.rs b/crates/burn-onnx/src/burn/node/range.rs
index cfead8c..a2e00c3 100644
--- a/crates/burn-onnx/src/burn/node/range.rs
+++ b/crates/burn-onnx/src/burn/node/range.rs
@@ -45,6 +45,16 @@ impl NodeCodegen for onnx_ir::node::range::RangeNode {
         let limit = range_param_tokens(&self.config.limit, &self.inputs, scope);
         let delta = range_param_tokens(&self.config.delta, &self.inputs, scope);
 
+        // A descending range is the negation of an ascending one
+        if let onnx_ir::node::range::RangeInput::Static(step) = &self.config.delta
+            && *step < 0
+        {
+            let step = Literal::usize_suffixed(step.unsigned_abs() as usize);
+            return quote! {
+                let #output = Tensor::<B, 1, Int>::arange_step(-(#start)..-(#limit), #step, &*self.device).neg();
+            };
+        }
+
         quote! {
             let #output = Tensor::arange_step(#start..#limit, #delta as usize, &*self.device);
         }
-- 
2.43.0


From 5f04cf43289dc266bd45855e893e5cb1ac1ff4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 30/69] fix: GatherElements and ScatterElements accept indices
 smaller than the data

---
 .../src/burn/node/gather_elements.rs          | 32 +++++++++++++++++++
 .../src/burn/node/scatter_elements.rs         | 21 +++++++++---
 2 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/gather_elements.rs b/crates/burn-onnx/src/burn/node/gather_elements.rs
index 6482257..607fbe9 100644
--- a/crates/burn-onnx/src/burn/node/gather_elements.rs
+++ b/crates/burn-onnx/src/burn/node/gather_elements.rs
@@ -15,12 +15,44 @@ impl NodeCodegen for onnx_ir::gather_elements::GatherElementsNode {
         let index = scope.arg(&self.inputs[1]);
         let output = arg_to_ident(self.outputs.first().unwrap());
 
+        // Burn's gather takes indices that span the input in every other dimension, ONNX indices
+        // may cover only its leading part
+        let rank = self.inputs[0].ty.rank();
+        if covers_part(&self.inputs[0], &self.inputs[1], self.config.axis) {
+            let ranges = (0..rank).map(|d| {
+                if d == self.config.axis {
+                    quote! { 0..input_dims[#d] }
+                } else {
+                    quote! { 0..index_dims[#d] }
+                }
+            });
+            return quote! {
+                let #output = {
+                    let input_dims = #input.dims();
+                    let index_dims = #index.dims();
+                    #input.slice([#(#ranges),*]).gather(#dim, #index)
+                };
+            };
+        }
+
         quote! {
             let #output = #input.gather(#dim, #index);
         }
     }
 }
 
+/// Whether the indices are known to cover only part of the data in a dimension other than `axis`.
+pub(crate) fn covers_part(data: &Argument, indices: &Argument, axis: usize) -> bool {
+    match (data.ty.static_shape(), indices.ty.static_shape()) {
+        (Some(data), Some(indices)) => data
+            .iter()
+            .zip(indices)
+            .enumerate()
+            .any(|(d, (n, i))| d != axis && n.is_some() && i.is_some() && n != i),
+        _ => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::super::test_helpers::*;
diff --git a/crates/burn-onnx/src/burn/node/scatter_elements.rs b/crates/burn-onnx/src/burn/node/scatter_elements.rs
index 6024b13..746881b 100644
--- a/crates/burn-onnx/src/burn/node/scatter_elements.rs
+++ b/crates/burn-onnx/src/burn/node/scatter_elements.rs
@@ -1,3 +1,4 @@
+use super::gather_elements::covers_part;
 use super::prelude::*;
 use crate::burn::TensorKind;
 use onnx_ir::scatter_elements::ScatterElementsReduction;
@@ -33,23 +34,29 @@ impl NodeCodegen for onnx_ir::scatter_elements::ScatterElementsNode {
             );
         }
 
+        // Burn's scatter takes indices that span the data in every other dimension, ONNX indices may
+        // cover only its leading part
+        let partial = covers_part(data_arg, &self.inputs[1], self.config.axis);
+
         match self.config.reduction {
             // Native scatter for Add reduction
-            ScatterElementsReduction::Add => quote! {
+            ScatterElementsReduction::Add if !partial => quote! {
                 let #output = #data.scatter(#dim, #indices, #updates, burn::tensor::IndexingUpdateOp::Add);
             },
 
             // For None with numeric types: gather current values, scatter-add the diff
             // At targets: data[p] + (updates[p] - data[p]) = updates[p]
             // Elsewhere: unchanged
-            ScatterElementsReduction::None if !matches!(data_kind, TensorKind::Bool) => quote! {
+            ScatterElementsReduction::None
+                if !partial && !matches!(data_kind, TensorKind::Bool) =>
+            quote! {
                 let #output = {
                     let gathered = #data.clone().gather(#dim, #indices.clone());
                     #data.scatter(#dim, #indices, #updates - gathered, burn::tensor::IndexingUpdateOp::Add)
                 };
             },
 
-            // Bool None and Mul/Max/Min need element-by-element loop
+            // Bool None, Mul/Max/Min and partial indices need element-by-element loop
             _ => {
                 let reduction_body = match self.config.reduction {
                     ScatterElementsReduction::None => quote! {
@@ -58,6 +65,13 @@ impl NodeCodegen for onnx_ir::scatter_elements::ScatterElementsNode {
                             update_val,
                         );
                     },
+                    ScatterElementsReduction::Add => quote! {
+                        let existing = output_flat.clone().narrow(0, target_offset, 1);
+                        output_flat = output_flat.slice_assign(
+                            [target_offset..target_offset + 1],
+                            existing.add(update_val),
+                        );
+                    },
                     ScatterElementsReduction::Mul => quote! {
                         let existing = output_flat.clone().narrow(0, target_offset, 1);
                         output_flat = output_flat.slice_assign(
@@ -83,7 +97,6 @@ impl NodeCodegen for onnx_ir::scatter_elements::ScatterElementsNode {
                             result,
                         );
                     },
-                    ScatterElementsReduction::Add => unreachable!(),
                 };
 
                 quote! {
-- 
2.43.0


From 18f45615c53eaf3bf16875ca682ec5f30c116446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 31/69] fix: Cast between native scalars converts values as
 ONNX does

---
 crates/burn-onnx/src/burn/node/cast.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/cast.rs b/crates/burn-onnx/src/burn/node/cast.rs
index 0ca42a4..cd58709 100644
--- a/crates/burn-onnx/src/burn/node/cast.rs
+++ b/crates/burn-onnx/src/burn/node/cast.rs
@@ -28,9 +28,7 @@ impl NodeCodegen for onnx_ir::cast::CastNode {
                     || (input_dtype.is_float()
                         && self.config.to.is_float()
                         && input_dtype != &DType::F64
-                        && self.config.to != DType::F64)
-                    || ((input_dtype.is_int() || input_dtype.is_uint())
-                        && (self.config.to.is_int() || self.config.to.is_uint()));
+                        && self.config.to != DType::F64);
 
                 if is_noop {
                     // No-op cast within same scalar "family".
@@ -50,8 +48,15 @@ impl NodeCodegen for onnx_ir::cast::CastNode {
                         DType::Bool => quote! { bool },
                         _ => panic!("Unsupported DType for Cast: {:?}", self.config.to),
                     };
+                    // Rust converts neither numbers to bool nor bool to floats with `as`
+                    let value = match (input_dtype, self.config.to) {
+                        (dtype, DType::Bool) if dtype.is_float() => quote! { #input != 0.0 },
+                        (_, DType::Bool) => quote! { #input != 0 },
+                        (DType::Bool, to) if to.is_float() => quote! { #input as u8 as #ty },
+                        _ => quote! { #input as #ty },
+                    };
                     quote! {
-                        let #output = #input as #ty;
+                        let #output = #value;
                     }
                 }
             }
-- 
2.43.0


From 4ef15f5c01ecdb974de7b31973a478a9a3dcfdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:33 +0000
Subject: [PATCH 32/69] fix: Unsqueeze places several negative axes and scalars
 as ONNX does

---
 crates/burn-onnx/src/burn/node/unsqueeze.rs | 35 +++++++++++++++------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/unsqueeze.rs b/crates/burn-onnx/src/burn/node/unsqueeze.rs
index 9b5251a..79abcff 100644
--- a/crates/burn-onnx/src/burn/node/unsqueeze.rs
+++ b/crates/burn-onnx/src/burn/node/unsqueeze.rs
@@ -18,7 +18,19 @@ impl NodeCodegen for onnx_ir::unsqueeze::UnsqueezeNode {
 
         // Generate axes token stream
         let axes = match &self.config {
-            onnx_ir::unsqueeze::UnsqueezeConfig::Static(static_axes) => static_axes.to_tokens(),
+            onnx_ir::unsqueeze::UnsqueezeConfig::Static(static_axes) => {
+                // ONNX counts every negative axis from the end of the output, while Burn
+                // counts further ones from before the axes it has already placed
+                let output_rank = match &output_arg.ty {
+                    ArgType::Tensor(tensor) => tensor.rank as i64,
+                    _ => static_axes.len() as i64,
+                };
+                let axes: Vec<i64> = static_axes
+                    .iter()
+                    .map(|&axis| if axis < 0 { axis + output_rank } else { axis })
+                    .collect();
+                axes.to_tokens()
+            }
             onnx_ir::unsqueeze::UnsqueezeConfig::Runtime(axes_ref) => {
                 let axes_arg = &self.inputs[axes_ref.input_index];
                 match &axes_arg.ty {
@@ -59,7 +71,7 @@ impl NodeCodegen for onnx_ir::unsqueeze::UnsqueezeNode {
                     let #output: #output_type = #input.unsqueeze_dims::<#output_rank>(&#axes);
                 }
             }
-            (ArgType::ScalarNative(_scalar_type), ArgType::Tensor(output_tensor)) => {
+            (ArgType::ScalarNative(scalar_type), ArgType::Tensor(output_tensor)) => {
                 let scalar_name = arg_to_ident(input_arg);
                 let output_rank = output_tensor.rank.to_tokens();
                 let dtype_tokens = output_tensor.dtype.to_tokens();
@@ -69,30 +81,35 @@ impl NodeCodegen for onnx_ir::unsqueeze::UnsqueezeNode {
                     dtype if dtype.is_int() || dtype.is_uint() => {
                         // Cast to i64 for TensorData, then from_data_dtype converts to target dtype
                         quote! {
-                            Tensor::<B, #output_rank, Int>::from_data_dtype(
+                            Tensor::<B, 1, Int>::from_data_dtype(
                                 burn::tensor::TensorData::from([#scalar_name as i64]),
                                 &self.device,
                                 #dtype_tokens
-                            ).unsqueeze()
+                            ).unsqueeze::<#output_rank>()
                         }
                     }
                     dtype if dtype.is_float() => {
                         // Cast to f64 for TensorData, then from_data_dtype converts to target dtype
                         quote! {
-                            Tensor::<B, #output_rank>::from_data_dtype(
+                            Tensor::<B, 1>::from_data_dtype(
                                 burn::tensor::TensorData::from([#scalar_name as f64]),
                                 &self.device,
                                 #dtype_tokens
-                            ).unsqueeze()
+                            ).unsqueeze::<#output_rank>()
                         }
                     }
                     dtype if dtype.is_bool() => {
+                        let value = if scalar_type.is_bool() {
+                            quote! { #scalar_name }
+                        } else {
+                            quote! { #scalar_name != 0 }
+                        };
                         quote! {
-                            Tensor::<B, #output_rank, Bool>::from_data_dtype(
-                                burn::tensor::TensorData::from([#scalar_name != 0]),
+                            Tensor::<B, 1, Bool>::from_data_dtype(
+                                burn::tensor::TensorData::from([#value]),
                                 &self.device,
                                 #dtype_tokens
-                            ).unsqueeze()
+                            ).unsqueeze::<#output_rank>()
                         }
                     }
                     _ => panic!("Unsupported tensor dtype: {:?}", output_tensor.dtype),
-- 
2.43.0


From b264c2fae471bee64a2eb29b59dcb44f2a307023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:33 +0000
Subject: [PATCH 33/69] fix: Gemm accepts a constant scalar C

---
 crates/burn-onnx/src/burn/node/gemm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/gemm.rs b/crates/burn-onnx/src/burn/node/gemm.rs
index 03da5d7..cefbe20 100644
--- a/crates/burn-onnx/src/burn/node/gemm.rs
+++ b/crates/burn-onnx/src/burn/node/gemm.rs
@@ -46,7 +46,7 @@ impl NodeCodegen for onnx_ir::gemm::GemmNode {
         if let Some(c_input) = self.inputs.get(2) {
             // Get C as either tensor or scalar depending on its type
             let c = match &c_input.ty {
-                onnx_ir::ir::ArgType::Tensor(_) => {
+                onnx_ir::ir::ArgType::Tensor(_) | onnx_ir::ir::ArgType::ScalarTensor(_) => {
                     let c_tensor = scope.arg(c_input);
                     quote! { #c_tensor.unsqueeze() }
                 }
-- 
2.43.0


From 4d5b3e2615595e1ea75b93ce42852fafdb868c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:33 +0000
Subject: [PATCH 34/69] fix: read 8- and 16-bit integer constants as integers

---
 crates/onnx-ir/src/ir/tensor_data_ext.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/ir/tensor_data_ext.rs b/crates/onnx-ir/src/ir/tensor_data_ext.rs
index 69a8613..d4e3d37 100644
--- a/crates/onnx-ir/src/ir/tensor_data_ext.rs
+++ b/crates/onnx-ir/src/ir/tensor_data_ext.rs
@@ -90,7 +90,9 @@ impl TensorDataExt for burn_tensor::TensorData {
     fn to_i64_vec(&self) -> Result<Vec<i64>, burn_tensor::DataError> {
         use burn_tensor::DType;
         match self.dtype {
-            DType::I64 | DType::I32 => self.clone().convert::<i64>().to_vec(),
+            DType::I64 | DType::I32 | DType::I8 | DType::U8 | DType::U16 => {
+                self.clone().convert::<i64>().to_vec()
+            }
             other => Err(burn_tensor::DataError::TypeMismatch(format!(
                 "Cannot convert {:?} to Vec<i64>",
                 other
-- 
2.43.0


From 556a05c88c163c302293c2d4adb67ef5d2c0d815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:33 +0000
Subject: [PATCH 35/69] fix: optional inputs left out as trailing empty names
 are absent

---
 crates/onnx-ir/src/proto_conversion.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/proto_conversion.rs b/crates/onnx-ir/src/proto_conversion.rs
index 0967446..d8206e0 100644
--- a/crates/onnx-ir/src/proto_conversion.rs
+++ b/crates/onnx-ir/src/proto_conversion.rs
@@ -613,7 +613,16 @@ pub fn convert_vec_attrs_proto(attrs: Vec<AttributeProto>) -> Attributes {
 pub fn convert_node_proto(node: &NodeProto, graph_data: &GraphState) -> RawNode {
     let name = sanitize_name(&node.name);
 
-    let inputs = node.input.iter().map(|x| graph_data.init_in(x)).collect();
+    // Optional inputs left out at the end may also be written as empty names; a Loop always has
+    // its first two inputs
+    let required = if node.op_type == "Loop" { 2 } else { 0 };
+    let given = node.input.iter().rposition(|x| !x.is_empty());
+    let inputs = node
+        .input
+        .iter()
+        .take(given.map_or(0, |last| last + 1).max(required))
+        .map(|x| graph_data.init_in(x))
+        .collect();
 
     let outputs = node
         .output
-- 
2.43.0


From d40ff8692744c093a606402690d090b437f78d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:33 +0000
Subject: [PATCH 36/69] fix: MatMulInteger takes a lone second zero point and
 per-row zero points

---
 crates/burn-onnx/src/burn/node/matmul_integer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/matmul_integer.rs b/crates/burn-onnx/src/burn/node/matmul_integer.rs
index 938a3ee..35b75c5 100644
--- a/crates/burn-onnx/src/burn/node/matmul_integer.rs
+++ b/crates/burn-onnx/src/burn/node/matmul_integer.rs
@@ -31,9 +31,16 @@ impl NodeCodegen for onnx_ir::matmulinteger::MatMulIntegerNode {
 
         // Centered inputs: cast to output dtype, subtract zero-points if provided.
         // When zero-points are absent (default 0), just cast without subtraction.
-        let lhs_centered = if let Some(zp_input) = self.inputs.get(2) {
+        let lhs_centered = if let Some(zp_input) = self.inputs.get(2).filter(|a| !a.is_optional()) {
             let zp = scope.arg(zp_input);
-            let zp_expr = if lhs_rank > 1 {
+            let per_row = matches!(
+                zp_input.ty.static_shape_known().as_deref(),
+                Some(&[rows]) if rows > 1
+            );
+            let zp_expr = if lhs_rank > 1 && per_row {
+                // One zero point for each row of the matrix
+                quote! { (#zp).cast(#output_dtype).unsqueeze_dim::<2>(1).unsqueeze::<#lhs_rank>() }
+            } else if lhs_rank > 1 {
                 quote! { (#zp).cast(#output_dtype).unsqueeze::<#lhs_rank>() }
             } else {
                 quote! { (#zp).cast(#output_dtype) }
@@ -43,7 +50,7 @@ impl NodeCodegen for onnx_ir::matmulinteger::MatMulIntegerNode {
             quote! { (#lhs).cast(#output_dtype) }
         };
 
-        let rhs_centered = if let Some(zp_input) = self.inputs.get(3) {
+        let rhs_centered = if let Some(zp_input) = self.inputs.get(3).filter(|a| !a.is_optional()) {
             let zp = scope.arg(zp_input);
             let zp_expr = if rhs_rank > 1 {
                 quote! { (#zp).cast(#output_dtype).unsqueeze::<#rhs_rank>() }
-- 
2.43.0


From 7b7c66e0081360fb3dcb9cef7a3e49c69ff4268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:07 +0000
Subject: [PATCH 37/69] fix: a reduction naming every axis without kept
 dimensions gives a scalar

---
 crates/burn-onnx/src/burn/node/reduce.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/reduce.rs b/crates/burn-onnx/src/burn/node/reduce.rs
index 3d015f6..efb6196 100644
--- a/crates/burn-onnx/src/burn/node/reduce.rs
+++ b/crates/burn-onnx/src/burn/node/reduce.rs
@@ -133,8 +133,12 @@ macro_rules! impl_reduce_node {
                 let input = scope.arg(input_arg);
                 let output = arg_to_ident(output_arg);
 
-                let dims = self.config.dims.clone();
                 let keepdims = self.config.keepdims;
+                let mut dims = self.config.dims.clone();
+                if !keepdims && dims.len() == input_rank {
+                    // Naming every dimension is the same as naming none
+                    dims.clear();
+                }
 
                 // For boolean tensors with Min/Max reduction, use all()/any()
                 if is_bool && matches!($reduction_type, ReductionType::Min | ReductionType::Max) {
-- 
2.43.0


From 83826c3033247be2dc6f012f5c3cf4cee1e19c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:11 +0000
Subject: [PATCH 38/69] fix: BitShift broadcasts tensors of different ranks

---
 crates/burn-onnx/src/burn/node/bitshift.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/bitshift.rs b/crates/burn-onnx/src/burn/node/bitshift.rs
index 2331a94..2119362 100644
--- a/crates/burn-onnx/src/burn/node/bitshift.rs
+++ b/crates/burn-onnx/src/burn/node/bitshift.rs
@@ -14,9 +14,19 @@ impl NodeCodegen for onnx_ir::bitshift::BitShiftNode {
         let rhs_arg = self.inputs.get(1).unwrap();
         let output = arg_to_ident(self.outputs.first().unwrap());
 
-        let lhs = scope.arg(lhs_arg);
-
-        let rhs = scope.arg(rhs_arg);
+        let mut lhs = scope.arg(lhs_arg);
+
+        let mut rhs = scope.arg(rhs_arg);
+
+        // Tensors of different ranks are aligned at their last dimensions
+        if lhs_arg.ty.is_on_device() && rhs_arg.ty.is_on_device() {
+            let (lhs_rank, rhs_rank) = (lhs_arg.ty.rank(), rhs_arg.ty.rank());
+            if lhs_rank < rhs_rank {
+                lhs = quote! { #lhs.unsqueeze::<#rhs_rank>() };
+            } else if rhs_rank < lhs_rank {
+                rhs = quote! { #rhs.unsqueeze::<#lhs_rank>() };
+            }
+        }
 
         // Determine operation based on direction
         let operation = match self.config.direction {
-- 
2.43.0


From cd38f695a97672fd206a7acde2efd30a78edd4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:11 +0000
Subject: [PATCH 39/69] fix: Sum and Mean broadcast tensors of different ranks

---
 crates/burn-onnx/src/burn/node/mean.rs | 11 ++++++++++-
 crates/burn-onnx/src/burn/node/sum.rs  | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/mean.rs b/crates/burn-onnx/src/burn/node/mean.rs
index 67bd836..9f0b829 100644
--- a/crates/burn-onnx/src/burn/node/mean.rs
+++ b/crates/burn-onnx/src/burn/node/mean.rs
@@ -10,7 +10,16 @@ impl NodeCodegen for onnx_ir::node::mean::MeanNode {
     }
 
     fn forward(&self, scope: &mut ScopeAtPosition<'_>) -> TokenStream {
-        let inputs = self.inputs.iter().map(|arg| scope.arg(arg));
+        let rank = self.outputs.first().unwrap().ty.rank();
+        let inputs = self.inputs.iter().map(|arg| {
+            let input = scope.arg(arg);
+            if arg.ty.is_on_device() && arg.ty.rank() < rank {
+                // Tensors of different ranks are aligned at their last dimensions
+                quote! { #input.unsqueeze::<#rank>() }
+            } else {
+                input
+            }
+        });
 
         let output = arg_to_ident(self.outputs.first().unwrap());
         let inputs_len = self.inputs.len() as u32;
diff --git a/crates/burn-onnx/src/burn/node/sum.rs b/crates/burn-onnx/src/burn/node/sum.rs
index f98d579..c0b96c2 100644
--- a/crates/burn-onnx/src/burn/node/sum.rs
+++ b/crates/burn-onnx/src/burn/node/sum.rs
@@ -10,7 +10,16 @@ impl NodeCodegen for onnx_ir::node::sum::SumNode {
     }
 
     fn forward(&self, scope: &mut ScopeAtPosition<'_>) -> TokenStream {
-        let inputs = self.inputs.iter().map(|arg| scope.arg(arg));
+        let rank = self.outputs.first().unwrap().ty.rank();
+        let inputs = self.inputs.iter().map(|arg| {
+            let input = scope.arg(arg);
+            if arg.ty.is_on_device() && arg.ty.rank() < rank {
+                // Tensors of different ranks are aligned at their last dimensions
+                quote! { #input.unsqueeze::<#rank>() }
+            } else {
+                input
+            }
+        });
 
         let output = arg_to_ident(self.outputs.first().unwrap());
 
-- 
2.43.0


From cf6e8cfd0813d097188ee047db9b91b8363cf1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:32 +0000
Subject: [PATCH 40/69] fix: Relu of integer tensors generated code that does
 not compile

---
 crates/burn-onnx/src/burn/node/relu.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/relu.rs b/crates/burn-onnx/src/burn/node/relu.rs
index 0f6fff7..f3182f1 100644
--- a/crates/burn-onnx/src/burn/node/relu.rs
+++ b/crates/burn-onnx/src/burn/node/relu.rs
@@ -10,9 +10,17 @@ impl NodeCodegen for onnx_ir::relu::ReluNode {
     }
 
     fn forward(&self, scope: &mut ScopeAtPosition<'_>) -> TokenStream {
-        let input = scope.arg(self.inputs.first().unwrap());
+        let input_arg = self.inputs.first().unwrap();
+        let input = scope.arg(input_arg);
         let output = arg_to_ident(self.outputs.first().unwrap());
 
+        // The activation function is only defined for float tensors
+        if matches!(&input_arg.ty, ArgType::Tensor(t) if t.dtype.is_int()) {
+            return quote! {
+                let #output = #input.clamp_min(0);
+            };
+        }
+
         quote! {
             let #output = burn::tensor::activation::relu(#input);
         }
-- 
2.43.0


From 3dc77c87a4d378ffe658ea1296e1befae2e6bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 41/69] fix: return a tensor listed several times among the
 graph outputs

---
 crates/burn-onnx/src/burn/argument_helpers.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/burn-onnx/src/burn/argument_helpers.rs b/crates/burn-onnx/src/burn/argument_helpers.rs
index 4dabd2b..b4ab0c7 100644
--- a/crates/burn-onnx/src/burn/argument_helpers.rs
+++ b/crates/burn-onnx/src/burn/argument_helpers.rs
@@ -143,13 +143,28 @@ pub fn codegen_return_type(outputs: &[Argument]) -> TokenStream {
 ///
 /// Single output: `name`
 /// Multiple outputs: `(name1, name2, ...)`
+///
+/// A tensor that is returned more than once is cloned for every position but its last.
 pub fn codegen_return_expr(outputs: &[Argument]) -> TokenStream {
     if outputs.len() == 1 {
         let name = arg_ident(&outputs[0]);
         quote! { #name }
     } else {
-        let names: Vec<_> = outputs.iter().map(arg_ident).collect();
-        quote! { (#(#names),*) }
+        let values: Vec<_> = outputs
+            .iter()
+            .enumerate()
+            .map(|(i, arg)| {
+                let name = arg_ident(arg);
+                let returned_again = outputs[i + 1..].iter().any(|later| later.name == arg.name);
+                match arg.ty {
+                    ArgType::Tensor(_) | ArgType::ScalarTensor(_) if returned_again => {
+                        quote! { #name.clone() }
+                    }
+                    _ => quote! { #name },
+                }
+            })
+            .collect();
+        quote! { (#(#values),*) }
     }
 }
 
-- 
2.43.0


From 2366e49ae2f9e3e314d4c97a016413c95771eb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:11 +0000
Subject: [PATCH 42/69] fix: clone rank-0 graph outputs that are also used by
 nodes

---
 crates/burn-onnx/src/burn/graph.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/graph.rs b/crates/burn-onnx/src/burn/graph.rs
index af102f4..1adb3ba 100644
--- a/crates/burn-onnx/src/burn/graph.rs
+++ b/crates/burn-onnx/src/burn/graph.rs
@@ -267,7 +267,10 @@ impl BurnGraph {
         // Register graph tensor output with the last node position
         self.graph_output_args
             .iter()
-            .filter(|arg| matches!(arg.ty, ArgType::Tensor(_) | ArgType::ScalarTensor(_)))
+            .filter(|arg| {
+                matches!(arg.ty, ArgType::Tensor(_) | ArgType::ScalarTensor(_))
+                    || self.boundary_output_conversions.contains_key(&arg.name)
+            })
             .for_each(|arg| {
                 self.scope.tensor_register_future_use(arg, self.nodes.len());
             });
@@ -555,7 +558,12 @@ impl BurnGraph {
         // Insert ScalarTensor -> ScalarNative conversions at graph boundary.
         // Internal nodes produce Tensor<B, 1> but the graph signature expects native types.
         let mut boundary_conversions = quote! {};
+        let mut converted = std::collections::HashSet::new();
         for arg in &self.graph_output_args {
+            // An output listed several times is converted once
+            if !converted.insert(&arg.name) {
+                continue;
+            }
             if let Some(dtype) = self.boundary_output_conversions.get(&arg.name) {
                 let name = crate::burn::arg_ident(arg);
                 let convert = crate::burn::on_device_to_native(quote! { #name }, dtype);
-- 
2.43.0


From 888c73c8cc450a51dedae10cf8b37174d3413a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:46 +0000
Subject: [PATCH 43/69] fix: Not, BitwiseNot, Log and Sign of native scalars

---
 crates/burn-onnx/src/burn/node/bitwisenot.rs |  9 +++++++--
 crates/burn-onnx/src/burn/node/log.rs        |  9 +++++++--
 crates/burn-onnx/src/burn/node/not.rs        |  9 +++++++--
 crates/burn-onnx/src/burn/node/sign.rs       | 16 ++++++++++++++--
 4 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/bitwisenot.rs b/crates/burn-onnx/src/burn/node/bitwisenot.rs
index adbc330..132d842 100644
--- a/crates/burn-onnx/src/burn/node/bitwisenot.rs
+++ b/crates/burn-onnx/src/burn/node/bitwisenot.rs
@@ -13,8 +13,13 @@ impl NodeCodegen for onnx_ir::node::bitwisenot::BitwiseNotNode {
         let input = scope.arg(self.inputs.first().unwrap());
         let output = arg_to_ident(self.outputs.first().unwrap());
 
-        quote! {
-            let #output = #input.bitwise_not();
+        match &self.inputs.first().unwrap().ty {
+            ArgType::ScalarNative(_) => quote! {
+                let #output = !#input;
+            },
+            _ => quote! {
+                let #output = #input.bitwise_not();
+            },
         }
     }
 }
diff --git a/crates/burn-onnx/src/burn/node/log.rs b/crates/burn-onnx/src/burn/node/log.rs
index 1493205..1a6374c 100644
--- a/crates/burn-onnx/src/burn/node/log.rs
+++ b/crates/burn-onnx/src/burn/node/log.rs
@@ -13,8 +13,13 @@ impl NodeCodegen for onnx_ir::node::log::LogNode {
         let input = scope.arg(self.inputs.first().unwrap());
         let output = arg_to_ident(self.outputs.first().unwrap());
 
-        quote! {
-            let #output = #input.log();
+        match &self.inputs.first().unwrap().ty {
+            ArgType::ScalarNative(_) => quote! {
+                let #output = #input.ln();
+            },
+            _ => quote! {
+                let #output = #input.log();
+            },
         }
     }
 }
diff --git a/crates/burn-onnx/src/burn/node/not.rs b/crates/burn-onnx/src/burn/node/not.rs
index 1e4bb34..beab239 100644
--- a/crates/burn-onnx/src/burn/node/not.rs
+++ b/crates/burn-onnx/src/burn/node/not.rs
@@ -13,8 +13,13 @@ impl NodeCodegen for onnx_ir::node::not::NotNode {
         let input = scope.arg(self.inputs.first().unwrap());
         let output = arg_to_ident(self.outputs.first().unwrap());
 
-        quote! {
-            let #output = #input.bool_not();
+        match &self.inputs.first().unwrap().ty {
+            ArgType::ScalarNative(_) => quote! {
+                let #output = !#input;
+            },
+            _ => quote! {
+                let #output = #input.bool_not();
+            },
         }
     }
 }
diff --git a/crates/burn-onnx/src/burn/node/sign.rs b/crates/burn-onnx/src/burn/node/sign.rs
index 53e30a3..efb9adb 100644
--- a/crates/burn-onnx/src/burn/node/sign.rs
+++ b/crates/burn-onnx/src/burn/node/sign.rs
@@ -13,8 +13,20 @@ impl NodeCodegen for onnx_ir::node::sign::SignNode {
         let input = scope.arg(self.inputs.first().unwrap());
         let output = arg_to_ident(self.outputs.first().unwrap());
 
-        quote! {
-            let #output = #input.sign();
+        match &self.inputs.first().unwrap().ty {
+            // `signum` of a float maps zero to one
+            ArgType::ScalarNative(dtype) if dtype.is_float() => quote! {
+                let #output = if #input == Default::default() { #input } else { #input.signum() };
+            },
+            ArgType::ScalarNative(dtype) if dtype.is_uint() => quote! {
+                let #output = #input.min(1);
+            },
+            ArgType::ScalarNative(_) => quote! {
+                let #output = #input.signum();
+            },
+            _ => quote! {
+                let #output = #input.sign();
+            },
         }
     }
 }
-- 
2.43.0


From 1de2fda490b3a03271ed0d06c26f167ba23881d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:41 +0000
Subject: [PATCH 44/69] fix: generate the mask output of Dropout

---
 crates/burn-onnx/src/burn/node/dropout.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/dropout.rs b/crates/burn-onnx/src/burn/node/dropout.rs
index 66f12d4..5f1acc5 100644
--- a/crates/burn-onnx/src/burn/node/dropout.rs
+++ b/crates/burn-onnx/src/burn/node/dropout.rs
@@ -33,8 +33,26 @@ impl NodeCodegen for onnx_ir::dropout::DropoutNode {
         let output = arg_to_ident(self.outputs.first().unwrap());
         let field = Ident::new(&self.name, Span::call_site());
 
-        quote! {
+        let dropped = quote! {
             let #output = self.#field.forward(#input);
+        };
+
+        // The optional second output is the mask of kept elements: all of them at inference
+        match self
+            .outputs
+            .get(1)
+            .filter(|mask| !mask.name.is_empty())
+            .map(|mask| (mask, &mask.ty))
+        {
+            Some((mask, ArgType::Tensor(tensor))) => {
+                let mask = arg_to_ident(mask);
+                let rank = tensor.rank.to_tokens();
+                quote! {
+                    #dropped
+                    let #mask = Tensor::<B, #rank, Int>::ones(#output.shape(), &*self.device).bool();
+                }
+            }
+            _ => dropped,
         }
     }
 
-- 
2.43.0


From d0efa16a999b4009ef84f8428ffaa07087f04415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:50 +0000
Subject: [PATCH 45/69] fix: import Vec where Split sizes are computed at run
 time

---
 crates/burn-onnx/src/burn/node/split.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/burn-onnx/src/burn/node/split.rs b/crates/burn-onnx/src/burn/node/split.rs
index 62f5f95..32b2437 100644
--- a/crates/burn-onnx/src/burn/node/split.rs
+++ b/crates/burn-onnx/src/burn/node/split.rs
@@ -55,6 +55,12 @@ impl NodeCodegen for onnx_ir::split::SplitNode {
             panic!("Split node must have either split_size, split_sizes, or num_outputs")
         }
     }
+
+    fn register_imports(&self, imports: &mut BurnImports) {
+        if self.config.split_sizes.is_none() && self.config.split_size.is_none() {
+            imports.register("alloc::vec::Vec");
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6129bd802ed1b62e59034dd3f12c1cf638ce4f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:44 +0000
Subject: [PATCH 46/69] fix: broadcast shapes in element-wise operators

---
 crates/burn-onnx/src/burn/argument_helpers.rs | 32 ++++++++++++++++++-
 crates/burn-onnx/src/burn/node/add.rs         |  5 +--
 crates/burn-onnx/src/burn/node/bool_and.rs    |  2 ++
 crates/burn-onnx/src/burn/node/bool_or.rs     |  2 ++
 crates/burn-onnx/src/burn/node/bool_xor.rs    |  2 ++
 crates/burn-onnx/src/burn/node/div.rs         |  5 +--
 crates/burn-onnx/src/burn/node/equal.rs       |  6 ++--
 crates/burn-onnx/src/burn/node/greater.rs     |  6 ++--
 .../burn-onnx/src/burn/node/greater_equal.rs  |  6 ++--
 crates/burn-onnx/src/burn/node/lower.rs       |  6 ++--
 crates/burn-onnx/src/burn/node/lower_equal.rs |  6 ++--
 crates/burn-onnx/src/burn/node/mul.rs         |  5 +--
 crates/burn-onnx/src/burn/node/prelude.rs     |  3 +-
 crates/burn-onnx/src/burn/node/sub.rs         |  5 +--
 14 files changed, 71 insertions(+), 20 deletions(-)

diff --git a/crates/burn-onnx/src/burn/argument_helpers.rs b/crates/burn-onnx/src/burn/argument_helpers.rs
index b4ab0c7..feb3263 100644
--- a/crates/burn-onnx/src/burn/argument_helpers.rs
+++ b/crates/burn-onnx/src/burn/argument_helpers.rs
@@ -7,7 +7,7 @@ use onnx_ir::{
     Argument,
     ir::{ArgType, DType},
 };
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::{Ident, Literal, Span, TokenStream};
 use quote::quote;
 
 use crate::burn::ToTokens;
@@ -168,6 +168,36 @@ pub fn codegen_return_expr(outputs: &[Argument]) -> TokenStream {
     }
 }
 
+/// Operands of an element-wise operator of two shapes or of a shape and a tensor
+///
+/// - Shape and Shape: an operand of length one is repeated to the length of the other.
+/// - Shape and Tensor: the method that gives the tensor of the shape the rank of the other.
+pub fn broadcast_shape_operands(
+    lhs: TokenStream,
+    lhs_ty: &ArgType,
+    rhs: TokenStream,
+    rhs_ty: &ArgType,
+) -> (TokenStream, TokenStream, TokenStream) {
+    match (lhs_ty, rhs_ty) {
+        (ArgType::Shape(1), ArgType::Shape(len)) if *len != 1 => {
+            let len = Literal::usize_unsuffixed(*len);
+            (quote! { [#lhs[0]; #len] }, rhs, quote! {})
+        }
+        (ArgType::Shape(len), ArgType::Shape(1)) if *len != 1 => {
+            let len = Literal::usize_unsuffixed(*len);
+            (lhs, quote! { [#rhs[0]; #len] }, quote! {})
+        }
+        (ArgType::Shape(_), ArgType::Tensor(tensor))
+        | (ArgType::Tensor(tensor), ArgType::Shape(_))
+            if tensor.rank > 1 =>
+        {
+            let rank = Literal::usize_unsuffixed(tensor.rank);
+            (lhs, rhs, quote! { .unsqueeze::<#rank>() })
+        }
+        _ => (lhs, rhs, quote! {}),
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/burn-onnx/src/burn/node/add.rs b/crates/burn-onnx/src/burn/node/add.rs
index 6c7fcc8..d89064c 100644
--- a/crates/burn-onnx/src/burn/node/add.rs
+++ b/crates/burn-onnx/src/burn/node/add.rs
@@ -17,6 +17,7 @@ impl NodeCodegen for onnx_ir::node::arithmetic::AddNode {
         let lhs = scope.arg(lhs_arg);
 
         let rhs = scope.arg(rhs_arg);
+        let (lhs, rhs, unsqueeze) = broadcast_shape_operands(lhs, &lhs_arg.ty, rhs, &rhs_arg.ty);
 
         let function = match (&lhs_arg.ty, &rhs_arg.ty) {
             (lhs_ty, rhs_ty) if lhs_ty.is_on_device() && rhs_ty.is_on_device() => {
@@ -92,7 +93,7 @@ impl NodeCodegen for onnx_ir::node::arithmetic::AddNode {
                         burn::tensor::TensorData::from(&#lhs as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ).add(#rhs)
+                    )#unsqueeze.add(#rhs)
                 }
             }
             (lhs_ty, ArgType::Shape(_)) if lhs_ty.is_on_device() => {
@@ -102,7 +103,7 @@ impl NodeCodegen for onnx_ir::node::arithmetic::AddNode {
                         burn::tensor::TensorData::from(&#rhs as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ))
+                    )#unsqueeze)
                 }
             }
             _ => unreachable!(
diff --git a/crates/burn-onnx/src/burn/node/bool_and.rs b/crates/burn-onnx/src/burn/node/bool_and.rs
index ea835c9..634a448 100644
--- a/crates/burn-onnx/src/burn/node/bool_and.rs
+++ b/crates/burn-onnx/src/burn/node/bool_and.rs
@@ -17,6 +17,8 @@ impl NodeCodegen for onnx_ir::node::and::AndNode {
         let lhs_value = scope.arg(lhs);
 
         let rhs_value = scope.arg(rhs);
+        let (lhs_value, rhs_value, _) =
+            broadcast_shape_operands(lhs_value, &lhs.ty, rhs_value, &rhs.ty);
 
         let function = match (&lhs.ty, &rhs.ty) {
             (lhs_ty, rhs_ty) if lhs_ty.is_on_device() && rhs_ty.is_on_device() => {
diff --git a/crates/burn-onnx/src/burn/node/bool_or.rs b/crates/burn-onnx/src/burn/node/bool_or.rs
index 9a0a9e8..c5ba4b0 100644
--- a/crates/burn-onnx/src/burn/node/bool_or.rs
+++ b/crates/burn-onnx/src/burn/node/bool_or.rs
@@ -17,6 +17,8 @@ impl NodeCodegen for onnx_ir::node::or::OrNode {
         let lhs_value = scope.arg(lhs);
 
         let rhs_value = scope.arg(rhs);
+        let (lhs_value, rhs_value, _) =
+            broadcast_shape_operands(lhs_value, &lhs.ty, rhs_value, &rhs.ty);
 
         let function = match (&lhs.ty, &rhs.ty) {
             (lhs_ty, rhs_ty) if lhs_ty.is_on_device() && rhs_ty.is_on_device() => {
diff --git a/crates/burn-onnx/src/burn/node/bool_xor.rs b/crates/burn-onnx/src/burn/node/bool_xor.rs
index 8fc6583..e007213 100644
--- a/crates/burn-onnx/src/burn/node/bool_xor.rs
+++ b/crates/burn-onnx/src/burn/node/bool_xor.rs
@@ -17,6 +17,8 @@ impl NodeCodegen for onnx_ir::node::xor::XorNode {
         let lhs_value = scope.arg(lhs);
 
         let rhs_value = scope.arg(rhs);
+        let (lhs_value, rhs_value, _) =
+            broadcast_shape_operands(lhs_value, &lhs.ty, rhs_value, &rhs.ty);
 
         let function = match (&lhs.ty, &rhs.ty) {
             (lhs_ty, rhs_ty) if lhs_ty.is_on_device() && rhs_ty.is_on_device() => {
diff --git a/crates/burn-onnx/src/burn/node/div.rs b/crates/burn-onnx/src/burn/node/div.rs
index 6f70d64..e836f2b 100644
--- a/crates/burn-onnx/src/burn/node/div.rs
+++ b/crates/burn-onnx/src/burn/node/div.rs
@@ -17,6 +17,7 @@ impl NodeCodegen for onnx_ir::node::arithmetic::DivNode {
         let lhs = scope.arg(lhs_arg);
 
         let rhs = scope.arg(rhs_arg);
+        let (lhs, rhs, unsqueeze) = broadcast_shape_operands(lhs, &lhs_arg.ty, rhs, &rhs_arg.ty);
 
         let function = match (&lhs_arg.ty, &rhs_arg.ty) {
             (lhs_ty, rhs_ty) if lhs_ty.is_on_device() && rhs_ty.is_on_device() => {
@@ -103,7 +104,7 @@ impl NodeCodegen for onnx_ir::node::arithmetic::DivNode {
                         burn::tensor::TensorData::from(&#lhs as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ).div(#rhs)
+                    )#unsqueeze.div(#rhs)
                 }
             }
             (lhs_ty, ArgType::Shape(_)) if lhs_ty.is_on_device() => {
@@ -113,7 +114,7 @@ impl NodeCodegen for onnx_ir::node::arithmetic::DivNode {
                         burn::tensor::TensorData::from(&#rhs as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ))
+                    )#unsqueeze)
                 }
             }
             _ => unreachable!(
diff --git a/crates/burn-onnx/src/burn/node/equal.rs b/crates/burn-onnx/src/burn/node/equal.rs
index 9d93f02..9fb72af 100644
--- a/crates/burn-onnx/src/burn/node/equal.rs
+++ b/crates/burn-onnx/src/burn/node/equal.rs
@@ -17,6 +17,8 @@ impl NodeCodegen for onnx_ir::comparison::EqualNode {
         let lhs_value = scope.arg(lhs);
 
         let rhs_value = scope.arg(rhs);
+        let (lhs_value, rhs_value, unsqueeze) =
+            broadcast_shape_operands(lhs_value, &lhs.ty, rhs_value, &rhs.ty);
 
         let function = match (&lhs.ty, &rhs.ty) {
             (lhs_ty, rhs_ty) if lhs_ty.is_on_device() && rhs_ty.is_on_device() => {
@@ -62,7 +64,7 @@ impl NodeCodegen for onnx_ir::comparison::EqualNode {
                             &*self.device,
                             #dtype_tokens
                         );
-                        shape_tensor.equal(#rhs_value)
+                        shape_tensor #unsqueeze.equal(#rhs_value)
                     }
                 }
             }
@@ -75,7 +77,7 @@ impl NodeCodegen for onnx_ir::comparison::EqualNode {
                             &*self.device,
                             #dtype_tokens
                         );
-                        #lhs_value.equal(shape_tensor)
+                        #lhs_value.equal(shape_tensor #unsqueeze)
                     }
                 }
             }
diff --git a/crates/burn-onnx/src/burn/node/greater.rs b/crates/burn-onnx/src/burn/node/greater.rs
index 3de59d3..91bd6c8 100644
--- a/crates/burn-onnx/src/burn/node/greater.rs
+++ b/crates/burn-onnx/src/burn/node/greater.rs
@@ -17,6 +17,8 @@ impl NodeCodegen for onnx_ir::comparison::GreaterNode {
         let lhs_value = scope.arg(lhs);
 
         let rhs_value = scope.arg(rhs);
+        let (lhs_value, rhs_value, unsqueeze) =
+            broadcast_shape_operands(lhs_value, &lhs.ty, rhs_value, &rhs.ty);
 
         let function = match (&lhs.ty, &rhs.ty) {
             (lhs_ty, rhs_ty) if lhs_ty.is_on_device() && rhs_ty.is_on_device() => {
@@ -49,7 +51,7 @@ impl NodeCodegen for onnx_ir::comparison::GreaterNode {
                         burn::tensor::TensorData::from(&#lhs_value as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ).greater(#rhs_value)
+                    )#unsqueeze.greater(#rhs_value)
                 }
             }
             (lhs_ty, ArgType::Shape(_)) if lhs_ty.is_on_device() => {
@@ -59,7 +61,7 @@ impl NodeCodegen for onnx_ir::comparison::GreaterNode {
                         burn::tensor::TensorData::from(&#rhs_value as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ))
+                    )#unsqueeze)
                 }
             }
             (ArgType::ScalarNative(_), ArgType::ScalarNative(_)) => {
diff --git a/crates/burn-onnx/src/burn/node/greater_equal.rs b/crates/burn-onnx/src/burn/node/greater_equal.rs
index 6850ae3..d05a080 100644
--- a/crates/burn-onnx/src/burn/node/greater_equal.rs
+++ b/crates/burn-onnx/src/burn/node/greater_equal.rs
@@ -17,6 +17,8 @@ impl NodeCodegen for onnx_ir::comparison::GreaterOrEqualNode {
         let lhs_value = scope.arg(lhs);
 
         let rhs_value = scope.arg(rhs);
+        let (lhs_value, rhs_value, unsqueeze) =
+            broadcast_shape_operands(lhs_value, &lhs.ty, rhs_value, &rhs.ty);
 
         let function = match (&lhs.ty, &rhs.ty) {
             (lhs_ty, rhs_ty) if lhs_ty.is_on_device() && rhs_ty.is_on_device() => {
@@ -49,7 +51,7 @@ impl NodeCodegen for onnx_ir::comparison::GreaterOrEqualNode {
                         burn::tensor::TensorData::from(&#lhs_value as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ).greater_equal(#rhs_value)
+                    )#unsqueeze.greater_equal(#rhs_value)
                 }
             }
             (lhs_ty, ArgType::Shape(_)) if lhs_ty.is_on_device() => {
@@ -59,7 +61,7 @@ impl NodeCodegen for onnx_ir::comparison::GreaterOrEqualNode {
                         burn::tensor::TensorData::from(&#rhs_value as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ))
+                    )#unsqueeze)
                 }
             }
             (ArgType::ScalarNative(_), ArgType::ScalarNative(_)) => {
diff --git a/crates/burn-onnx/src/burn/node/lower.rs b/crates/burn-onnx/src/burn/node/lower.rs
index e39c434..5f0995d 100644
--- a/crates/burn-onnx/src/burn/node/lower.rs
+++ b/crates/burn-onnx/src/burn/node/lower.rs
@@ -17,6 +17,8 @@ impl NodeCodegen for onnx_ir::comparison::LessNode {
         let lhs_value = scope.arg(lhs);
 
         let rhs_value = scope.arg(rhs);
+        let (lhs_value, rhs_value, unsqueeze) =
+            broadcast_shape_operands(lhs_value, &lhs.ty, rhs_value, &rhs.ty);
 
         let function = match (&lhs.ty, &rhs.ty) {
             (lhs_ty, rhs_ty) if lhs_ty.is_on_device() && rhs_ty.is_on_device() => {
@@ -49,7 +51,7 @@ impl NodeCodegen for onnx_ir::comparison::LessNode {
                         burn::tensor::TensorData::from(&#lhs_value as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ).lower(#rhs_value)
+                    )#unsqueeze.lower(#rhs_value)
                 }
             }
             (lhs_ty, ArgType::Shape(_)) if lhs_ty.is_on_device() => {
@@ -59,7 +61,7 @@ impl NodeCodegen for onnx_ir::comparison::LessNode {
                         burn::tensor::TensorData::from(&#rhs_value as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ))
+                    )#unsqueeze)
                 }
             }
             (ArgType::ScalarNative(_), ArgType::ScalarNative(_)) => {
diff --git a/crates/burn-onnx/src/burn/node/lower_equal.rs b/crates/burn-onnx/src/burn/node/lower_equal.rs
index 6d9820a..55c93f2 100644
--- a/crates/burn-onnx/src/burn/node/lower_equal.rs
+++ b/crates/burn-onnx/src/burn/node/lower_equal.rs
@@ -17,6 +17,8 @@ impl NodeCodegen for onnx_ir::comparison::LessOrEqualNode {
         let lhs_value = scope.arg(lhs);
 
         let rhs_value = scope.arg(rhs);
+        let (lhs_value, rhs_value, unsqueeze) =
+            broadcast_shape_operands(lhs_value, &lhs.ty, rhs_value, &rhs.ty);
 
         let function = match (&lhs.ty, &rhs.ty) {
             (lhs_ty, rhs_ty) if lhs_ty.is_on_device() && rhs_ty.is_on_device() => {
@@ -49,7 +51,7 @@ impl NodeCodegen for onnx_ir::comparison::LessOrEqualNode {
                         burn::tensor::TensorData::from(&#lhs_value as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ).lower_equal(#rhs_value)
+                    )#unsqueeze.lower_equal(#rhs_value)
                 }
             }
             (lhs_ty, ArgType::Shape(_)) if lhs_ty.is_on_device() => {
@@ -59,7 +61,7 @@ impl NodeCodegen for onnx_ir::comparison::LessOrEqualNode {
                         burn::tensor::TensorData::from(&#rhs_value as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ))
+                    )#unsqueeze)
                 }
             }
             (ArgType::ScalarNative(_), ArgType::ScalarNative(_)) => {
diff --git a/crates/burn-onnx/src/burn/node/mul.rs b/crates/burn-onnx/src/burn/node/mul.rs
index 2884a78..5f59622 100644
--- a/crates/burn-onnx/src/burn/node/mul.rs
+++ b/crates/burn-onnx/src/burn/node/mul.rs
@@ -17,6 +17,7 @@ impl NodeCodegen for onnx_ir::node::arithmetic::MulNode {
         let lhs = scope.arg(lhs_arg);
 
         let rhs = scope.arg(rhs_arg);
+        let (lhs, rhs, unsqueeze) = broadcast_shape_operands(lhs, &lhs_arg.ty, rhs, &rhs_arg.ty);
 
         let function = match (&lhs_arg.ty, &rhs_arg.ty) {
             (lhs_ty, rhs_ty) if lhs_ty.is_on_device() && rhs_ty.is_on_device() => {
@@ -92,7 +93,7 @@ impl NodeCodegen for onnx_ir::node::arithmetic::MulNode {
                         burn::tensor::TensorData::from(&#lhs as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ).mul(#rhs)
+                    )#unsqueeze.mul(#rhs)
                 }
             }
             (lhs_ty, ArgType::Shape(_)) if lhs_ty.is_on_device() => {
@@ -102,7 +103,7 @@ impl NodeCodegen for onnx_ir::node::arithmetic::MulNode {
                         burn::tensor::TensorData::from(&#rhs as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ))
+                    )#unsqueeze)
                 }
             }
             _ => unreachable!(
diff --git a/crates/burn-onnx/src/burn/node/prelude.rs b/crates/burn-onnx/src/burn/node/prelude.rs
index 97d6052..a87331f 100644
--- a/crates/burn-onnx/src/burn/node/prelude.rs
+++ b/crates/burn-onnx/src/burn/node/prelude.rs
@@ -13,7 +13,8 @@
 /// Re-export common traits and helpers from parent module
 pub(crate) use super::{NodeCodegen, arg_to_ident};
 pub(crate) use crate::burn::argument_helpers::{
-    on_device_to_native, scalar_native_to_shape, scalar_tensor_to_shape, shape_to_native,
+    broadcast_shape_operands, on_device_to_native, scalar_native_to_shape, scalar_tensor_to_shape,
+    shape_to_native,
 };
 
 // Re-export common burn-onnx types
diff --git a/crates/burn-onnx/src/burn/node/sub.rs b/crates/burn-onnx/src/burn/node/sub.rs
index 2c4fd2e..01a80f0 100644
--- a/crates/burn-onnx/src/burn/node/sub.rs
+++ b/crates/burn-onnx/src/burn/node/sub.rs
@@ -17,6 +17,7 @@ impl NodeCodegen for onnx_ir::node::arithmetic::SubNode {
         let lhs = scope.arg(lhs_arg);
 
         let rhs = scope.arg(rhs_arg);
+        let (lhs, rhs, unsqueeze) = broadcast_shape_operands(lhs, &lhs_arg.ty, rhs, &rhs_arg.ty);
 
         let function = match (&lhs_arg.ty, &rhs_arg.ty) {
             (lhs_ty, rhs_ty) if lhs_ty.is_on_device() && rhs_ty.is_on_device() => {
@@ -92,7 +93,7 @@ impl NodeCodegen for onnx_ir::node::arithmetic::SubNode {
                         burn::tensor::TensorData::from(&#lhs as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ).sub(#rhs)
+                    )#unsqueeze.sub(#rhs)
                 }
             }
             (lhs_ty, ArgType::Shape(_)) if lhs_ty.is_on_device() => {
@@ -102,7 +103,7 @@ impl NodeCodegen for onnx_ir::node::arithmetic::SubNode {
                         burn::tensor::TensorData::from(&#rhs as &[i64]),
                         &*self.device,
                         #dtype_tokens
-                    ))
+                    )#unsqueeze)
                 }
             }
             _ => unreachable!(
-- 
2.43.0


From ef14ae15d68014076382f89a2713bd1404fc2533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:18 +0000
Subject: [PATCH 47/69] fix: gather from a shape with indices of known length

---
 crates/onnx-ir/src/node/gather.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/node/gather.rs b/crates/onnx-ir/src/node/gather.rs
index 9301b7a..34049ec 100644
--- a/crates/onnx-ir/src/node/gather.rs
+++ b/crates/onnx-ir/src/node/gather.rs
@@ -178,7 +178,12 @@ impl NodeProcessor for GatherProcessor {
                     // For Shape indices, use the actual shape rank (number of elements)
                     let output_shape_rank = match &node.inputs[1].ty {
                         ArgType::Shape(shape_rank) => *shape_rank,
-                        ArgType::Tensor(_) => indices_rank, // For tensor indices, use computed rank
+                        // For tensor indices, use their number if it is known
+                        ArgType::Tensor(TensorType {
+                            static_shape: Some(dims),
+                            ..
+                        }) if dims.len() == 1 => dims[0].unwrap_or(indices_rank),
+                        ArgType::Tensor(_) => indices_rank,
                         _ => indices_rank,
                     };
                     node.outputs[0].ty = ArgType::Shape(output_shape_rank);
-- 
2.43.0


From a0c411f71473caecf52d7dbf8e35686edf21cf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:18 +0000
Subject: [PATCH 48/69] fix: reshape of a shape that copies its dimension

---
 crates/onnx-ir/src/node/reshape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/node/reshape.rs b/crates/onnx-ir/src/node/reshape.rs
index c764d63..7f80ffa 100644
--- a/crates/onnx-ir/src/node/reshape.rs
+++ b/crates/onnx-ir/src/node/reshape.rs
@@ -148,7 +148,7 @@ fn calculate_shape_output_size(
         && shape_values.len() == 1
     {
         return match shape_values[0] {
-            -1 => input_size, // Infer dimension
+            -1 | 0 => input_size, // Infer or copy the dimension
             n if n > 0 => n as usize,
             _ => 1, // Invalid value, default to 1
         };
-- 
2.43.0


From cff06b8b1c0ba28738a77378d8c142586ba8d82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:18 +0000
Subject: [PATCH 49/69] fix: concatenate shapes with integer tensors

---
 crates/burn-onnx/src/burn/node/concat.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/concat.rs b/crates/burn-onnx/src/burn/node/concat.rs
index 69b1f22..15f2941 100644
--- a/crates/burn-onnx/src/burn/node/concat.rs
+++ b/crates/burn-onnx/src/burn/node/concat.rs
@@ -106,8 +106,13 @@ impl NodeCodegen for onnx_ir::concat::ConcatNode {
                     if input.ty.is_scalar() {
                         // Scalar: wrap in array and slice
                         shape_parts.push(quote! { &[#input_name][..] });
+                    } else if matches!(input.ty, ArgType::Tensor(_)) {
+                        // Tensor: read its elements
+                        shape_parts.push(quote! {
+                            &#input_name.to_data().iter::<i64>().collect::<alloc::vec::Vec<i64>>()[..]
+                        });
                     } else {
-                        // Shape or tensor: already an array, just slice
+                        // Shape: already an array, just slice
                         shape_parts.push(quote! { &#input_name[..] });
                     }
                 }
-- 
2.43.0


From 50b1a1991bf2257baa40f4d23e8a1e80987dc754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:18 +0000
Subject: [PATCH 50/69] fix: slice shapes with negative steps

---
 crates/burn-onnx/src/burn/node/slice.rs | 18 ++++++++++++++++++
 crates/onnx-ir/src/node/slice.rs        | 16 ++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/crates/burn-onnx/src/burn/node/slice.rs b/crates/burn-onnx/src/burn/node/slice.rs
index c63dc09..0458468 100644
--- a/crates/burn-onnx/src/burn/node/slice.rs
+++ b/crates/burn-onnx/src/burn/node/slice.rs
@@ -522,6 +522,24 @@ fn generate_shape_slice(
                 end_val.min(shape_len) as usize
             };
 
+            // A negative step walks down from start (inclusive) to end (exclusive);
+            // ascending bounds select the same range in reverse
+            let (actual_start, actual_end) =
+                if step_val < 0 && !(0 <= start_val && start_val < end_val) {
+                    let from_end = |v: i64| {
+                        if v < 0 {
+                            v.saturating_add(shape_len)
+                        } else {
+                            v
+                        }
+                    };
+                    let first = from_end(start_val).min(shape_len - 1) + 1;
+                    let last = from_end(end_val).max(-1) + 1;
+                    (last.min(first).max(0) as usize, first.max(0) as usize)
+                } else {
+                    (actual_start, actual_end)
+                };
+
             let start_lit = Literal::usize_unsuffixed(actual_start);
             let end_lit = Literal::usize_unsuffixed(actual_end);
 
diff --git a/crates/onnx-ir/src/node/slice.rs b/crates/onnx-ir/src/node/slice.rs
index d8521c9..4a0f772 100644
--- a/crates/onnx-ir/src/node/slice.rs
+++ b/crates/onnx-ir/src/node/slice.rs
@@ -77,6 +77,22 @@ fn calculate_shape_slice_output_len(
 ) -> usize {
     let shape_len = shape_rank as i64;
 
+    // A negative step walks down from start (inclusive) to end (exclusive);
+    // ascending bounds select the same range in reverse
+    if step < 0 && !(0 <= start && start < end) {
+        let from_end = |v: i64| {
+            if v < 0 {
+                v.saturating_add(shape_len)
+            } else {
+                v
+            }
+        };
+        let first = from_end(start).min(shape_len - 1);
+        let last = from_end(end).max(-1);
+        let range_len = (first - last).max(0);
+        return (range_len as u64).div_ceil(step.unsigned_abs()) as usize;
+    }
+
     // Normalize negative indices
     let norm_start = if start < 0 {
         (shape_len + start).max(0)
-- 
2.43.0


From 139153acd268b617e2bdd3924f950b67ba47fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:41 +0000
Subject: [PATCH 51/69] fix: Split of a shape generated code that does not
 compile

---
 crates/burn-onnx/src/burn/node/split.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/burn-onnx/src/burn/node/split.rs b/crates/burn-onnx/src/burn/node/split.rs
index 32b2437..2074fcf 100644
--- a/crates/burn-onnx/src/burn/node/split.rs
+++ b/crates/burn-onnx/src/burn/node/split.rs
@@ -10,7 +10,22 @@ impl NodeCodegen for onnx_ir::split::SplitNode {
     }
 
     fn forward(&self, scope: &mut ScopeAtPosition<'_>) -> TokenStream {
-        let input = scope.arg(self.inputs.first().unwrap());
+        let input_arg = self.inputs.first().unwrap();
+        let input = scope.arg(input_arg);
+        let input = match &input_arg.ty {
+            // The parts of a shape are tensors
+            ArgType::Shape(_) => {
+                let dtype = DType::I64.to_tokens();
+                quote! {
+                    Tensor::<B, 1, Int>::from_data_dtype(
+                        burn::tensor::TensorData::from(&#input as &[i64]),
+                        &*self.device,
+                        #dtype
+                    )
+                }
+            }
+            _ => input,
+        };
         let axis = self.config.axis.to_tokens();
 
         let outputs = self.outputs.iter().map(arg_to_ident).collect::<Vec<_>>();
-- 
2.43.0


From 46a3d96746a99fbaac4f2cf45d571e4121e3538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:41 +0000
Subject: [PATCH 52/69] fix: Abs, Neg and Sign of shapes

---
 crates/burn-onnx/src/burn/node/abs.rs  | 9 +++++++--
 crates/burn-onnx/src/burn/node/neg.rs  | 2 +-
 crates/burn-onnx/src/burn/node/sign.rs | 3 +++
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/abs.rs b/crates/burn-onnx/src/burn/node/abs.rs
index 21a07e6..6ca7093 100644
--- a/crates/burn-onnx/src/burn/node/abs.rs
+++ b/crates/burn-onnx/src/burn/node/abs.rs
@@ -13,8 +13,13 @@ impl NodeCodegen for onnx_ir::node::abs::AbsNode {
         let input = scope.arg(self.inputs.first().unwrap());
         let output = arg_to_ident(self.outputs.first().unwrap());
 
-        quote! {
-            let #output = #input.abs();
+        match &self.inputs.first().unwrap().ty {
+            ArgType::Shape(_) => quote! {
+                let #output = #input.map(i64::abs);
+            },
+            _ => quote! {
+                let #output = #input.abs();
+            },
         }
     }
 }
diff --git a/crates/burn-onnx/src/burn/node/neg.rs b/crates/burn-onnx/src/burn/node/neg.rs
index acb6775..6f97be6 100644
--- a/crates/burn-onnx/src/burn/node/neg.rs
+++ b/crates/burn-onnx/src/burn/node/neg.rs
@@ -20,7 +20,7 @@ impl NodeCodegen for onnx_ir::node::neg::NegNode {
         let neg_expr = match &input_arg.ty {
             ArgType::Tensor(_) | ArgType::ScalarTensor(_) => quote! { #input.neg() },
             ArgType::ScalarNative(_) => quote! { -#input },
-            _ => panic!("Neg only supports tensor or scalar inputs"),
+            ArgType::Shape(_) => quote! { #input.map(|dim| -dim) },
         };
 
         quote! {
diff --git a/crates/burn-onnx/src/burn/node/sign.rs b/crates/burn-onnx/src/burn/node/sign.rs
index efb9adb..e0ee91d 100644
--- a/crates/burn-onnx/src/burn/node/sign.rs
+++ b/crates/burn-onnx/src/burn/node/sign.rs
@@ -14,6 +14,9 @@ impl NodeCodegen for onnx_ir::node::sign::SignNode {
         let output = arg_to_ident(self.outputs.first().unwrap());
 
         match &self.inputs.first().unwrap().ty {
+            ArgType::Shape(_) => quote! {
+                let #output = #input.map(i64::signum);
+            },
             // `signum` of a float maps zero to one
             ArgType::ScalarNative(dtype) if dtype.is_float() => quote! {
                 let #output = if #input == Default::default() { #input } else { #input.signum() };
-- 
2.43.0


From f0007811b4fa81db9faa99ea7aaaf8688cf0a516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:36 +0000
Subject: [PATCH 53/69] fix: comparison of a shape with an on-device scalar

---
 crates/onnx-ir/src/node/comparison.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/onnx-ir/src/node/comparison.rs b/crates/onnx-ir/src/node/comparison.rs
index e58470f..844f35a 100644
--- a/crates/onnx-ir/src/node/comparison.rs
+++ b/crates/onnx-ir/src/node/comparison.rs
@@ -46,7 +46,7 @@
 
 use onnx_ir_derive::NodeBuilder;
 
-use crate::ir::{Argument, DType, Node, RawNode};
+use crate::ir::{ArgType, Argument, DType, Node, RawNode, TensorType};
 use crate::processor::{
     ArgPreference, InputPreferences, InputSpec, NodeProcessor, NodeSpec, OutputPreferences,
     OutputSpec, ProcessError,
@@ -170,7 +170,17 @@ impl NodeProcessor for ComparisonProcessor {
         }
 
         node.outputs[0].ty =
-            crate::processor::broadcast_output_type(&node.inputs, Some(DType::Bool));
+            match crate::processor::broadcast_output_type(&node.inputs, Some(DType::Bool)) {
+                // A shape is compared with an on-device scalar on the device
+                ArgType::Shape(len) if node.inputs.iter().any(|i| i.ty.is_scalar_tensor()) => {
+                    ArgType::Tensor(TensorType {
+                        dtype: DType::Bool,
+                        rank: 1,
+                        static_shape: Some(vec![Some(len)]),
+                    })
+                }
+                ty => ty,
+            };
 
         Ok(())
     }
-- 
2.43.0


From 784282d18c04258e8e25eca91f23f3bcc38faa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:24 +0000
Subject: [PATCH 54/69] fix: weights of Scan bodies are neither declared nor
 saved

---
 crates/burn-onnx/src/burn/graph.rs | 32 ++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/crates/burn-onnx/src/burn/graph.rs b/crates/burn-onnx/src/burn/graph.rs
index 1adb3ba..e1ab624 100644
--- a/crates/burn-onnx/src/burn/graph.rs
+++ b/crates/burn-onnx/src/burn/graph.rs
@@ -95,7 +95,7 @@ impl BurnGraph {
                     snapshots.extend(node_snapshots);
                 }
 
-                // Recursively collect from nested If/Loop nodes
+                // Recursively collect from nested If/Loop/Scan nodes
                 if let Node::If(nested_if_node) = node {
                     collect_subgraph_snapshots_recursive(
                         &nested_if_node.config.then_branch,
@@ -113,6 +113,12 @@ impl BurnGraph {
                         field_name_counts,
                         snapshots,
                     );
+                } else if let Node::Scan(nested_scan_node) = node {
+                    collect_subgraph_snapshots_recursive(
+                        &nested_scan_node.config.body,
+                        field_name_counts,
+                        snapshots,
+                    );
                 }
             }
         }
@@ -125,7 +131,7 @@ impl BurnGraph {
                 snapshots.extend(node_snapshots);
             }
 
-            // Collect from subgraphs in If/Loop nodes
+            // Collect from subgraphs in If/Loop/Scan nodes
             if let Node::If(if_node) = node {
                 collect_subgraph_snapshots_recursive(
                     &if_node.config.then_branch,
@@ -143,6 +149,12 @@ impl BurnGraph {
                     &mut field_name_counts,
                     &mut snapshots,
                 );
+            } else if let Node::Scan(scan_node) = node {
+                collect_subgraph_snapshots_recursive(
+                    &scan_node.config.body,
+                    &mut field_name_counts,
+                    &mut snapshots,
+                );
             }
         }
 
@@ -399,7 +411,7 @@ impl BurnGraph {
                     all_fields.push((field.name.clone(), field.ty.clone(), Some(field.init)));
                 }
 
-                // Recursively collect from nested If/Loop nodes
+                // Recursively collect from nested If/Loop/Scan nodes
                 if let Node::If(nested_if_node) = burn_node {
                     collect_subgraph_fields_recursive(
                         &nested_if_node.config.then_branch,
@@ -417,6 +429,12 @@ impl BurnGraph {
                         field_name_counts,
                         all_fields,
                     );
+                } else if let Node::Scan(nested_scan_node) = burn_node {
+                    collect_subgraph_fields_recursive(
+                        &nested_scan_node.config.body,
+                        field_name_counts,
+                        all_fields,
+                    );
                 }
             }
         }
@@ -427,7 +445,7 @@ impl BurnGraph {
                 all_fields.push((field.name, field.ty, Some(field.init)));
             }
 
-            // Recursively collect fields from If/Loop node subgraphs
+            // Recursively collect fields from If/Loop/Scan node subgraphs
             // Note: Subgraph fields are NOT deduplicated - each branch has unique fields
             if let Node::If(if_node) = node {
                 collect_subgraph_fields_recursive(
@@ -446,6 +464,12 @@ impl BurnGraph {
                     &mut field_name_counts,
                     &mut all_fields,
                 );
+            } else if let Node::Scan(scan_node) = node {
+                collect_subgraph_fields_recursive(
+                    &scan_node.config.body,
+                    &mut field_name_counts,
+                    &mut all_fields,
+                );
             }
         }
 
-- 
2.43.0


From d4c267c58ee559f9daa326f841aeb779f0c1c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:59 +0000
Subject: [PATCH 55/69] fix: values used in and around subgraphs were moved or
 updated out of turn

---
 crates/burn-onnx/src/burn/graph.rs            |   6 +-
 crates/burn-onnx/src/burn/node/if_node.rs     |  41 +++++--
 crates/burn-onnx/src/burn/node/loop_node.rs   |  86 ++++++++++-----
 crates/burn-onnx/src/burn/node/mod.rs         |   2 +-
 crates/burn-onnx/src/burn/node/scan_node.rs   |  98 ++++++++++++-----
 .../src/burn/node/subgraph_helper.rs          | 104 ++++++++++++++++--
 6 files changed, 265 insertions(+), 72 deletions(-)

diff --git a/crates/burn-onnx/src/burn/graph.rs b/crates/burn-onnx/src/burn/graph.rs
index e1ab624..c10f1c4 100644
--- a/crates/burn-onnx/src/burn/graph.rs
+++ b/crates/burn-onnx/src/burn/graph.rs
@@ -1,5 +1,5 @@
 use super::{BurnImports, Scope, ToTokens};
-use crate::burn::node::NodeCodegen;
+use crate::burn::node::{NodeCodegen, subgraph_helper::collect_unbound_arguments};
 use burn_store::{BurnpackWriter, TensorSnapshot};
 use onnx_ir::{Node, ir::ArgType};
 use proc_macro2::TokenStream;
@@ -274,6 +274,10 @@ impl BurnGraph {
                     .filter(|arg| arg.is_dynamic() || arg.is_constant())
                     .filter(|arg| matches!(arg.ty, ArgType::Tensor(_) | ArgType::ScalarTensor(_)))
                     .for_each(|arg| self.scope.tensor_register_future_use(arg, node_position));
+                // Values that subgraphs use directly are never moved
+                collect_unbound_arguments(node)
+                    .iter()
+                    .for_each(|arg| self.scope.tensor_register_future_use(arg, node_position));
             });
 
         // Register graph tensor output with the last node position
diff --git a/crates/burn-onnx/src/burn/node/if_node.rs b/crates/burn-onnx/src/burn/node/if_node.rs
index df2497b..e92f53f 100644
--- a/crates/burn-onnx/src/burn/node/if_node.rs
+++ b/crates/burn-onnx/src/burn/node/if_node.rs
@@ -9,9 +9,11 @@ fn generate_branch_code(
     subgraph: &onnx_ir::OnnxGraph,
     outer_scope_inputs: &[Argument],
     scope_ref_names: &[String],
-    scope: &mut Scope,
     node_position: usize,
 ) -> (TokenStream, TokenStream) {
+    // The variables of a branch are its own
+    let scope = &mut Scope::default();
+
     // For If branches, all scope_ref_names are genuine outer-scope references
     // (no filtering needed, unlike Loop/Scan)
     let exclude_names = HashSet::new();
@@ -30,19 +32,38 @@ fn generate_branch_code(
     );
 
     // Register subgraph scope
-    subgraph_helper::register_subgraph_scope(subgraph, scope, node_position);
+    subgraph_helper::register_subgraph_scope(subgraph, scope_ref_names, scope, node_position);
 
     // Generate forward code
     let forward_code =
         subgraph_helper::generate_subgraph_forward_code(subgraph, scope, node_position);
 
     // Generate output tuple
-    let output_names: Vec<_> = subgraph.outputs.iter().map(arg_to_ident).collect();
-    let output_tuple = if output_names.len() == 1 {
-        let out = &output_names[0];
-        quote! { #out }
-    } else {
-        quote! { (#(#output_names),*) }
+    let outputs = &subgraph.outputs;
+    let values: Vec<_> = outputs
+        .iter()
+        .enumerate()
+        .map(|(idx, output)| {
+            let name = arg_to_ident(output);
+            let returned_again = outputs[idx + 1..].iter().any(|o| o.name == output.name);
+            match output.ty {
+                ArgType::Tensor(_) | ArgType::ScalarTensor(_)
+                    if returned_again
+                        || subgraph_helper::is_unbound_output(
+                            output,
+                            subgraph,
+                            scope_ref_names,
+                        ) =>
+                {
+                    quote! { #name.clone() }
+                }
+                _ => quote! { #name },
+            }
+        })
+        .collect();
+    let output_tuple = match values.as_slice() {
+        [value] => quote! { #value },
+        _ => quote! { (#(#values),*) },
     };
 
     let body = quote! {
@@ -88,20 +109,20 @@ impl NodeCodegen for onnx_ir::node::if_node::IfNode {
         // Get outer-scope reference inputs (all inputs after condition)
         let outer_scope_inputs: Vec<_> = self.inputs.iter().skip(1).cloned().collect();
 
+        subgraph_helper::use_outer_scope_inputs(&outer_scope_inputs, scope);
+
         // Generate code for then and else branches
         let node_position = scope.node_position();
         let (then_body, then_output) = generate_branch_code(
             &self.config.then_branch,
             &outer_scope_inputs,
             &self.config.scope_ref_names,
-            scope.scope(),
             node_position,
         );
         let (else_body, else_output) = generate_branch_code(
             &self.config.else_branch,
             &outer_scope_inputs,
             &self.config.scope_ref_names,
-            scope.scope(),
             node_position,
         );
 
diff --git a/crates/burn-onnx/src/burn/node/loop_node.rs b/crates/burn-onnx/src/burn/node/loop_node.rs
index 993e754..b5a99f7 100644
--- a/crates/burn-onnx/src/burn/node/loop_node.rs
+++ b/crates/burn-onnx/src/burn/node/loop_node.rs
@@ -11,9 +11,11 @@ fn generate_loop_body_code(
     outer_scope_inputs: &[Argument],
     scope_ref_names: &[String],
     body_input_names: &HashSet<String>,
-    scope: &mut Scope,
     node_position: usize,
 ) -> TokenStream {
+    // The variables of the body are its own
+    let scope = &mut Scope::default();
+
     // Collect names actually used in this body to avoid unused variable warnings
     let used_names = subgraph_helper::collect_subgraph_referenced_names(subgraph);
 
@@ -28,7 +30,7 @@ fn generate_loop_body_code(
     );
 
     // Register subgraph scope
-    subgraph_helper::register_subgraph_scope(subgraph, scope, node_position);
+    subgraph_helper::register_subgraph_scope(subgraph, scope_ref_names, scope, node_position);
 
     // Generate forward code
     let forward_code =
@@ -71,7 +73,8 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
         let outer_scope_inputs: Vec<_> =
             self.inputs.iter().skip(num_onnx_inputs).cloned().collect();
 
-        // Extract max trip count
+        // Extract max trip count. It is read once, before the loop.
+        let mut limit_init = quote! {};
         let max_count = if max_trip_count_arg.is_optional() {
             quote! { i64::MAX } // No limit if not provided
         } else {
@@ -82,11 +85,14 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
                 }
                 ArgType::ScalarTensor(dtype) => {
                     let tensor = scope.arg(max_trip_count_arg);
-                    on_device_to_native(tensor, dtype)
+                    let limit = on_device_to_native(tensor, dtype);
+                    limit_init = quote! { let loop_limit = #limit; };
+                    quote! { loop_limit }
                 }
                 ArgType::Tensor(_) => {
                     let tensor = scope.arg(max_trip_count_arg);
-                    quote! { #tensor.into_scalar().elem::<i64>() }
+                    limit_init = quote! { let loop_limit = #tensor.into_scalar().elem::<i64>(); };
+                    quote! { loop_limit }
                 }
                 _ => panic!("Loop max_trip_count must be scalar i64"),
             }
@@ -154,7 +160,7 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
         let mut init_stmts = quote! {};
         for (idx, initial_arg) in v_initial_args.iter().enumerate() {
             let var_name = &loop_var_names[idx];
-            let init_value = arg_to_ident(initial_arg);
+            let init_value = scope.arg(initial_arg);
 
             // Check if this variable will be updated (different name means it gets assigned)
             let needs_mut = idx < num_loop_carried_outputs
@@ -208,39 +214,67 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
 
         // Generate loop body code
         let node_position = scope.node_position();
+        subgraph_helper::use_outer_scope_inputs(&outer_scope_inputs, scope);
         let body_code = generate_loop_body_code(
             &self.config.body,
             &outer_scope_inputs,
             &self.config.scope_ref_names,
             &body_input_names,
-            scope.scope(),
             node_position,
         );
 
-        // Update loop-carried variables after iteration
+        // Update loop-carried variables after iteration, then the condition.
         // Skip self-assignments when body passes through a value unchanged (same name)
-        let mut update_vars = quote! {};
+        let mut updates = vec![];
         for (idx, out_name) in loop_out_names.iter().enumerate() {
             let var_name = &loop_var_names[idx];
             if var_name != out_name {
-                update_vars.extend(quote! {
-                    #var_name = #out_name;
-                });
+                updates.push((var_name.clone(), &self.config.body.outputs[1 + idx]));
             }
         }
-
-        // Update condition from body output (skip if same name)
-        let update_cond = if cond_in_name != cond_out_name {
-            let cond_out_ty = &self.config.body.outputs[0].ty;
-            if let ArgType::ScalarTensor(dtype) = cond_out_ty {
-                // ScalarTensor -> native bool
-                let convert = on_device_to_native(quote! { #cond_out_name }, dtype);
-                quote! { #cond_in_name = #convert; }
+        if cond_in_name != cond_out_name {
+            updates.push((cond_in_name.clone(), &self.config.body.outputs[0]));
+        }
+        let mut update_values = vec![];
+        for (idx, (_, value_arg)) in updates.iter().enumerate() {
+            let value = arg_to_ident(value_arg);
+            // The value is still needed if it is assigned again or is itself passed through
+            let assigned_again = updates[idx + 1..]
+                .iter()
+                .any(|(_, later)| later.name == value_arg.name);
+            let passed_through = loop_var_names
+                .iter()
+                .zip(&loop_out_names)
+                .any(|(var, out)| var == out && *var == value);
+            let is_tensor = matches!(value_arg.ty, ArgType::Tensor(_) | ArgType::ScalarTensor(_));
+            let unbound = subgraph_helper::is_unbound_output(
+                value_arg,
+                &self.config.body,
+                &self.config.scope_ref_names,
+            );
+            let value = if is_tensor && (assigned_again || passed_through || unbound) {
+                quote! { #value.clone() }
             } else {
-                quote! { #cond_in_name = #cond_out_name; }
-            }
+                quote! { #value }
+            };
+            update_values.push(match &value_arg.ty {
+                // ScalarTensor -> native bool
+                ArgType::ScalarTensor(dtype) if updates[idx].0 == cond_in_name => {
+                    on_device_to_native(value, dtype)
+                }
+                _ => value,
+            });
+        }
+        let update_targets: Vec<_> = updates.iter().map(|(target, _)| target).collect();
+        // A value read after its variable was updated would be that of the next iteration
+        let reads_updated = updates.iter().enumerate().any(|(idx, (_, value_arg))| {
+            let value = arg_to_ident(value_arg);
+            update_targets[..idx].iter().any(|target| **target == value)
+        });
+        let update_vars = if reads_updated {
+            quote! { (#(#update_targets),*) = (#(#update_values),*); }
         } else {
-            quote! {}
+            quote! { #(#update_targets = #update_values;)* }
         };
 
         // Collect scan outputs - handle scalar vs tensor
@@ -352,6 +386,7 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
         quote! {
             #[allow(unused_variables, unused_assignments)]
             #output_decls = {
+                #limit_init
                 #init_stmts
                 #scan_init
 
@@ -364,11 +399,8 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
                     // Collect scan outputs from body outputs (before updating variables)
                     #collect_scans
 
-                    // Update loop-carried variables for next iteration
+                    // Update loop-carried variables and condition for next iteration
                     #update_vars
-
-                    // Update condition from body output for next iteration
-                    #update_cond
                     #iter_name += 1;
                 }
 
diff --git a/crates/burn-onnx/src/burn/node/mod.rs b/crates/burn-onnx/src/burn/node/mod.rs
index dbfed63..9a20864 100644
--- a/crates/burn-onnx/src/burn/node/mod.rs
+++ b/crates/burn-onnx/src/burn/node/mod.rs
@@ -5,7 +5,7 @@
 pub(crate) mod prelude;
 
 // Shared helpers for subgraph code generation (If, Loop, Scan)
-mod subgraph_helper;
+pub(crate) mod subgraph_helper;
 
 // Test helpers for node code generation tests
 #[cfg(test)]
diff --git a/crates/burn-onnx/src/burn/node/scan_node.rs b/crates/burn-onnx/src/burn/node/scan_node.rs
index c846c08..9aae383 100644
--- a/crates/burn-onnx/src/burn/node/scan_node.rs
+++ b/crates/burn-onnx/src/burn/node/scan_node.rs
@@ -11,9 +11,11 @@ fn generate_scan_body_code(
     outer_scope_inputs: &[Argument],
     scope_ref_names: &[String],
     body_input_names: &HashSet<String>,
-    scope: &mut Scope,
     node_position: usize,
 ) -> TokenStream {
+    // The variables of the body are its own
+    let scope = &mut Scope::default();
+
     // Collect names actually used in this body to avoid unused variable warnings
     let used_names = subgraph_helper::collect_subgraph_referenced_names(subgraph);
 
@@ -28,7 +30,7 @@ fn generate_scan_body_code(
     );
 
     // Register subgraph scope
-    subgraph_helper::register_subgraph_scope(subgraph, scope, node_position);
+    subgraph_helper::register_subgraph_scope(subgraph, scope_ref_names, scope, node_position);
 
     // Generate forward code
     let forward_code =
@@ -93,10 +95,17 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
 
         for (idx, initial_arg) in initial_state_vars.iter().enumerate() {
             let var_name = &state_var_names[idx];
-            let init_value = arg_to_ident(initial_arg);
-            init_stmts.extend(quote! {
-                let mut #var_name = #init_value;
-            });
+            let init_value = scope.arg(initial_arg);
+            // Only mutable if the body updates it (different name from output)
+            if *var_name == arg_to_ident(&self.config.body.outputs[idx]) {
+                init_stmts.extend(quote! {
+                    let #var_name = #init_value;
+                });
+            } else {
+                init_stmts.extend(quote! {
+                    let mut #var_name = #init_value;
+                });
+            }
         }
 
         // Initialize scan output accumulators
@@ -178,39 +187,78 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
 
         // Generate body code
         let node_position = scope.node_position();
+        subgraph_helper::use_outer_scope_inputs(&outer_scope_inputs, scope);
         let body_code = generate_scan_body_code(
             &self.config.body,
             &outer_scope_inputs,
             &self.config.scope_ref_names,
             &body_input_names,
-            scope.scope(),
             node_position,
         );
 
-        // Update state variables and collect scan outputs
+        // Collect scan outputs, then update state variables
+        let body_outputs = &self.config.body.outputs;
         let mut update_stmts = quote! {};
-
-        // Update state variables (clone if there are scan outputs)
-        let should_clone = num_scan_outputs > 0;
-        for (idx, var_name) in state_var_names.iter().enumerate() {
-            let out_name = arg_to_ident(&self.config.body.outputs[idx]);
-            if should_clone {
-                update_stmts.extend(quote! {
-                    #var_name = #out_name.clone();
-                });
+        for (idx, collector) in scan_output_collectors.iter().enumerate() {
+            let body_out_name = arg_to_ident(&body_outputs[num_state_vars + idx]);
+            let used_again = body_outputs[num_state_vars + idx + 1..]
+                .iter()
+                .chain(&body_outputs[..num_state_vars])
+                .any(|other| arg_to_ident(other) == body_out_name)
+                || state_var_names.contains(&body_out_name)
+                || subgraph_helper::is_unbound_output(
+                    &body_outputs[num_state_vars + idx],
+                    &self.config.body,
+                    &self.config.scope_ref_names,
+                );
+            let value = if used_again {
+                quote! { #body_out_name.clone() }
             } else {
-                update_stmts.extend(quote! {
-                    #var_name = #out_name;
-                });
-            }
+                quote! { #body_out_name }
+            };
+            update_stmts.extend(quote! {
+                #collector.push(#value);
+            });
         }
 
-        // Collect scan outputs
-        for (idx, collector) in scan_output_collectors.iter().enumerate() {
-            let body_out_name = arg_to_ident(&self.config.body.outputs[num_state_vars + idx]);
+        // Skip self-assignments when body passes through a value unchanged (same name)
+        let updates: Vec<_> = state_var_names
+            .iter()
+            .zip(body_outputs)
+            .map(|(var, out)| (var, arg_to_ident(out), out))
+            .filter(|(var, out, _)| *var != out)
+            .collect();
+        let update_targets: Vec<_> = updates.iter().map(|(var, ..)| *var).collect();
+        let update_values: Vec<_> = updates
+            .iter()
+            .enumerate()
+            .map(|(idx, (_, out, out_arg))| {
+                let assigned_again = updates[idx + 1..].iter().any(|(_, later, _)| later == out);
+                let passed_through =
+                    state_var_names.contains(out) && !update_targets.iter().any(|var| *var == out);
+                let unbound = subgraph_helper::is_unbound_output(
+                    out_arg,
+                    &self.config.body,
+                    &self.config.scope_ref_names,
+                );
+                if assigned_again || passed_through || unbound {
+                    quote! { #out.clone() }
+                } else {
+                    quote! { #out }
+                }
+            })
+            .collect();
+        // A value read after its variable was updated would be that of the next iteration
+        let reads_updated = updates
+            .iter()
+            .enumerate()
+            .any(|(idx, (_, out, _))| update_targets[..idx].iter().any(|var| *var == out));
+        if reads_updated {
             update_stmts.extend(quote! {
-                #collector.push(#body_out_name);
+                (#(#update_targets),*) = (#(#update_values),*);
             });
+        } else {
+            update_stmts.extend(quote! { #(#update_targets = #update_values;)* });
         }
 
         // Finalize scan outputs: reverse if needed, then stack into tensors
diff --git a/crates/burn-onnx/src/burn/node/subgraph_helper.rs b/crates/burn-onnx/src/burn/node/subgraph_helper.rs
index 640c4ab..0c7ea8d 100644
--- a/crates/burn-onnx/src/burn/node/subgraph_helper.rs
+++ b/crates/burn-onnx/src/burn/node/subgraph_helper.rs
@@ -41,7 +41,7 @@ pub(super) fn collect_subgraph_referenced_names(subgraph: &onnx_ir::OnnxGraph) -
 /// - `exclude_names`: Names to exclude from binding generation (e.g., loop-provided variables)
 /// - `used_names`: Optional set of names actually used in this subgraph. If provided, only
 ///   bindings for names in this set will be generated (avoids unused variable warnings).
-/// - `scope`: The parent scope for accessing outer values
+/// - `scope`: The scope of the subgraph, where the bound variables are declared
 /// - `node_position`: The position of the control flow node in the graph
 pub(super) fn generate_outer_scope_bindings(
     outer_scope_inputs: &[Argument],
@@ -68,20 +68,26 @@ pub(super) fn generate_outer_scope_bindings(
 
         if let Some(outer_input) = outer_scope_inputs.get(idx) {
             let var_name = quote::format_ident!("{}", scope_ref_name);
-            let outer_var = scope.at_position(node_position).arg(outer_input);
+            let outer_var = arg_to_ident(outer_input);
 
             match &outer_input.ty {
+                // The outer value is only borrowed: the subgraph may run any number of times
                 ArgType::Tensor(_) | ArgType::ScalarTensor(_) => {
+                    let mut bound = outer_input.clone();
+                    bound.name = scope_ref_name.clone();
+                    scope.tensor_register_variable(&bound, node_position);
+
                     bindings.extend(quote! {
                         let #var_name = #outer_var.clone();
                     });
                 }
-                ArgType::ScalarNative(_) => {
-                    bindings.extend(quote! {
-                        let #var_name = #outer_var;
-                    });
+                ArgType::ScalarNative(_) | ArgType::Shape(_) => {
+                    if var_name != outer_var {
+                        bindings.extend(quote! {
+                            let #var_name = #outer_var;
+                        });
+                    }
                 }
-                _ => {}
             }
         }
     }
@@ -89,12 +95,88 @@ pub(super) fn generate_outer_scope_bindings(
     bindings
 }
 
+/// Collect the arguments that the subgraphs of a control flow node take straight from the
+/// parent scope, without a binding (constants, for instance).
+///
+/// They are not inputs of the node. As the subgraphs may run several times and each of them only
+/// knows its own uses, such a value has to be cloned wherever it is used.
+pub(crate) fn collect_unbound_arguments(node: &onnx_ir::Node) -> Vec<Argument> {
+    let (subgraphs, bound) = match node {
+        onnx_ir::Node::If(n) => (
+            vec![&n.config.then_branch, &n.config.else_branch],
+            &n.config.scope_ref_names,
+        ),
+        onnx_ir::Node::Loop(n) => (vec![&n.config.body], &n.config.scope_ref_names),
+        onnx_ir::Node::Scan(n) => (vec![&n.config.body], &n.config.scope_ref_names),
+        _ => return vec![],
+    };
+
+    let bound: HashSet<&str> = bound.iter().map(String::as_str).collect();
+    subgraphs
+        .into_iter()
+        .flat_map(|subgraph| unbound_in_subgraph(subgraph, &bound))
+        .collect()
+}
+
+/// Collect the arguments used in a subgraph that are neither bound nor defined in it.
+fn unbound_in_subgraph(subgraph: &onnx_ir::OnnxGraph, bound: &HashSet<&str>) -> Vec<Argument> {
+    let mut defined = bound.clone();
+    defined.extend(subgraph.inputs.iter().map(|arg| arg.name.as_str()));
+    for node in &subgraph.nodes {
+        defined.extend(node.outputs().iter().map(|arg| arg.name.as_str()));
+    }
+
+    let mut unbound = vec![];
+    for node in &subgraph.nodes {
+        unbound.extend(
+            node.inputs()
+                .iter()
+                .filter(|arg| arg.is_dynamic() || arg.is_constant())
+                .cloned(),
+        );
+        unbound.extend(collect_unbound_arguments(node));
+    }
+    unbound.extend(subgraph.outputs.iter().cloned());
+    unbound.retain(|arg| {
+        matches!(arg.ty, ArgType::Tensor(_) | ArgType::ScalarTensor(_))
+            && !arg.name.is_empty()
+            && !defined.contains(arg.name.as_str())
+    });
+    unbound
+}
+
+/// Whether an output of a subgraph is a value of the parent scope used without a binding.
+pub(super) fn is_unbound_output(
+    output: &Argument,
+    subgraph: &onnx_ir::OnnxGraph,
+    scope_ref_names: &[String],
+) -> bool {
+    let bound: HashSet<&str> = scope_ref_names.iter().map(String::as_str).collect();
+    unbound_in_subgraph(subgraph, &bound)
+        .iter()
+        .any(|arg| arg.name == output.name)
+}
+
+/// Count the outer-scope references of a control flow node as used.
+///
+/// Each of them is an input of the node, used once in the parent scope however often its
+/// subgraphs use it.
+pub(super) fn use_outer_scope_inputs(
+    outer_scope_inputs: &[Argument],
+    scope: &mut ScopeAtPosition<'_>,
+) {
+    for input in outer_scope_inputs {
+        scope.arg(input);
+    }
+}
+
 /// Register subgraph inputs and build scope for generating node forward code.
 ///
 /// This registers all subgraph tensors in the scope so they can be properly
 /// referenced and cloned during code generation.
 pub(super) fn register_subgraph_scope(
     subgraph: &onnx_ir::OnnxGraph,
+    bound_names: &[String],
     scope: &mut Scope,
     node_position: usize,
 ) {
@@ -134,10 +216,16 @@ pub(super) fn register_subgraph_scope(
 
     // Register future uses for subgraph outputs
     for output in &subgraph.outputs {
-        if let ArgType::Tensor(_) = &output.ty {
+        if matches!(&output.ty, ArgType::Tensor(_) | ArgType::ScalarTensor(_)) {
             scope.tensor_register_future_use(output, node_position + subgraph.nodes.len());
         }
     }
+
+    // Values of the parent scope used without a binding are never moved
+    let bound: HashSet<&str> = bound_names.iter().map(String::as_str).collect();
+    for arg in unbound_in_subgraph(subgraph, &bound) {
+        scope.tensor_register_future_use(&arg, node_position + subgraph.nodes.len());
+    }
 }
 
 /// Generate forward code for all nodes in a subgraph.
-- 
2.43.0


From 614755a157a16e8c61eb7fe9c60189aec57ee19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:38 +0000
Subject: [PATCH 56/69] fix: negative axes of Scan inputs and outputs

---
 crates/burn-onnx/src/burn/node/scan_node.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/scan_node.rs b/crates/burn-onnx/src/burn/node/scan_node.rs
index 9aae383..b86403c 100644
--- a/crates/burn-onnx/src/burn/node/scan_node.rs
+++ b/crates/burn-onnx/src/burn/node/scan_node.rs
@@ -42,6 +42,16 @@ fn generate_scan_body_code(
     }
 }
 
+/// The axis of a scan input or output, counted from the front (0 if not given).
+fn axis_of(axes: &[i64], idx: usize, arg: &Argument) -> usize {
+    let axis = axes.get(idx).copied().unwrap_or(0);
+    if axis < 0 {
+        (axis + arg.ty.rank() as i64) as usize
+    } else {
+        axis as usize
+    }
+}
+
 impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
     fn inputs(&self) -> &[Argument] {
         &self.inputs
@@ -78,7 +88,7 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
 
         // Get sequence length from first scan input
         let first_scan_input = scan_input_sequences[0];
-        let scan_axis = self.config.scan_input_axes.first().copied().unwrap_or(0) as usize;
+        let scan_axis = axis_of(&self.config.scan_input_axes, 0, first_scan_input);
         let first_scan_name = arg_to_ident(first_scan_input);
         let seq_len_expr = quote! { #first_scan_name.shape()[#scan_axis] };
 
@@ -150,7 +160,7 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
                 .copied()
                 .unwrap_or(0)
                 == 1;
-            let scan_axis = self.config.scan_input_axes.get(idx).copied().unwrap_or(0) as usize;
+            let scan_axis = axis_of(&self.config.scan_input_axes, idx, scan_input_arg);
 
             let iter_expr = if reverse {
                 quote! { seq_len - i - 1 }
@@ -290,7 +300,11 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
                 });
             }
 
-            let stack_axis = self.config.scan_output_axes.get(idx).copied().unwrap_or(0) as usize;
+            let stack_axis = axis_of(
+                &self.config.scan_output_axes,
+                idx,
+                &self.outputs[num_state_vars + idx],
+            );
             finalize_stmts.extend(quote! {
                 let #output_name = Tensor::stack(#collector.clone(), #stack_axis);
             });
-- 
2.43.0


From 5c6930a692100c5f73c9623e9f36ab62e608f0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:20 +0000
Subject: [PATCH 57/69] fix: fractional on and off values of OneHot were
 truncated

---
 crates/burn-onnx/src/burn/node/one_hot.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/one_hot.rs b/crates/burn-onnx/src/burn/node/one_hot.rs
index e9ec4db..a89e22b 100644
--- a/crates/burn-onnx/src/burn/node/one_hot.rs
+++ b/crates/burn-onnx/src/burn/node/one_hot.rs
@@ -25,11 +25,12 @@ impl NodeCodegen for onnx_ir::one_hot::OneHotNode {
         };
 
         // Extract values from config.values
-        let (on_value, off_value) = match &self.config.values {
+        let (on_value, off_value, fractional_values) = match &self.config.values {
             onnx_ir::one_hot::OneHotValuesInput::Static(v) => {
                 let off = v[0];
                 let on = v[1];
-                (quote! { #on }, quote! { #off })
+                let fractional = on.fract() != 0.0 || off.fract() != 0.0;
+                (quote! { #on }, quote! { #off }, fractional)
             }
             onnx_ir::one_hot::OneHotValuesInput::Runtime(_) => {
                 panic!("OneHot with runtime values is not supported in burn-onnx")
@@ -69,6 +70,12 @@ impl NodeCodegen for onnx_ir::one_hot::OneHotNode {
                     }
                 }
             }
+            // An integer tensor cannot hold fractional values
+            (TensorKind::Int, TensorKind::Float) if fractional_values => {
+                quote! {
+                    let #output = #input.float().one_hot_fill(#num_classes, #on_value, #off_value, #axis).cast(#output_dtype_tokens);
+                }
+            }
             (TensorKind::Int, TensorKind::Float) => {
                 quote! {
                     let #output = #input.one_hot_fill(#num_classes, #on_value, #off_value, #axis).float().cast(#output_dtype_tokens);
-- 
2.43.0


From a40e854a0a3a7a600289d76a2dc00808e8a84c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:36 +0000
Subject: [PATCH 58/69] fix: rank-0 and shape values carried and collected by
 Loop and Scan

---
 crates/burn-onnx/src/burn/node/loop_node.rs   | 30 +++++++--
 crates/burn-onnx/src/burn/node/prelude.rs     |  2 +-
 crates/burn-onnx/src/burn/node/scan_node.rs   | 66 +++++++++++++++----
 .../src/burn/node/subgraph_helper.rs          | 39 +++++++++++
 crates/onnx-ir/src/node/scan_node.rs          | 37 ++++-------
 5 files changed, 128 insertions(+), 46 deletions(-)

diff --git a/crates/burn-onnx/src/burn/node/loop_node.rs b/crates/burn-onnx/src/burn/node/loop_node.rs
index b5a99f7..6bccc10 100644
--- a/crates/burn-onnx/src/burn/node/loop_node.rs
+++ b/crates/burn-onnx/src/burn/node/loop_node.rs
@@ -160,7 +160,11 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
         let mut init_stmts = quote! {};
         for (idx, initial_arg) in v_initial_args.iter().enumerate() {
             let var_name = &loop_var_names[idx];
-            let init_value = scope.arg(initial_arg);
+            let init_value = subgraph_helper::convert_value(
+                scope.arg(initial_arg),
+                &initial_arg.ty,
+                &self.config.body.inputs[2 + idx].ty,
+            );
 
             // Check if this variable will be updated (different name means it gets assigned)
             let needs_mut = idx < num_loop_carried_outputs
@@ -257,12 +261,20 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
             } else {
                 quote! { #value }
             };
-            update_values.push(match &value_arg.ty {
-                // ScalarTensor -> native bool
-                ArgType::ScalarTensor(dtype) if updates[idx].0 == cond_in_name => {
-                    on_device_to_native(value, dtype)
+            let target = &self
+                .config
+                .body
+                .inputs
+                .iter()
+                .find(|i| arg_to_ident(i) == updates[idx].0);
+            update_values.push(match target {
+                // The condition is native, whatever its producer
+                _ if updates[idx].0 == cond_in_name => {
+                    let native = ArgType::ScalarNative(DType::Bool);
+                    subgraph_helper::convert_value(value, &value_arg.ty, &native)
                 }
-                _ => value,
+                Some(target) => subgraph_helper::convert_value(value, &value_arg.ty, &target.ty),
+                None => value,
             });
         }
         let update_targets: Vec<_> = updates.iter().map(|(target, _)| target).collect();
@@ -312,7 +324,11 @@ impl NodeCodegen for onnx_ir::node::loop_node::LoopNode {
             .enumerate()
         {
             let var_name = &loop_var_names[idx];
-            output_values.push(quote! { #var_name });
+            output_values.push(subgraph_helper::convert_value(
+                quote! { #var_name },
+                &self.config.body.inputs[2 + idx].ty,
+                &self.outputs[idx].ty,
+            ));
         }
 
         // Remaining outputs are concatenated scan outputs
diff --git a/crates/burn-onnx/src/burn/node/prelude.rs b/crates/burn-onnx/src/burn/node/prelude.rs
index a87331f..68114a0 100644
--- a/crates/burn-onnx/src/burn/node/prelude.rs
+++ b/crates/burn-onnx/src/burn/node/prelude.rs
@@ -13,7 +13,7 @@
 /// Re-export common traits and helpers from parent module
 pub(crate) use super::{NodeCodegen, arg_to_ident};
 pub(crate) use crate::burn::argument_helpers::{
-    broadcast_shape_operands, on_device_to_native, scalar_native_to_shape, scalar_tensor_to_shape,
+    arg_type_tokens, broadcast_shape_operands, on_device_to_native, scalar_native_to_shape, scalar_tensor_to_shape,
     shape_to_native,
 };
 
diff --git a/crates/burn-onnx/src/burn/node/scan_node.rs b/crates/burn-onnx/src/burn/node/scan_node.rs
index b86403c..82aa95f 100644
--- a/crates/burn-onnx/src/burn/node/scan_node.rs
+++ b/crates/burn-onnx/src/burn/node/scan_node.rs
@@ -42,6 +42,19 @@ fn generate_scan_body_code(
     }
 }
 
+/// The representation of a scan output while it is collected: on-device.
+fn collected_type(ty: &ArgType) -> ArgType {
+    match ty {
+        ArgType::ScalarNative(dtype) => ArgType::ScalarTensor(*dtype),
+        ArgType::Shape(_) => ArgType::Tensor(onnx_ir::TensorType {
+            dtype: DType::I64,
+            rank: 1,
+            static_shape: None,
+        }),
+        _ => ty.clone(),
+    }
+}
+
 /// The axis of a scan input or output, counted from the front (0 if not given).
 fn axis_of(axes: &[i64], idx: usize, arg: &Argument) -> usize {
     let axis = axes.get(idx).copied().unwrap_or(0);
@@ -92,6 +105,9 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
         let first_scan_name = arg_to_ident(first_scan_input);
         let seq_len_expr = quote! { #first_scan_name.shape()[#scan_axis] };
 
+        let body_inputs = &self.config.body.inputs;
+        let body_outputs = &self.config.body.outputs;
+
         // Initialize state variables
         let mut init_stmts = quote! {};
         let state_var_names: Vec<_> = self
@@ -105,7 +121,11 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
 
         for (idx, initial_arg) in initial_state_vars.iter().enumerate() {
             let var_name = &state_var_names[idx];
-            let init_value = scope.arg(initial_arg);
+            let init_value = subgraph_helper::convert_value(
+                scope.arg(initial_arg),
+                &initial_arg.ty,
+                &body_inputs[idx].ty,
+            );
             // Only mutable if the body updates it (different name from output)
             if *var_name == arg_to_ident(&self.config.body.outputs[idx]) {
                 init_stmts.extend(quote! {
@@ -128,9 +148,13 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
             })
             .collect();
 
-        for collector in &scan_output_collectors {
+        for (idx, collector) in scan_output_collectors.iter().enumerate() {
+            // The type says what the values are where their producer leaves it open
+            let mut element = body_outputs[num_state_vars + idx].clone();
+            element.ty = collected_type(&element.ty);
+            let element = arg_type_tokens(&element);
             init_stmts.extend(quote! {
-                let mut #collector = alloc::vec::Vec::new();
+                let mut #collector: alloc::vec::Vec<#element> = alloc::vec::Vec::new();
             });
         }
 
@@ -207,7 +231,6 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
         );
 
         // Collect scan outputs, then update state variables
-        let body_outputs = &self.config.body.outputs;
         let mut update_stmts = quote! {};
         for (idx, collector) in scan_output_collectors.iter().enumerate() {
             let body_out_name = arg_to_ident(&body_outputs[num_state_vars + idx]);
@@ -226,6 +249,8 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
             } else {
                 quote! { #body_out_name }
             };
+            let ty = &body_outputs[num_state_vars + idx].ty;
+            let value = subgraph_helper::convert_value(value, ty, &collected_type(ty));
             update_stmts.extend(quote! {
                 #collector.push(#value);
             });
@@ -234,16 +259,17 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
         // Skip self-assignments when body passes through a value unchanged (same name)
         let updates: Vec<_> = state_var_names
             .iter()
+            .zip(body_inputs)
             .zip(body_outputs)
-            .map(|(var, out)| (var, arg_to_ident(out), out))
-            .filter(|(var, out, _)| *var != out)
+            .map(|((var, state), out)| (var, arg_to_ident(out), out, &state.ty))
+            .filter(|(var, out, ..)| *var != out)
             .collect();
         let update_targets: Vec<_> = updates.iter().map(|(var, ..)| *var).collect();
         let update_values: Vec<_> = updates
             .iter()
             .enumerate()
-            .map(|(idx, (_, out, out_arg))| {
-                let assigned_again = updates[idx + 1..].iter().any(|(_, later, _)| later == out);
+            .map(|(idx, (_, out, out_arg, state_ty))| {
+                let assigned_again = updates[idx + 1..].iter().any(|(_, later, ..)| later == out);
                 let passed_through =
                     state_var_names.contains(out) && !update_targets.iter().any(|var| *var == out);
                 let unbound = subgraph_helper::is_unbound_output(
@@ -251,18 +277,19 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
                     &self.config.body,
                     &self.config.scope_ref_names,
                 );
-                if assigned_again || passed_through || unbound {
+                let value = if assigned_again || passed_through || unbound {
                     quote! { #out.clone() }
                 } else {
                     quote! { #out }
-                }
+                };
+                subgraph_helper::convert_value(value, &out_arg.ty, state_ty)
             })
             .collect();
         // A value read after its variable was updated would be that of the next iteration
         let reads_updated = updates
             .iter()
             .enumerate()
-            .any(|(idx, (_, out, _))| update_targets[..idx].iter().any(|var| *var == out));
+            .any(|(idx, (_, out, ..))| update_targets[..idx].iter().any(|var| *var == out));
         if reads_updated {
             update_stmts.extend(quote! {
                 (#(#update_targets),*) = (#(#update_values),*);
@@ -305,8 +332,13 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
                 idx,
                 &self.outputs[num_state_vars + idx],
             );
+            let stack = match body_outputs[num_state_vars + idx].ty {
+                // Rank-0 values are held as tensors of one element already
+                ArgType::ScalarNative(_) | ArgType::ScalarTensor(_) => quote! { cat },
+                _ => quote! { stack },
+            };
             finalize_stmts.extend(quote! {
-                let #output_name = Tensor::stack(#collector.clone(), #stack_axis);
+                let #output_name = Tensor::#stack(#collector.clone(), #stack_axis);
             });
         }
 
@@ -317,9 +349,15 @@ impl NodeCodegen for onnx_ir::node::scan_node::ScanNode {
         let output_vars: Vec<_> = (0..self.outputs.len())
             .map(|idx| {
                 if idx < num_state_vars {
-                    state_var_names[idx].clone()
+                    let name = &state_var_names[idx];
+                    subgraph_helper::convert_value(
+                        quote! { #name },
+                        &body_inputs[idx].ty,
+                        &self.outputs[idx].ty,
+                    )
                 } else {
-                    final_scan_output_names[idx - num_state_vars].clone()
+                    let name = &final_scan_output_names[idx - num_state_vars];
+                    quote! { #name }
                 }
             })
             .collect();
diff --git a/crates/burn-onnx/src/burn/node/subgraph_helper.rs b/crates/burn-onnx/src/burn/node/subgraph_helper.rs
index 0c7ea8d..4d797c8 100644
--- a/crates/burn-onnx/src/burn/node/subgraph_helper.rs
+++ b/crates/burn-onnx/src/burn/node/subgraph_helper.rs
@@ -157,6 +157,45 @@ pub(super) fn is_unbound_output(
         .any(|arg| arg.name == output.name)
 }
 
+/// Convert a value between the representations that the inside and the outside of a subgraph
+/// use for it: native or on-device for a rank-0 value, shape or tensor for a rank-1 value.
+pub(super) fn convert_value(value: TokenStream, from: &ArgType, to: &ArgType) -> TokenStream {
+    match (from, to) {
+        (ArgType::ScalarTensor(dtype), ArgType::ScalarNative(_)) => {
+            on_device_to_native(value, dtype)
+        }
+        (ArgType::ScalarNative(_), ArgType::ScalarTensor(dtype)) => {
+            let kind = if dtype.is_float() {
+                quote! {}
+            } else if dtype.is_bool() {
+                quote! { , Bool }
+            } else {
+                quote! { , Int }
+            };
+            let dtype = dtype.to_tokens();
+            quote! {
+                Tensor::<B, 1 #kind>::from_data_dtype(
+                    burn::tensor::TensorData::from([#value]), &*self.device, #dtype
+                )
+            }
+        }
+        (ArgType::Shape(_), ArgType::Tensor(_)) => quote! {
+            Tensor::<B, 1, Int>::from_data(
+                burn::tensor::TensorData::from(#value), &*self.device
+            )
+        },
+        (ArgType::Tensor(_), ArgType::Shape(rank)) => {
+            let rank = rank.to_tokens();
+            quote! {
+                <[i64; #rank]>::try_from(
+                    #value.to_data().convert::<i64>().to_vec::<i64>().unwrap()
+                ).unwrap()
+            }
+        }
+        _ => value,
+    }
+}
+
 /// Count the outer-scope references of a control flow node as used.
 ///
 /// Each of them is an input of the node, used once in the parent scope however often its
diff --git a/crates/onnx-ir/src/node/scan_node.rs b/crates/onnx-ir/src/node/scan_node.rs
index cca038a..a7c1bc9 100644
--- a/crates/onnx-ir/src/node/scan_node.rs
+++ b/crates/onnx-ir/src/node/scan_node.rs
@@ -46,6 +46,17 @@ pub struct ScanNode {
 /// Scan node processor
 pub(crate) struct ScanProcessor;
 
+/// Type of a scan output: its body values stacked along a new sequence dimension
+fn sequence_type(ty: &ArgType) -> ArgType {
+    // A rank-0 value that is kept on the device counts as a tensor of rank 1
+    let rank = if ty.is_scalar() { 0 } else { ty.rank() };
+    ArgType::Tensor(crate::ir::TensorType {
+        dtype: ty.elem_type(),
+        rank: rank + 1,
+        static_shape: None, // Dynamic shape for now
+    })
+}
+
 impl NodeProcessor for ScanProcessor {
     type Config = ScanConfig;
 
@@ -108,18 +119,7 @@ impl NodeProcessor for ScanProcessor {
                 output.name = format!("{}_sequence", body_scan_output.name);
 
                 // Increase rank by 1 for sequence dimension
-                match &body_scan_output.ty {
-                    ArgType::Tensor(body_tensor) => {
-                        output.ty = ArgType::Tensor(crate::ir::TensorType {
-                            dtype: body_tensor.dtype,
-                            rank: body_tensor.rank + 1,
-                            static_shape: None, // Dynamic shape for now
-                        });
-                    }
-                    _ => {
-                        // Keep same type if not a tensor
-                    }
-                }
+                output.ty = sequence_type(&body_scan_output.ty);
 
                 node.outputs.push(output);
             }
@@ -138,18 +138,7 @@ impl NodeProcessor for ScanProcessor {
             for i in num_state_vars..node.outputs.len() {
                 let body_idx = i;
                 if body_idx < body_outputs.len() {
-                    match &body_outputs[body_idx].ty {
-                        ArgType::Tensor(body_tensor) => {
-                            node.outputs[i].ty = ArgType::Tensor(crate::ir::TensorType {
-                                dtype: body_tensor.dtype,
-                                rank: body_tensor.rank + 1,
-                                static_shape: None,
-                            });
-                        }
-                        _ => {
-                            node.outputs[i].ty = body_outputs[body_idx].ty.clone();
-                        }
-                    }
+                    node.outputs[i].ty = sequence_type(&body_outputs[body_idx].ty);
                 }
             }
         }
-- 
2.43.0


From 45ff74282d2d0b2eb45080139529ebf220027064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:17 +0000
Subject: [PATCH 59/69] fix: outer-scope references become implicit inputs in a
 fixed order

---
 crates/onnx-ir/src/proto_conversion.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/onnx-ir/src/proto_conversion.rs b/crates/onnx-ir/src/proto_conversion.rs
index d8206e0..58ada7d 100644
--- a/crates/onnx-ir/src/proto_conversion.rs
+++ b/crates/onnx-ir/src/proto_conversion.rs
@@ -812,13 +812,14 @@ pub fn extract_outer_scope_references(
 ///
 /// This scans all GRAPH and GRAPHS attributes and returns all names that are
 /// referenced but not defined within the subgraphs. These need to be added
-/// as implicit inputs to ensure proper topological ordering.
+/// as implicit inputs to ensure proper topological ordering. The set is ordered, so that the
+/// same model always gets the same implicit inputs in the same order.
 pub fn extract_node_outer_scope_references(
     node_proto: &NodeProto,
-) -> std::collections::HashSet<String> {
-    use std::collections::HashSet;
+) -> std::collections::BTreeSet<String> {
+    use std::collections::BTreeSet;
 
-    let mut all_refs: HashSet<String> = HashSet::new();
+    let mut all_refs: BTreeSet<String> = BTreeSet::new();
 
     for attr in &node_proto.attribute {
         if let Ok(attr_type) = attr.type_.enum_value() {
-- 
2.43.0


From 9c0519951a826c7c9153b9f9cec461f8877b389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:17 +0000
Subject: [PATCH 60/69] fix: negative input dimensions are unknown, data of an
 empty initializer is an error

---
 crates/onnx-ir/src/proto_conversion.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/onnx-ir/src/proto_conversion.rs b/crates/onnx-ir/src/proto_conversion.rs
index 58ada7d..cd3ceca 100644
--- a/crates/onnx-ir/src/proto_conversion.rs
+++ b/crates/onnx-ir/src/proto_conversion.rs
@@ -214,7 +214,11 @@ pub fn argument_from_initializer(initializer: &TensorProto) -> (Argument, Tensor
             }
 
             // 2.b) Accept EMPTY tensors: dim_elems == 0 with payload_len == 0.
-            if dim_elems == 0 && payload_len == 0 && !dims.is_empty() {
+            if dim_elems == 0
+                && payload_len == 0
+                && initializer.raw_data.is_empty()
+                && !dims.is_empty()
+            {
                 // Map ONNX data_type -> DType.
                 // (Covers common types used in initializers; extend as needed.)
                 let dtype = element_type_from_proto(initializer.data_type).unwrap_or_else(|e| {
@@ -938,7 +942,8 @@ impl TryFrom<ValueInfoProto> for Argument {
                 .dim
                 .iter()
                 .map(|d| match &d.value {
-                    Some(Value::DimValue(v)) => Some(*v as usize),
+                    // Some exporters write an unknown dimension as a negative number
+                    Some(Value::DimValue(v)) => usize::try_from(*v).ok(),
                     _ => None,
                 })
                 .collect();
-- 
2.43.0


From 03b90aba6c7bf63c62a55ac3c9804515152e2af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:17 +0000
Subject: [PATCH 61/69] fix: refuse models with undefined, repeated or
 misordered names and with parts the importer ignores

---
 crates/onnx-ir/src/pipeline.rs | 108 ++++++++++++++++++++++++++++++++-
 1 file changed, 105 insertions(+), 3 deletions(-)

diff --git a/crates/onnx-ir/src/pipeline.rs b/crates/onnx-ir/src/pipeline.rs
index 81f395c..d4369e8 100644
--- a/crates/onnx-ir/src/pipeline.rs
+++ b/crates/onnx-ir/src/pipeline.rs
@@ -24,11 +24,15 @@
 //! ```
 
 use std::io::Read;
-use std::{fmt, fs::File, path::Path};
+use std::{collections::HashSet, fmt, fs::File, path::Path};
 
 use protobuf::Message;
 
-use crate::{ir::OnnxGraph, processor::ProcessError, protos::ModelProto};
+use crate::{
+    ir::{Argument, OnnxGraph},
+    processor::ProcessError,
+    protos::{GraphProto, ModelProto},
+};
 
 use super::phases::{
     finalization, initialization, node_conversion, post_processing, type_inference,
@@ -264,6 +268,8 @@ impl OnnxGraphBuilder {
             });
         }
 
+        validate_model(&model).map_err(|reason| Error::InvalidGraphStructure { reason })?;
+
         let graph = build_graph_with_options(&model, base_path, self.simplify)?;
 
         if let Some(path) = path_str {
@@ -373,10 +379,106 @@ fn extract_opset_version(model: &ModelProto) -> Result<usize, Error> {
         .opset_import
         .iter()
         .find(|opset| opset.domain.is_empty())
-        .map(|opset| opset.version as usize)
+        .and_then(|opset| usize::try_from(opset.version).ok())
         .ok_or(Error::MissingOpsetVersion)
 }
 
+/// The names that can be referred to in a graph: its own and those of the graphs around it.
+struct NameScope<'a> {
+    names: HashSet<&'a str>,
+    outer: Option<&'a NameScope<'a>>,
+}
+
+impl<'a> NameScope<'a> {
+    fn contains(&self, name: &str) -> bool {
+        self.names.contains(name) || self.outer.is_some_and(|outer| outer.contains(name))
+    }
+
+    /// Add a name that this graph defines; every value is defined once.
+    fn define(&mut self, name: &'a str, what: &str) -> Result<(), String> {
+        if name.is_empty() {
+            return Err(format!("{what} without a name"));
+        }
+        if !self.names.insert(name) {
+            return Err(format!("{what} '{name}' is defined more than once"));
+        }
+        Ok(())
+    }
+}
+
+/// Refuse models that use what the importer does not represent, or whose graphs are not valid:
+/// importing them would silently drop or invent a part of the computation.
+fn validate_model(model: &ModelProto) -> Result<(), String> {
+    for input in &model.graph.input {
+        if model.graph.initializer.iter().any(|i| i.name == input.name) {
+            continue;
+        }
+        if let Err(e) = Argument::try_from(input.clone()) {
+            return Err(format!("graph input '{}': {e:?}", input.name));
+        }
+    }
+    validate_graph(model, &model.graph, None)
+}
+
+fn validate_graph(
+    model: &ModelProto,
+    graph: &GraphProto,
+    outer: Option<&NameScope<'_>>,
+) -> Result<(), String> {
+    let mut scope = NameScope {
+        names: HashSet::new(),
+        outer,
+    };
+    if !graph.sparse_initializer.is_empty() {
+        return Err("sparse initializers are not supported".to_string());
+    }
+    for initializer in &graph.initializer {
+        scope.define(&initializer.name, "initializer")?;
+    }
+    let mut inputs = HashSet::new();
+    for input in &graph.input {
+        if !inputs.insert(input.name.as_str()) {
+            return Err(format!("graph input '{}' is defined twice", input.name));
+        }
+        // An initializer may give the default value of an input
+        if !scope.names.contains(input.name.as_str()) {
+            scope.define(&input.name, "graph input")?;
+        }
+    }
+    for node in &graph.node {
+        let label = format!("{} node '{}'", node.op_type, node.name);
+        if !matches!(node.domain.as_str(), "" | "ai.onnx") {
+            return Err(format!("{label}: domain '{}' not supported", node.domain));
+        }
+        if model
+            .functions
+            .iter()
+            .any(|f| f.name == node.op_type && matches!(f.domain.as_str(), "" | "ai.onnx"))
+        {
+            return Err(format!("{label}: local functions are not supported"));
+        }
+        for input in node.input.iter().filter(|name| !name.is_empty()) {
+            if !scope.contains(input) {
+                return Err(format!("{label}: input '{input}' is not defined"));
+            }
+        }
+        for attribute in &node.attribute {
+            for subgraph in attribute.g.iter().chain(&attribute.graphs) {
+                validate_graph(model, subgraph, Some(&scope))?;
+            }
+        }
+        for output in node.output.iter().filter(|name| !name.is_empty()) {
+            scope.define(output, &format!("{label}: output"))?;
+        }
+    }
+    for output in &graph.output {
+        if !scope.contains(&output.name) {
+            return Err(format!("graph output '{}' is not defined", output.name));
+        }
+    }
+    Ok(())
+}
+
 /// Trait for checking if a list of nodes is topologically sorted
 pub(crate) trait TopologicalSortable {
     fn is_top_sorted(&self) -> bool;
-- 
2.43.0


From 1f57044439c1165f611f6f19a5f78a8d227ed5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:17 +0000
Subject: [PATCH 62/69] fix: refuse nodes that leave out a required input

---
 crates/onnx-ir/src/node/loop_node.rs |  6 ++++++
 crates/onnx-ir/src/node/scan_node.rs |  8 ++++++++
 crates/onnx-ir/src/node/tile.rs      |  2 +-
 crates/onnx-ir/src/processor.rs      | 28 ++++++++++++++++++++++++++++
 4 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/node/loop_node.rs b/crates/onnx-ir/src/node/loop_node.rs
index 22e7582..0888562 100644
--- a/crates/onnx-ir/src/node/loop_node.rs
+++ b/crates/onnx-ir/src/node/loop_node.rs
@@ -221,6 +221,12 @@ impl NodeProcessor for LoopProcessor {
 
         // Number of loop-carried dependencies in the body (excluding iter_num and cond_in)
         let num_body_loop_inputs = body_inputs.len() - 2;
+        let num_initial_values = crate::processor::get_onnx_input_count(node).saturating_sub(2);
+        if num_initial_values != num_body_loop_inputs {
+            return Err(ProcessError::Custom(format!(
+                "Loop body takes {num_body_loop_inputs} loop-carried values, but the node gives {num_initial_values}"
+            )));
+        }
 
         // Number of loop-carried outputs from body (excluding cond_out)
         // Body outputs = [cond_out, v_out..., scan_outputs...]
diff --git a/crates/onnx-ir/src/node/scan_node.rs b/crates/onnx-ir/src/node/scan_node.rs
index a7c1bc9..65de227 100644
--- a/crates/onnx-ir/src/node/scan_node.rs
+++ b/crates/onnx-ir/src/node/scan_node.rs
@@ -85,6 +85,14 @@ impl NodeProcessor for ScanProcessor {
             )));
         }
 
+        if config.body.inputs.len() != onnx_input_count {
+            return Err(ProcessError::Custom(format!(
+                "Scan body takes {} inputs, but the node gives {}",
+                config.body.inputs.len(),
+                onnx_input_count
+            )));
+        }
+
         let num_state_vars = onnx_input_count - num_scan_inputs;
 
         // Get body outputs to determine output types
diff --git a/crates/onnx-ir/src/node/tile.rs b/crates/onnx-ir/src/node/tile.rs
index 299aa79..5f9d113 100644
--- a/crates/onnx-ir/src/node/tile.rs
+++ b/crates/onnx-ir/src/node/tile.rs
@@ -69,7 +69,7 @@ impl NodeProcessor for TileProcessor {
         NodeSpec {
             min_opset: 1,
             max_opset: None,
-            inputs: InputSpec::AtLeast(1),
+            inputs: InputSpec::AtLeast(2),
             outputs: OutputSpec::Exact(1),
         }
     }
diff --git a/crates/onnx-ir/src/processor.rs b/crates/onnx-ir/src/processor.rs
index 22e2fe7..5949bda 100644
--- a/crates/onnx-ir/src/processor.rs
+++ b/crates/onnx-ir/src/processor.rs
@@ -387,6 +387,34 @@ fn validate_input_spec(node: &RawNode, opset: usize, spec: &InputSpec) -> Result
     // This ensures we only validate the original ONNX inputs, not extra scope refs
     let actual = get_onnx_input_count(node);
 
+    // Inputs that every form of the operator has cannot be left out with an empty name
+    use crate::ir::NodeType;
+    let required = match (&node.node_type, spec) {
+        // The trip count and the condition of a Loop are optional, its states are not
+        (NodeType::Loop, _) => 2..actual,
+        (
+            NodeType::Scan
+            | NodeType::Concat
+            | NodeType::Sum
+            | NodeType::Mean
+            | NodeType::Max
+            | NodeType::Min,
+            _,
+        ) => 0..actual,
+        (NodeType::Slice, _) => 0..3,
+        (NodeType::Tile | NodeType::MatMulInteger, _) => 0..2,
+        (_, InputSpec::Exact(n) | InputSpec::AtLeast(n) | InputSpec::Range(n, _)) => 0..*n,
+        (_, InputSpec::OpsetDependent(_)) => 0..0,
+    };
+    for (i, input) in node.inputs.iter().enumerate().take(actual) {
+        if required.contains(&i) && input.is_optional() {
+            return Err(ProcessError::MissingInput(format!(
+                "{:?} node '{}': input {i} is required",
+                node.node_type, node.name
+            )));
+        }
+    }
+
     match spec {
         InputSpec::Exact(expected) => {
             if actual != *expected {
-- 
2.43.0


From f25c6c40262dfbf6e395c9dcce40fc4cc3882267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:17 +0000
Subject: [PATCH 63/69] fix: refuse unknown Resize modes and a Mod whose fmod
 is not an integer

---
 crates/onnx-ir/src/node/modulo.rs |  8 +++++++-
 crates/onnx-ir/src/node/resize.rs | 26 ++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/crates/onnx-ir/src/node/modulo.rs b/crates/onnx-ir/src/node/modulo.rs
index ce4c6d0..bbf2c08 100644
--- a/crates/onnx-ir/src/node/modulo.rs
+++ b/crates/onnx-ir/src/node/modulo.rs
@@ -130,7 +130,13 @@ impl NodeProcessor for ModuloProcessor {
                 // TODO: Validate fmod is 0 or 1 - Values other than 0 or 1 are undefined in spec - burn/crates/onnx-ir/src/node/modulo.rs:120
                 *value != 0
             }
-            _ => false, // Default value as per ONNX spec
+            Some(_) => {
+                return Err(ProcessError::InvalidAttribute {
+                    name: "fmod".to_string(),
+                    reason: "must be an integer".to_string(),
+                });
+            }
+            None => false, // Default value as per ONNX spec
         };
 
         let config = ModConfig::new(fmod);
diff --git a/crates/onnx-ir/src/node/resize.rs b/crates/onnx-ir/src/node/resize.rs
index 12b6307..89ae8de 100644
--- a/crates/onnx-ir/src/node/resize.rs
+++ b/crates/onnx-ir/src/node/resize.rs
@@ -339,6 +339,22 @@ impl NodeProcessor for ResizeProcessor {
                 }
                 "coordinate_transformation_mode" => {
                     // Stored in config, mapped to align_corners in codegen
+                    let mode = value.clone().into_string();
+                    if !matches!(
+                        mode.as_str(),
+                        "half_pixel"
+                            | "half_pixel_symmetric"
+                            | "pytorch_half_pixel"
+                            | "align_corners"
+                            | "asymmetric"
+                            | "tf_half_pixel_for_nn"
+                            | "tf_crop_and_resize"
+                    ) {
+                        return Err(ProcessError::InvalidAttribute {
+                            name: "coordinate_transformation_mode".to_string(),
+                            reason: format!("unknown mode '{mode}'"),
+                        });
+                    }
                 }
                 "cubic_coeff_a" => {
                     // FIXME: Implement conversion to enum and pass CubicCoeffA::HalfPixel
@@ -375,6 +391,16 @@ impl NodeProcessor for ResizeProcessor {
                 } // Validated in extract_config
                 "nearest_mode" => {
                     // FIXME: Implement conversion to enum
+                    let mode = value.clone().into_string();
+                    if !matches!(
+                        mode.as_str(),
+                        "round_prefer_floor" | "round_prefer_ceil" | "floor" | "ceil"
+                    ) {
+                        return Err(ProcessError::InvalidAttribute {
+                            name: "nearest_mode".to_string(),
+                            reason: format!("unknown mode '{mode}'"),
+                        });
+                    }
                 }
                 _ => {}
             }
-- 
2.43.0


From 4a4fdb852dfb2f07b295b3ccb6762176e550afd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:05 +0000
Subject: [PATCH 64/69] fix: an empty tensor stored outside the model file is
 not assumed to be there

---
 crates/onnx-ir/src/proto_conversion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/onnx-ir/src/proto_conversion.rs b/crates/onnx-ir/src/proto_conversion.rs
index cd3ceca..4be6bf9 100644
--- a/crates/onnx-ir/src/proto_conversion.rs
+++ b/crates/onnx-ir/src/proto_conversion.rs
@@ -217,6 +217,7 @@ pub fn argument_from_initializer(initializer: &TensorProto) -> (Argument, Tensor
             if dim_elems == 0
                 && payload_len == 0
                 && initializer.raw_data.is_empty()
+                && initializer.data_location.enum_value() != Ok(DataLocation::EXTERNAL)
                 && !dims.is_empty()
             {
                 // Map ONNX data_type -> DType.
-- 
2.43.0


From 9bd4bf8e2792461e3d50e3f61f1bb9c86e47232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:41 +0000
Subject: [PATCH 65/69] fix: refuse graph attributes of operators that have
 none

---
 crates/onnx-ir/src/pipeline.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/onnx-ir/src/pipeline.rs b/crates/onnx-ir/src/pipeline.rs
index d4369e8..3f6044b 100644
--- a/crates/onnx-ir/src/pipeline.rs
+++ b/crates/onnx-ir/src/pipeline.rs
@@ -464,6 +464,13 @@ fn validate_graph(
         }
         for attribute in &node.attribute {
             for subgraph in attribute.g.iter().chain(&attribute.graphs) {
+                if !["If", "Loop", "Scan"]
+                    .iter()
+                    .any(|op| node.op_type.eq_ignore_ascii_case(op))
+                {
+                    let name = &attribute.name;
+                    return Err(format!("{label}: attribute '{name}' is a graph"));
+                }
                 validate_graph(model, subgraph, Some(&scope))?;
             }
         }
-- 
2.43.0


From 1750ebebf93d7ecb836636b592479097a85b39b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:32 +0000
Subject: [PATCH 66/69] fix: give every value a name of its own that is an
 identifier

---
 crates/onnx-ir/src/pipeline.rs | 183 ++++++++++++++++++++++++++++++++-
 1 file changed, 181 insertions(+), 2 deletions(-)

diff --git a/crates/onnx-ir/src/pipeline.rs b/crates/onnx-ir/src/pipeline.rs
index 3f6044b..8ab6e8d 100644
--- a/crates/onnx-ir/src/pipeline.rs
+++ b/crates/onnx-ir/src/pipeline.rs
@@ -24,13 +24,19 @@
 //! ```
 
 use std::io::Read;
-use std::{collections::HashSet, fmt, fs::File, path::Path};
+use std::{
+    collections::{HashMap, HashSet},
+    fmt,
+    fs::File,
+    path::Path,
+};
 
 use protobuf::Message;
 
 use crate::{
     ir::{Argument, OnnxGraph},
     processor::ProcessError,
+    proto_conversion::sanitize_name,
     protos::{GraphProto, ModelProto},
 };
 
@@ -254,7 +260,7 @@ impl OnnxGraphBuilder {
         // Get the base directory for external data resolution
         let base_path = source_path.and_then(|p| p.parent());
 
-        let model: ModelProto =
+        let mut model: ModelProto =
             Message::parse_from_tokio_bytes(&buffer).map_err(|e| Error::InvalidFormat {
                 path: path_str.clone(),
                 error: e.to_string(),
@@ -269,6 +275,9 @@ impl OnnxGraphBuilder {
         }
 
         validate_model(&model).map_err(|reason| Error::InvalidGraphStructure { reason })?;
+        if let Some(graph) = model.graph.as_mut() {
+            rename_values(graph);
+        }
 
         let graph = build_graph_with_options(&model, base_path, self.simplify)?;
 
@@ -281,6 +290,176 @@ impl OnnxGraphBuilder {
     }
 }
 
+/// Give every value of the model, those of nested graphs included, a name of its own that is an
+/// identifier.
+///
+/// ONNX allows any string as the name of a value. Sanitizing makes different names equal ("a.b"
+/// and "a_b"), keeps keywords, and leaves nothing of some names. Names that are usable as they
+/// are stay; every other name becomes its sanitized form, numbered where that is taken.
+fn rename_values(graph: &mut GraphProto) {
+    let mut order = Vec::new();
+    collect_value_names(graph, &mut order);
+
+    let mut taken: HashSet<String> = order
+        .iter()
+        .filter(|name| is_usable_name(name))
+        .cloned()
+        .collect();
+    let mut renamed: HashMap<String, String> = HashMap::new();
+    for name in order {
+        if is_usable_name(&name) || renamed.contains_key(&name) {
+            continue;
+        }
+        let sanitized = sanitize_name(&name);
+        let base = match sanitized.trim_matches('_') {
+            "" => "value",
+            _ => sanitized.as_str(),
+        };
+        let mut candidate = base.to_string();
+        let mut number = 2;
+        while !is_usable_name(&candidate) || taken.contains(&candidate) {
+            candidate = format!("{base}_{number}");
+            number += 1;
+        }
+        taken.insert(candidate.clone());
+        renamed.insert(name, candidate);
+    }
+    if !renamed.is_empty() {
+        apply_value_names(graph, &renamed);
+    }
+}
+
+/// Is the name an identifier that sanitizing keeps, and not one that is generated: for the output
+/// of a node, or for a variable in the code of an operator?
+fn is_usable_name(name: &str) -> bool {
+    let stem = name.trim_end_matches(|c: char| c.is_ascii_digit());
+    let generated = GENERATED_NAMES.contains(&name)
+        || (stem.len() < name.len()
+            && (stem.ends_with("_out") || NUMBERED_GENERATED_NAMES.contains(&stem)));
+    !generated && name != "_" && sanitize_name(name) == name && !RUST_KEYWORDS.contains(&name)
+}
+
+fn collect_value_names(graph: &GraphProto, names: &mut Vec<String>) {
+    let mut push = |name: &String| {
+        if !name.is_empty() {
+            names.push(name.clone());
+        }
+    };
+    graph.input.iter().for_each(|value| push(&value.name));
+    graph.initializer.iter().for_each(|value| push(&value.name));
+    for node in &graph.node {
+        node.input.iter().chain(&node.output).for_each(&mut push);
+    }
+    graph.output.iter().for_each(|value| push(&value.name));
+    for attribute in graph.node.iter().flat_map(|node| &node.attribute) {
+        for subgraph in attribute.g.iter().chain(&attribute.graphs) {
+            collect_value_names(subgraph, names);
+        }
+    }
+}
+
+fn apply_value_names(graph: &mut GraphProto, renamed: &HashMap<String, String>) {
+    let rename = |name: &mut String| {
+        if let Some(new) = renamed.get(name) {
+            name.clone_from(new);
+        }
+    };
+    for value in graph
+        .input
+        .iter_mut()
+        .chain(&mut graph.output)
+        .chain(&mut graph.value_info)
+    {
+        rename(&mut value.name);
+    }
+    for initializer in &mut graph.initializer {
+        rename(&mut initializer.name);
+    }
+    for node in &mut graph.node {
+        node.input
+            .iter_mut()
+            .chain(&mut node.output)
+            .for_each(rename);
+        for attribute in &mut node.attribute {
+            for subgraph in attribute
+                .g
+                .as_mut()
+                .into_iter()
+                .chain(&mut attribute.graphs)
+            {
+                apply_value_names(subgraph, renamed);
+            }
+        }
+    }
+}
+
+/// Rust's strict and reserved keywords, none of which can name a value.
+const RUST_KEYWORDS: [&str; 51] = [
+    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate",
+    "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "gen", "if", "impl",
+    "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref",
+    "return", "self", "static", "struct", "super", "trait", "true", "try", "type", "typeof",
+    "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
+];
+
+/// Variables that the code generated for some operator binds while it still reads the values of
+/// the model, which must not have the same names.
+const GENERATED_NAMES: [&str; 51] = [
+    "_l",
+    "_scalar_tensor",
+    "b",
+    "batch_count",
+    "batch_data_stride",
+    "batch_size",
+    "c",
+    "channels",
+    "col_channels",
+    "cond",
+    "data_dims",
+    "data_strides",
+    "dim",
+    "end_vec",
+    "flat_indices",
+    "gathered",
+    "h",
+    "head_size",
+    "i",
+    "idx_strides",
+    "index_dims",
+    "indices",
+    "indices_dims",
+    "indices_values",
+    "input_dims",
+    "input_dtype",
+    "kv_sequence_length",
+    "leading_dim",
+    "lookups_per_batch",
+    "loop_limit",
+    "num_updates",
+    "offset",
+    "onnx_shape",
+    "output_flat",
+    "output_size",
+    "q_hidden_size",
+    "q_sequence_length",
+    "r",
+    "seq_len",
+    "shape",
+    "shape_array",
+    "slice_size",
+    "start_vec",
+    "total_data",
+    "total_data_size",
+    "total_size",
+    "total_slices",
+    "total_updates",
+    "updates_dims",
+    "v_head_size",
+    "w",
+];
+const NUMBERED_GENERATED_NAMES: [&str; 3] =
+    ["scan_collector_", "scan_output_", "scan_output_collector_"];
+
 /// Build IR graph from ONNX model with base path and simplification option
 fn build_graph_with_options(
     model: &ModelProto,
-- 
2.43.0


From 2e9c6c67ee85c72dd3e7b7cf9dddc236f90a4383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:32 +0000
Subject: [PATCH 67/69] fix: inputs named like a variable of the code of
 Attention, Expand, GatherND or ScatterND

---
 crates/burn-onnx/src/burn/argument_helpers.rs | 20 ++++++++
 crates/burn-onnx/src/burn/node/attention.rs   | 49 ++++++++++++++-----
 crates/burn-onnx/src/burn/node/expand.rs      |  9 ++++
 crates/burn-onnx/src/burn/node/gathernd.rs    |  7 ++-
 crates/burn-onnx/src/burn/node/prelude.rs     |  4 +-
 crates/burn-onnx/src/burn/node/scatter_nd.rs  | 12 +++--
 6 files changed, 82 insertions(+), 19 deletions(-)

diff --git a/crates/burn-onnx/src/burn/argument_helpers.rs b/crates/burn-onnx/src/burn/argument_helpers.rs
index feb3263..b2996cd 100644
--- a/crates/burn-onnx/src/burn/argument_helpers.rs
+++ b/crates/burn-onnx/src/burn/argument_helpers.rs
@@ -105,6 +105,26 @@ pub fn shape_to_native(input: TokenStream, dtype: &DType) -> TokenStream {
     quote! { #input[0] as #ty }
 }
 
+/// Keep the inputs of a node under other names where the name of one is among `locals`, variables
+/// that the code of the node binds before it is done with its inputs.
+///
+/// Produces: `let input_0 = <input 0>; ...`, or nothing
+pub fn keep_from(
+    locals: &[&str],
+    args: &[Argument],
+    values: &mut [&mut TokenStream],
+) -> TokenStream {
+    let mut bindings = TokenStream::new();
+    if args.iter().any(|arg| locals.contains(&arg.name.as_str())) {
+        for (index, value) in values.iter_mut().enumerate() {
+            let kept = quote::format_ident!("input_{index}");
+            bindings.extend(quote! { let #kept = #value; });
+            **value = quote! { #kept };
+        }
+    }
+    bindings
+}
+
 /// Get the argument identifier
 pub fn arg_ident(arg: &Argument) -> Ident {
     Ident::new(&arg.name, Span::call_site())
diff --git a/crates/burn-onnx/src/burn/node/attention.rs b/crates/burn-onnx/src/burn/node/attention.rs
index 853f14f..5d6ee88 100644
--- a/crates/burn-onnx/src/burn/node/attention.rs
+++ b/crates/burn-onnx/src/burn/node/attention.rs
@@ -38,15 +38,37 @@ impl NodeCodegen for onnx_ir::attention::AttentionNode {
     }
 }
 
+/// An input of the node. The generated code binds `q`, `k` and `v`; where an input that is read
+/// later happens to have one of these names, all inputs are kept under other names first.
+fn input_before(
+    node: &onnx_ir::attention::AttentionNode,
+    index: usize,
+    scope: &mut ScopeAtPosition<'_>,
+    before: &mut TokenStream,
+) -> TokenStream {
+    let value = scope.arg(&node.inputs[index]);
+    let shadowed = node.inputs.iter().enumerate().any(|(index, input)| {
+        let local = ["q", "k", "v"].iter().position(|name| input.name == *name);
+        local.is_some_and(|local| local < index)
+    });
+    if !shadowed {
+        return value;
+    }
+    let kept = quote::format_ident!("attention_input_{index}");
+    before.extend(quote! { let #kept = #value; });
+    quote! { #kept }
+}
+
 /// Generates code using `burn::tensor::module::attention()` which dispatches to
 /// optimized backend implementations (e.g. flash attention on GPU).
 fn forward_burn_attention(
     node: &onnx_ir::attention::AttentionNode,
     scope: &mut ScopeAtPosition<'_>,
 ) -> TokenStream {
-    let q = scope.arg(node.inputs.first().unwrap());
-    let k = scope.arg(node.inputs.get(1).unwrap());
-    let v = scope.arg(node.inputs.get(2).unwrap());
+    let mut before = TokenStream::new();
+    let q = input_before(node, 0, scope, &mut before);
+    let k = input_before(node, 1, scope, &mut before);
+    let v = input_before(node, 2, scope, &mut before);
     let output_y = arg_to_ident(node.outputs.first().unwrap());
 
     let past_kv = matches!((node.inputs.get(4), node.inputs.get(5)), (Some(_), Some(_)));
@@ -105,8 +127,8 @@ fn forward_burn_attention(
 
     // KV cache concatenation
     if past_kv {
-        let past_k = scope.arg(node.inputs.get(4).unwrap());
-        let past_v = scope.arg(node.inputs.get(5).unwrap());
+        let past_k = input_before(node, 4, scope, &mut before);
+        let past_v = input_before(node, 5, scope, &mut before);
         let present_k = arg_to_ident(node.outputs.get(1).unwrap());
         let present_v = arg_to_ident(node.outputs.get(2).unwrap());
 
@@ -149,7 +171,7 @@ fn forward_burn_attention(
     };
 
     let (mask_tokens, bias_tokens) = if let Some(mask_input) = mask_input {
-        let mask_arg = scope.arg(mask_input);
+        let mask_arg = input_before(node, 3, scope, &mut before);
         match &mask_input.ty {
             ArgType::Tensor(t) if t.dtype.is_bool() => {
                 let mask = match t.rank {
@@ -201,6 +223,7 @@ fn forward_burn_attention(
 
     quote! {
         let #output = {
+            #before
             #body
             #output
         };
@@ -213,9 +236,10 @@ fn forward_custom(
     node: &onnx_ir::attention::AttentionNode,
     scope: &mut ScopeAtPosition<'_>,
 ) -> TokenStream {
-    let q = scope.arg(node.inputs.first().unwrap());
-    let k = scope.arg(node.inputs.get(1).unwrap());
-    let v = scope.arg(node.inputs.get(2).unwrap());
+    let mut before = TokenStream::new();
+    let q = input_before(node, 0, scope, &mut before);
+    let k = input_before(node, 1, scope, &mut before);
+    let v = input_before(node, 2, scope, &mut before);
     let output_y = arg_to_ident(node.outputs.first().unwrap());
 
     let past_kv = match (node.inputs.get(4), node.inputs.get(5)) {
@@ -292,8 +316,8 @@ fn forward_custom(
     }
 
     if past_kv && present_kv {
-        let past_k = scope.arg(node.inputs.get(4).unwrap());
-        let past_v = scope.arg(node.inputs.get(5).unwrap());
+        let past_k = input_before(node, 4, scope, &mut before);
+        let past_v = input_before(node, 5, scope, &mut before);
         let present_k = arg_to_ident(node.outputs.get(1).unwrap());
         let present_v = arg_to_ident(node.outputs.get(2).unwrap());
 
@@ -321,7 +345,7 @@ fn forward_custom(
     }};
 
     let mut attn_mask = if let Some(mask_input) = node.inputs.get(3).filter(|a| !a.is_optional()) {
-        let mask_arg = scope.arg(mask_input);
+        let mask_arg = input_before(node, 3, scope, &mut before);
         let mask = match &mask_input.ty {
             onnx_ir::ir::ArgType::Tensor(t) => match &t.dtype {
                 dtype if dtype.is_int() || dtype.is_uint() => {
@@ -418,6 +442,7 @@ fn forward_custom(
 
     quote! {
         let #output = {
+            #before
             #body
 
             let q_scaled = q * scale;
diff --git a/crates/burn-onnx/src/burn/node/expand.rs b/crates/burn-onnx/src/burn/node/expand.rs
index fcfaef6..a68b038 100644
--- a/crates/burn-onnx/src/burn/node/expand.rs
+++ b/crates/burn-onnx/src/burn/node/expand.rs
@@ -54,8 +54,17 @@ impl NodeCodegen for onnx_ir::expand::ExpandNode {
                 _ if dtype.is_float() => quote! {},
                 _ => quote! { , Int },
             };
+            // A shape known at runtime only is read before `input` is bound: it may have that name
+            let (read_shape, shape) = match &self.config {
+                onnx_ir::expand::ExpandConfig::Static(_) => (quote! {}, shape),
+                onnx_ir::expand::ExpandConfig::Runtime(_) => (
+                    quote! { let onnx_shape: [i64; #output_rank] = #shape; },
+                    quote! { onnx_shape },
+                ),
+            };
             return quote! {
                 let #output = {
+                    #read_shape
                     let input = Tensor::<B, 1 #kind>::from_data_dtype(
                         burn::tensor::TensorData::from([#input]),
                         &*self.device,
diff --git a/crates/burn-onnx/src/burn/node/gathernd.rs b/crates/burn-onnx/src/burn/node/gathernd.rs
index 554c0a7..e7e9ba8 100644
--- a/crates/burn-onnx/src/burn/node/gathernd.rs
+++ b/crates/burn-onnx/src/burn/node/gathernd.rs
@@ -10,8 +10,9 @@ impl NodeCodegen for onnx_ir::gathernd::GatherNDNode {
     }
 
     fn forward(&self, scope: &mut ScopeAtPosition<'_>) -> TokenStream {
-        let data = scope.arg(self.inputs.first().unwrap());
-        let indices = scope.arg(&self.inputs[1]);
+        let mut data = scope.arg(self.inputs.first().unwrap());
+        let mut indices = scope.arg(&self.inputs[1]);
+        let kept = keep_from(&["q", "k"], &self.inputs, &mut [&mut data, &mut indices]);
         let output = arg_to_ident(self.outputs.first().unwrap());
 
         let batch_dims_lit = proc_macro2::Literal::usize_unsuffixed(self.config.batch_dims);
@@ -45,6 +46,7 @@ impl NodeCodegen for onnx_ir::gathernd::GatherNDNode {
 
             quote! {
                 let #output = {
+                    #kept
                     let data_dims = #data.dims();
                     let indices_data = #indices.to_data().convert::<i64>();
                     let indices_values: alloc::vec::Vec<i64> = indices_data.into_vec::<i64>().unwrap();
@@ -77,6 +79,7 @@ impl NodeCodegen for onnx_ir::gathernd::GatherNDNode {
 
             quote! {
                 let #output = {
+                    #kept
                     let data_dims = #data.dims();
                     let indices_dims = #indices.dims();
                     let indices_data = #indices.to_data().convert::<i64>();
diff --git a/crates/burn-onnx/src/burn/node/prelude.rs b/crates/burn-onnx/src/burn/node/prelude.rs
index 68114a0..dc38c23 100644
--- a/crates/burn-onnx/src/burn/node/prelude.rs
+++ b/crates/burn-onnx/src/burn/node/prelude.rs
@@ -13,8 +13,8 @@
 /// Re-export common traits and helpers from parent module
 pub(crate) use super::{NodeCodegen, arg_to_ident};
 pub(crate) use crate::burn::argument_helpers::{
-    arg_type_tokens, broadcast_shape_operands, on_device_to_native, scalar_native_to_shape, scalar_tensor_to_shape,
-    shape_to_native,
+    arg_type_tokens, broadcast_shape_operands, keep_from, on_device_to_native,
+    scalar_native_to_shape, scalar_tensor_to_shape, shape_to_native,
 };
 
 // Re-export common burn-onnx types
diff --git a/crates/burn-onnx/src/burn/node/scatter_nd.rs b/crates/burn-onnx/src/burn/node/scatter_nd.rs
index 3e5fb0b..2fa3646 100644
--- a/crates/burn-onnx/src/burn/node/scatter_nd.rs
+++ b/crates/burn-onnx/src/burn/node/scatter_nd.rs
@@ -12,9 +12,14 @@ impl NodeCodegen for onnx_ir::scatter_nd::ScatterNDNode {
     }
 
     fn forward(&self, scope: &mut ScopeAtPosition<'_>) -> TokenStream {
-        let data = scope.arg(self.inputs.first().unwrap());
-        let indices = scope.arg(&self.inputs[1]);
-        let updates = scope.arg(&self.inputs[2]);
+        let mut data = scope.arg(self.inputs.first().unwrap());
+        let mut indices = scope.arg(&self.inputs[1]);
+        let mut updates = scope.arg(&self.inputs[2]);
+        let kept = keep_from(
+            &["q", "k"],
+            &self.inputs,
+            &mut [&mut data, &mut indices, &mut updates],
+        );
         let output = arg_to_ident(self.outputs.first().unwrap());
 
         let data_arg = self.inputs.first().unwrap();
@@ -75,6 +80,7 @@ impl NodeCodegen for onnx_ir::scatter_nd::ScatterNDNode {
 
         quote! {
             let #output = {
+                #kept
                 let data_dims = #data.dims();
                 let indices_dims = #indices.dims();
                 let indices_data = #indices.to_data().convert::<i64>();
-- 
2.43.0


From d0a2309cece333934723968681c6ed499b64352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:11 +0000
Subject: [PATCH 68/69] fix: embedding weights into code generated to a
 relative directory

---
 crates/burn-onnx/src/burn/graph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/burn-onnx/src/burn/graph.rs b/crates/burn-onnx/src/burn/graph.rs
index c10f1c4..4acf057 100644
--- a/crates/burn-onnx/src/burn/graph.rs
+++ b/crates/burn-onnx/src/burn/graph.rs
@@ -325,6 +325,9 @@ impl BurnGraph {
         let file_size = std::fs::metadata(&file)
             .expect("Failed to read burnpack file metadata")
             .len() as usize;
+        // `include_bytes!` takes a relative path from the directory of the source file, not from the
+        // one in which the file was just written
+        let file = std::path::absolute(&file).expect("Failed to locate burnpack file");
         let file = file.to_str().unwrap();
 
         self.default = Some(quote! {
-- 
2.43.0


From 27a9d59b45ffde41f285ed530ce883ce0ebdbf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:11 +0000
Subject: [PATCH 69/69] fix: model names with dots keep all their parts,
 development mode writes the documented graph.txt

---
 crates/burn-onnx/src/model_gen.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/burn-onnx/src/model_gen.rs b/crates/burn-onnx/src/model_gen.rs
index ef3c6c1..f337ca8 100644
--- a/crates/burn-onnx/src/model_gen.rs
+++ b/crates/burn-onnx/src/model_gen.rs
@@ -324,14 +324,18 @@ impl ModelGen {
             self.write_debug_file(&out_file, "onnx.txt", &graph);
         }
 
-        let graph = ParsedOnnxGraph(graph);
+        let graph = ParsedOnnxGraph(graph).into_burn();
+
+        if self.development {
+            self.write_debug_file(&out_file, "graph.txt", &graph);
+        }
 
         let top_comment = Some(format!("Generated from ONNX {input:?} by burn-onnx"));
 
         let code = self.generate_burn_graph(graph, &out_file, top_comment);
 
         let code_str = format_tokens(code);
-        let source_code_file = out_file.with_extension("rs");
+        let source_code_file = with_suffix(&out_file, "rs");
         log::info!("Writing source code to {}", source_code_file.display());
         fs::write(source_code_file, code_str).unwrap();
 
@@ -341,7 +345,7 @@ impl ModelGen {
     /// Write debug file in development mode.
     fn write_debug_file<T: std::fmt::Debug>(&self, out_file: &Path, extension: &str, content: &T) {
         let debug_content = format!("{content:#?}");
-        let debug_file = out_file.with_extension(extension);
+        let debug_file = with_suffix(out_file, extension);
         log::debug!("Writing debug file: {debug_file:?}");
         fs::write(debug_file, debug_content).unwrap();
     }
@@ -349,13 +353,12 @@ impl ModelGen {
     /// Generate BurnGraph and codegen.
     fn generate_burn_graph(
         &self,
-        graph: ParsedOnnxGraph,
+        graph: BurnGraph,
         out_file: &Path,
         top_comment: Option<String>,
     ) -> proc_macro2::TokenStream {
-        let bpk_file = out_file.with_extension("bpk");
+        let bpk_file = with_suffix(out_file, "bpk");
         graph
-            .into_burn()
             .with_burnpack(bpk_file, self.embed_states)
             .with_blank_space(true)
             .with_top_comment(top_comment)
@@ -363,6 +366,14 @@ impl ModelGen {
     }
 }
 
+/// The file of a model with the given extension. The name of the model may have dots of its own.
+fn with_suffix(out_file: &Path, extension: &str) -> PathBuf {
+    let mut file = out_file.as_os_str().to_owned();
+    file.push(".");
+    file.push(extension);
+    PathBuf::from(file)
+}
+
 #[derive(Debug)]
 struct ParsedOnnxGraph(OnnxGraph);
 
-- 
2.43.0

