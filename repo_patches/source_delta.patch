From bfc1028f5d053ec92d1043de5c745049b5aaba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 01/75] fix: import Tile and Reduce nodes whose input name is
 longer than one character

dict_input must map a layer to a list of tensor names; a bare string was
iterated character by character.
---
 .../importers/ONNX_importer/create_layer.py          | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 7217f56..1124030 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -751,7 +751,7 @@ def create_tile(
     input_shape = get_shape(node.input[0], model)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     repeats = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
     repeats = [int(rep) for rep in repeats]
@@ -784,7 +784,7 @@ def create_reduce_sum(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
@@ -838,7 +838,7 @@ def create_reduce_max(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
@@ -892,7 +892,7 @@ def create_reduce_min(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
@@ -946,7 +946,7 @@ def create_reduce_mean(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
@@ -1000,7 +1000,7 @@ def create_reduce_prod(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
-- 
2.43.0


From 81a2de858171f54608e0dfa96eaf3eaa4b68fb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 02/75] fix: import ONNX Gemm nodes that have no bias input

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 1124030..a6a2ebd 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -575,10 +575,11 @@ def create_gemm(
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     b_tensor = look_for_initializer(node.input[1], model)
-    if len(node.input) == 3:  # noqa: PLR2004
+    if len(node.input) == 3 and node.input[2]:  # noqa: PLR2004
         c_tensor = look_for_initializer(node.input[2], model)
+        bias = onnx.numpy_helper.to_array(c_tensor)
     else:
-        c_tensor = np.zeros((1, 1))
+        bias = np.zeros(output_shape[-1])
     if "transA" not in attributes:
         attributes["transA"] = 0
     if "transB" not in attributes:
@@ -596,7 +597,7 @@ def create_gemm(
         transA=attributes["transA"],
         transB=attributes["transB"],
         weights=onnx.numpy_helper.to_array(b_tensor),
-        bias=onnx.numpy_helper.to_array(c_tensor),
+        bias=bias,
         input_shape=input_shape,
         output_shape=output_shape,
         activation_function=Linear(),
-- 
2.43.0


From 97b5da7d0028b9ca96a2f152a4fc66e5d2c44045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 03/75] fix: import constant operands of ONNX Div, Mul and Sub
 with their value and position

The constant was inverted (Div) or negated (Sub) twice, moved to the right
of the operator, and dropped altogether when one of its elements was neutral.
---
 .../importers/ONNX_importer/create_layer.py   | 86 ++++---------------
 1 file changed, 18 insertions(+), 68 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index a6a2ebd..db4100d 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1205,39 +1205,21 @@ def create_div(
     model: onnx.ModelProto,
 ) -> Divide:
     """Create a Divide layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.ones(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant / onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
-
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    # FIXME It seems like a test is missing here on the values of constant
-    if (constant != np.ones(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
+    dict_input[idx] = []
+    input_shapes = []
+    for name, shape in _collect_node_inputs(model, node):
+        input_shapes.append([1] * (4 - len(shape)) + list(shape))
+        dict_input[idx].append(name)
     return Divide(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=input_shapes,
+        input_shapes=np.array(input_shapes),
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
@@ -1250,37 +1232,21 @@ def create_mul(
     model: onnx.ModelProto,
 ) -> Multiply:
     """Create Multiply layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.ones(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant * onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    if (constant != np.ones(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
+    dict_input[idx] = []
+    input_shapes = []
+    for name, shape in _collect_node_inputs(model, node):
+        input_shapes.append([1] * (4 - len(shape)) + list(shape))
+        dict_input[idx].append(name)
     return Multiply(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=input_shapes,
+        input_shapes=np.array(input_shapes),
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
@@ -1293,37 +1259,21 @@ def create_sub(
     model: onnx.ModelProto,
 ) -> Subtract:
     """Create a Subtract layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.zeros(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant - onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    if (constant != np.zeros(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
+    dict_input[idx] = []
+    input_shapes = []
+    for name, shape in _collect_node_inputs(model, node):
+        input_shapes.append([1] * (4 - len(shape)) + list(shape))
+        dict_input[idx].append(name)
     return Subtract(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=input_shapes,
+        input_shapes=np.array(input_shapes),
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
-- 
2.43.0


From b431671b4617f91d043d8d236a5e8269370298ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 04/75] fix: import ONNX Mean nodes (input shapes must be an
 array)

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index db4100d..1b0dba5 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1349,7 +1349,7 @@ def create_avg(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=input_shapes,
+        input_shapes=np.array(input_shapes),
         output_shape=output_shape,
         activation_function=Linear(),
     )
-- 
2.43.0


From 77ce08e65df801d45b0906c57fb70facd676bb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 05/75] fix: broadcast layers' Python reference handles a
 smaller first operand and leaves its inputs alone

In-place accumulation failed when the first operand is the one to broadcast, and
Average accumulated into the upstream layer's output array.
---
 src/acetone_nnet/generator/layers/broadcast/add/Add.py      | 2 +-
 .../generator/layers/broadcast/average/Average.py           | 6 +++---
 .../generator/layers/broadcast/divide/Divide.py             | 2 +-
 .../generator/layers/broadcast/maximum/Maximum.py           | 6 +++---
 .../generator/layers/broadcast/minimum/Minimum.py           | 6 +++---
 .../generator/layers/broadcast/multiply/Multiply.py         | 2 +-
 .../generator/layers/broadcast/subtract/Subtract.py         | 2 +-
 7 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/broadcast/add/Add.py b/src/acetone_nnet/generator/layers/broadcast/add/Add.py
index 6e5ba75..d4a5320 100644
--- a/src/acetone_nnet/generator/layers/broadcast/add/Add.py
+++ b/src/acetone_nnet/generator/layers/broadcast/add/Add.py
@@ -118,7 +118,7 @@ class Add(Layer):
                 .astype(dtype=getattr(self, "temp_pydtype", input_arrays[0].dtype))
             )
             for i in range(1, len(input_arrays)):
-                output += np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output + np.reshape(input_arrays[i], self.input_shapes[i][1:])
             """ checks that accumulator does not overflow in low precision integer """
             if np.issubdtype(input_arrays[0].dtype,np.integer):
                 out_i64 = (
diff --git a/src/acetone_nnet/generator/layers/broadcast/average/Average.py b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
index befd1f7..0816952 100644
--- a/src/acetone_nnet/generator/layers/broadcast/average/Average.py
+++ b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
@@ -113,9 +113,9 @@ class Average(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        output = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            output += input_array
+        output = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for i in range(1, len(input_arrays)):
+            output = output + np.reshape(input_arrays[i], self.input_shapes[i][1:])
         return self.activation_function.compute(output / (len(input_arrays)))
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py b/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
index 29f1557..d67a028 100644
--- a/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
+++ b/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
@@ -131,7 +131,7 @@ class Divide(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output /= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output / np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output / constant)
diff --git a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
index d36fe5e..b2c543f 100644
--- a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
@@ -124,9 +124,9 @@ class Maximum(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        maxi = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            maxi = np.maximum(maxi, input_array)
+        maxi = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for i in range(1, len(input_arrays)):
+            maxi = np.maximum(maxi, np.reshape(input_arrays[i], self.input_shapes[i][1:]))
         return self.activation_function.compute(maxi)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
index 479c5e0..9c99532 100644
--- a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
@@ -124,9 +124,9 @@ class Minimum(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        mini = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            mini = np.minimum(mini, input_array)
+        mini = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for i in range(1, len(input_arrays)):
+            mini = np.minimum(mini, np.reshape(input_arrays[i], self.input_shapes[i][1:]))
         return self.activation_function.compute(mini)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py b/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
index 392e569..6f5444c 100644
--- a/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
+++ b/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
@@ -131,7 +131,7 @@ class Multiply(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output *= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output * np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output * constant)
diff --git a/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py b/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
index db4bde4..e98e39c 100644
--- a/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
+++ b/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
@@ -131,7 +131,7 @@ class Subtract(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output -= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output - np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output - constant)
-- 
2.43.0


From 9510524c36ee9544dfdda89db5d57953c6007ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 06/75] fix: release a tensor consumed twice by the same layer
 only once

assign_liveliness_index and assign_cst put the buffer of such a tensor twice on
the free list, so two live tensors could later share one buffer.
---
 src/acetone_nnet/graph/graph_interpretor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/graph/graph_interpretor.py b/src/acetone_nnet/graph/graph_interpretor.py
index 0663cf2..ecf8749 100644
--- a/src/acetone_nnet/graph/graph_interpretor.py
+++ b/src/acetone_nnet/graph/graph_interpretor.py
@@ -90,7 +90,7 @@ def assign_liveliness_index(execution_order: list[Layer]) -> dict[int, int]:
     for n in execution_order:
         assert n.idx not in indexes
         # Free the indices of all predecessors' outputs after use
-        for p in n.previous_layer:
+        for p in {i.idx: i for i in n.previous_layer}.values():
             assert p.idx in indexes
             # Check all consumers of a tensor have been executed (except the current one)
             if all(s.idx in indexes for s in p.next_layer if s.idx != n.idx):
@@ -116,7 +116,7 @@ def assign_cst(
     for layer in execution_order:
         visited_layers.add(layer.idx)
         # Free cst if all successors have been visited
-        for parent in layer.previous_layer:
+        for parent in {i.idx: i for i in layer.previous_layer}.values():
             if parent.idx in dict_cst and all(
                 s.idx in visited_layers for s in parent.next_layer
             ):
-- 
2.43.0


From 39d5e87bc71fcbf60879d033ecd1565ce8f1fd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 07/75] fix: accept Gemm layers whose alpha is not 1 while beta
 is 1

---
 src/acetone_nnet/generator/layers/gemm/Gemm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/gemm/Gemm.py b/src/acetone_nnet/generator/layers/gemm/Gemm.py
index e865827..bfb11f3 100644
--- a/src/acetone_nnet/generator/layers/gemm/Gemm.py
+++ b/src/acetone_nnet/generator/layers/gemm/Gemm.py
@@ -100,7 +100,7 @@ class Gemm(Layer):
         ):
             msg += "Error: alpha type in Gemm (alpha must be int or float)"
             msg += "\n"
-        if self.alpha != [] and (
+        if self.beta != [] and (
             type(self.beta[0]) is not float and type(self.beta[0]) is int
         ):
             msg += "Error: beta type in Gemm (beta must be int or float)"
-- 
2.43.0


From f6fd40a39904bfe99f1db8e70c62665f286c748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 08/75] fix: ReduceMax and ReduceMin over two axes read the
 tensor they reduce

The comparison read the buffer of the output path instead of the input tensor,
and the starting value belonged to another slice.
---
 src/acetone_nnet/generator/layers/reduce/Reduce.py      | 6 +++---
 src/acetone_nnet/templates/layers/template_Reduce.c.tpl | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/reduce/Reduce.py b/src/acetone_nnet/generator/layers/reduce/Reduce.py
index 00cb37d..604fdeb 100644
--- a/src/acetone_nnet/generator/layers/reduce/Reduce.py
+++ b/src/acetone_nnet/generator/layers/reduce/Reduce.py
@@ -221,7 +221,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_height
                 mustach_hash["position"] = f"f + {self.input_width}*(j + {self.input_height}*i)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[f]"
 
             elif which_dim_to_reduc == "cw":
                 mustach_hash["output_dimension"] = self.output_height
@@ -229,7 +229,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_width
                 mustach_hash["position"] = f"j + {self.input_width}*(f + {self.input_height}*i)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_height}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width}*f]"
 
             elif which_dim_to_reduc == "hw":
                 mustach_hash["output_dimension"] = self.output_channels
@@ -237,7 +237,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_width
                 mustach_hash["position"] = f"j + {self.input_width}*(i + {self.input_height}*f)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_channels}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width * self.input_height}*f]"
 
             if self.reduce_func == "Mean":
                 mustach_hash["nb_elements"] = mustach_hash["reduced_dimension_1"] * mustach_hash["reduced_dimension_2"]
diff --git a/src/acetone_nnet/templates/layers/template_Reduce.c.tpl b/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
index a6f7f1e..ca70a3e 100644
--- a/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
@@ -35,13 +35,13 @@
             for (j = 0; j < {{reduced_dimension_2}}; ++j)
             {
                 {{#Max}}
-                if (ctx->output_{{road}}[{{position}}] > ctx->tensor_temp[f])
+                if (ctx->{{output_str}}[{{position}}] > ctx->tensor_temp[f])
                 {
                     ctx->tensor_temp[f] = ctx->{{output_str}}[{{position}}];
                 }
                 {{/Max}}
                 {{#Min}}
-                if (ctx->output_{{road}}[{{position}}] < ctx->tensor_temp[f])
+                if (ctx->{{output_str}}[{{position}}] < ctx->tensor_temp[f])
                 {
                     ctx->tensor_temp[f] = ctx->{{output_str}}[{{position}}];
                 }
-- 
2.43.0


From 641edbf70f2fa3186a857fa328b9b0832902fbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 09/75] fix: reflect padding of a tensor with a dimension of
 size one

The generated code computed a remainder modulo zero and the program was killed.
---
 .../templates/layers/Pad/template_Reflect_Pad.c.tpl       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl
index 639089c..66d3ae2 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl
@@ -1,3 +1,4 @@
+                {{#channels_max}}
                 new_f = ({{pads_front}} - f) % (2*{{channels_max}});
                 if(new_f < 0)
                 {
@@ -7,7 +8,9 @@
                 {
                     new_f = 2*{{channels_max}} - new_f;
                 }
+                {{/channels_max}}
 
+                {{#height_max}}
                 new_i = ({{pads_top}} - i) % (2*{{height_max}});
                 if(new_i < 0)
                 {
@@ -17,7 +20,9 @@
                 {
                     new_i = 2*{{height_max}} - new_i;
                 }
+                {{/height_max}}
 
+                {{#width_max}}
                 new_j = ({{pads_left}} - j) % (2*{{width_max}});
                 if(new_j < 0)
                 {
@@ -26,4 +31,5 @@
                 if(new_j > {{width_max}})
                 {
                     new_j = 2*{{width_max}} - new_j;
-                }
\ No newline at end of file
+                }
+                {{/width_max}}
\ No newline at end of file
-- 
2.43.0


From c2a182db7a1078839b7036d52b21ef4f62632712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 10/75] fix: Resize align_corners coordinates use real division

The generated code divided integers, and the reference divided by zero for an
output dimension of one.
---
 src/acetone_nnet/generator/layers/resize/Resize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/resize/Resize.py b/src/acetone_nnet/generator/layers/resize/Resize.py
index b9cc327..1edf17e 100644
--- a/src/acetone_nnet/generator/layers/resize/Resize.py
+++ b/src/acetone_nnet/generator/layers/resize/Resize.py
@@ -319,7 +319,9 @@ class Resize(Layer):
             length_original = self.input_width
             length_resized = self.output_width
 
-        s = (f"{coord_original} = {coord_resized}*({length_original} - 1)"
+        if length_resized == 1:
+            return f"{coord_original} = 0;"
+        s = (f"{coord_original} = {coord_resized}*({length_original} - 1.0)"
              f"/({length_resized} - 1);")
         return s
 
@@ -336,6 +338,8 @@ class Resize(Layer):
             length_original = self.input_width
             length_resized = self.output_width
 
+        if length_resized == 1:
+            return 0
         return coordinate * (length_original - 1) / (length_resized - 1)
 
     def asymmetric(
-- 
2.43.0


From d58dfd29abade500c1a68c5e62e0e4409a4574c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 11/75] fix: nearest Resize clamps the source index to the
 input tensor

Rounding down a negative coordinate or up the last one read outside the tensor.
---
 .../generator/layers/resize/resize_nearest/ResizeNearest.py     | 2 ++
 .../layers/resize/resize_nearest/ResizeNearestDefault.py        | 2 ++
 .../templates/layers/Resize/template_ResizeNearest.c.tpl        | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
index fdf8b18..fd18996 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
@@ -88,5 +88,7 @@ class ResizeNearest(Resize):
                     y = self.coordinate_transformation_mode_implem_mapping[self.coordinate_transformation_mode](j, 3)
                     y0 = self.nearest_mode_implem_mapping[self.nearest_mode](y)
 
+                    x0 = min(max(x0, 0), self.input_height - 1)
+                    y0 = min(max(y0, 0), self.input_width - 1)
                     output[f, i, j] = input_array[f, x0, y0]
         return output
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
index 66df2fd..0718c9b 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
@@ -71,6 +71,8 @@ class ResizeNearestDefault(ResizeNearest):
         mustach_hash["activation_function"] = self.activation_function.write_activation_str(
             f"ctx->{output_str}[y0 + {self.input_width}*(x0 + {self.input_height}*f)]")
 
+        mustach_hash["len_height"] = self.input_height - 1
+        mustach_hash["len_width"] = self.input_width - 1
         mustach_hash["output_channels"] = self.output_channels
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
index 243cd4c..082ea00 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
@@ -9,6 +9,8 @@
                 {{{coordinate_transformation_mode_y}}}
                 {{nearest_mode_x}}
                 {{nearest_mode_y}}
+                x0 = x0 < 0 ? 0 : (x0 > {{len_height}} ? {{len_height}} : x0);
+                y0 = y0 < 0 ? 0 : (y0 > {{len_width}} ? {{len_width}} : y0);
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
             }
         }
-- 
2.43.0


From 27321038267493c7416af80115869c2cbdc2a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 12/75] fix: one-dimensional linear Resize interpolates between
 neighbours

It interpolated between the first and the last element of the dimension.
---
 .../layers/Resize/template_ResizeLinear1D.c.tpl      | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
index 6fd876a..4b54083 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
@@ -1,18 +1,16 @@
     // {{name}}_{{idx}}{{comment}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
-    x1 = {{len_dimension}};
-    x0 = 0;
-
     for (f = 0; f < {{output_channels}}; ++f)
     {
-        f11 = ctx->{{output_str}}[x0 + {{dimension}}*f];
-        f22 = ctx->{{output_str}}[x1 + {{dimension}}*f];
-
         for (i = 0; i < {{output_height}}; ++i)
         {
             for(j = 0; j < {{output_width}}; ++j)
             {
                 {{{coordinate_transformation_mode}}}
-                x = x<x0 ? x0 : (x>x1 ? x1: x);
+                x = x<0 ? 0 : (x>{{len_dimension}} ? {{len_dimension}}: x);
+                x0 = floor(x);
+                x1 = x0 + 1;
+                f11 = ctx->{{output_str}}[x0 + {{dimension}}*f];
+                f22 = x1 > {{len_dimension}} ? 0 : ctx->{{output_str}}[x1 + {{dimension}}*f];
 
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = (f11*(x1 - x) + f22*(x - x0))/(x1 - x0);
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
-- 
2.43.0


From 279f9fda48d5aefbdee6c780a4ba6a139418b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 13/75] fix: Conv2D's Python reference applies the dilation
 rate

---
 src/acetone_nnet/generator/layers/convolution/Conv2D.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2D.py b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
index 09d82eb..d1f7b8e 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2D.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
@@ -274,8 +274,12 @@ class Conv2D(Layer):
                         self.weights[f, :, :, :]
                         * input_padded[
                             ::self.group,
-                            i * self.strides : i * self.strides + self.kernel_h,
-                            j * self.strides : j * self.strides + self.kernel_w,
+                            i * self.strides : i * self.strides
+                            + self.dilation_rate * (self.kernel_h - 1)
+                            + 1 : self.dilation_rate,
+                            j * self.strides : j * self.strides
+                            + self.dilation_rate * (self.kernel_w - 1)
+                            + 1 : self.dilation_rate,
                         ]
                     )
                     output[f, i, j] = np.sum(w) + self.biases[f]
-- 
2.43.0


From e91f4e8ba47b2ade7263ddc53e98bed9434b807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 14/75] fix: pooling layers' Python reference ignores the
 padding as the generated code does

Asymmetric pads were not applied at all and symmetric ones entered the maximum
and the mean as zeros.
---
 .../generator/layers/pooling/Pooling2D.py          | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
index 802675f..3135959 100644
--- a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
+++ b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
@@ -145,18 +145,14 @@ class Pooling2D(Layer):
 
         output = np.zeros((self.input_channels, self.output_height, self.output_width))
 
-        if self.pad_right and self.pad_left and self.pad_top and self.pad_bottom:
-            input_padded = np.zeros((self.input_channels, self.input_height + self.pad_top + self.pad_bottom,
-                                     self.input_width + self.pad_left + self.pad_right))
-            input_padded[:, self.pad_top:-self.pad_bottom, self.pad_left:-self.pad_right] = input_array
-        else:
-            input_padded = input_array
-
+        # Padding never contributes to the result: the window is cropped to the input.
         for c in range(self.input_channels):
             for i in range(self.output_height):
                 for j in range(self.output_width):
+                    top = i * self.strides - self.pad_top
+                    left = j * self.strides - self.pad_left
                     output[c, i, j] = self.pooling_function(
-                        input_padded[c, i * self.strides:i * self.strides + self.pool_size,
-                        j * self.strides:j * self.strides + self.pool_size])
+                        input_array[c, max(top, 0):top + self.pool_size,
+                        max(left, 0):left + self.pool_size])
 
         return output
\ No newline at end of file
-- 
2.43.0


From 9f94a0b8a9cfa04b61a18f91afbd0edec69819e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 15/75] fix: pooling code applies the top pad to rows and the
 left pad to columns

The channels-last variant also divided averages by the whole window, padding
included, unlike the channels-first one.
---
 .../templates/layers/template_Pooling2D.c.tpl       |  4 ++--
 .../templates/layers/template_Pooling2D_HWC.c.tpl   | 13 +++++--------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
index 5bf6825..2f68a14 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
@@ -10,8 +10,8 @@
                 {
                     for (w = 0; w < {{pool_size}}; ++w)
                     {
-                        int ii = i*{{strides}} + h - {{pad_left}};
-                        int jj = j*{{strides}} + w - {{pad_top}};
+                        int ii = i*{{strides}} + h - {{pad_top}};
+                        int jj = j*{{strides}} + w - {{pad_left}};
                         if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
                         {
                             {{{specific_function}}}
diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
index cad8b88..ef0749f 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
@@ -1,14 +1,10 @@
     // {{name}}_{{idx}}{{comment}} {{#channels_last}}HWC layout{{/channels_last}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
     {
-        {{#is_avgpool}}
-        // Calcul de l'aire inverse déplacé au début (invariant)
-        float inv_area = 1.0f / (float)({{pool_size}} * {{pool_size}});
-        {{/is_avgpool}}
         for (int oh = 0; oh < {{output_height}}; ++oh) {
-            int temp_h_start = {{pad_left}} - oh * {{strides}};
+            int temp_h_start = {{pad_top}} - oh * {{strides}};
             int kh_start = (0 > temp_h_start) ? 0 : temp_h_start;
             
-            int temp_h_end = {{input_height}} + {{pad_left}} - oh * {{strides}};
+            int temp_h_end = {{input_height}} + {{pad_top}} - oh * {{strides}};
             int kh_end = ({{pool_size}} < temp_h_end) ? {{pool_size}} : temp_h_end;
 
             for (int ow = 0; ow < {{output_width}}; ++ow) {
@@ -27,7 +23,7 @@
 
                 // Spatial window loops
                 for (int kh = kh_start; kh < kh_end; ++kh) {
-                    int ih = oh * {{strides}} + kh - {{pad_left}};
+                    int ih = oh * {{strides}} + kh - {{pad_top}};
                     for (int kw = kw_start; kw < kw_end; ++kw) {
                         int iw = ow * {{strides}} + kw - {{pad_left}};
                         
@@ -46,7 +42,8 @@
                 }
 
                 {{#is_avgpool}}
-                // Averaging
+                // Averaging over the part of the window inside the input
+                float inv_area = 1.0f / (float)((kh_end - kh_start) * (kw_end - kw_start));
                 for (int c = 0; c < {{input_channels}}; ++c) {
                     out_ptr[c] *= inv_area;
                 }
-- 
2.43.0


From d0733f3ea793e294ca76c3480de51b84688cf917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 16/75] fix: Python reference of layers applies the activation
 fused into them

Gather, GatherElements, the poolings, reductions, resizes, Tile and Transpose
ignored their activation function in forward_path_layer; the C code applies it.
---
 src/acetone_nnet/generator/layers/gather/Gather.py     |  4 +++-
 .../generator/layers/gather_elements/GatherElements.py |  2 +-
 src/acetone_nnet/generator/layers/pooling/Pooling2D.py |  2 +-
 .../generator/layers/reduce/reduce_max/ReduceMax.py    | 10 +++++++---
 .../generator/layers/reduce/reduce_mean/ReduceMean.py  | 10 +++++++---
 .../generator/layers/reduce/reduce_min/ReduceMin.py    | 10 +++++++---
 .../generator/layers/reduce/reduce_prod/ReduceProd.py  | 10 +++++++---
 .../generator/layers/reduce/reduce_sum/ReduceSum.py    | 10 +++++++---
 .../layers/resize/resize_cubic/ResizeCubic.py          |  2 +-
 .../layers/resize/resize_linear/ResizeLinear.py        |  2 +-
 .../layers/resize/resize_nearest/ResizeNearest.py      |  2 +-
 src/acetone_nnet/generator/layers/tile/Tile.py         |  2 +-
 .../generator/layers/transpose/Transpose.py            |  4 +++-
 13 files changed, 47 insertions(+), 23 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gather/Gather.py b/src/acetone_nnet/generator/layers/gather/Gather.py
index 55a87d0..1697c08 100644
--- a/src/acetone_nnet/generator/layers/gather/Gather.py
+++ b/src/acetone_nnet/generator/layers/gather/Gather.py
@@ -130,4 +130,6 @@ class Gather(Layer):
             self.input_channels,
             self.input_height,
             self.input_width)
-        return np.take(input_array, indices=self.indices, axis=self.axis - 1)
\ No newline at end of file
+        return self.activation_function.compute(
+            np.take(input_array, indices=self.indices, axis=self.axis - 1),
+        )
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py b/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
index 127a1d6..acd32da 100644
--- a/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
+++ b/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
@@ -155,4 +155,4 @@ class GatherElements(Layer):
                         output[f, i, j] = input_array[f, self.indices[0, f, i, j], j]
                     elif self.axis == 3:
                         output[f, i, j] = input_array[f, i, self.indices[0, f, i, j]]
-        return output
\ No newline at end of file
+        return self.activation_function.compute(output)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
index 3135959..930fa06 100644
--- a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
+++ b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
@@ -155,4 +155,4 @@ class Pooling2D(Layer):
                         input_array[c, max(top, 0):top + self.pool_size,
                         max(left, 0):left + self.pool_size])
 
-        return output
\ No newline at end of file
+        return self.activation_function.compute(output)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py b/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
index 4a71509..03b4706 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
@@ -137,9 +137,13 @@ class ReduceMax(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.max(input_array, axis=None, keepdims=self.keepdims)
-        return np.max(input_array, axis=self.axes, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(
+                np.max(input_array, axis=None, keepdims=self.keepdims),
+            )
+        return self.activation_function.compute(
+            np.max(input_array, axis=self.axes, keepdims=self.keepdims),
+        )
 
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py b/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
index a24ff1b..b62ed47 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
@@ -119,9 +119,13 @@ class ReduceMean(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.mean(input_array, axis=None, keepdims=self.keepdims)
-        return np.mean(input_array, axis=self.axes, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(
+                np.mean(input_array, axis=None, keepdims=self.keepdims),
+            )
+        return self.activation_function.compute(
+            np.mean(input_array, axis=self.axes, keepdims=self.keepdims),
+        )
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py b/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
index 8a864e2..979b403 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
@@ -123,6 +123,10 @@ class ReduceMin(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.min(input_array, axis=None, keepdims=self.keepdims)
-        return np.min(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(
+                np.min(input_array, axis=None, keepdims=self.keepdims),
+            )
+        return self.activation_function.compute(
+            np.min(input_array, axis=self.axes, keepdims=self.keepdims),
+        )
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py b/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
index 881090c..c4190cb 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
@@ -124,6 +124,10 @@ class ReduceProd(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.multiply.reduce(input_array, axis=None, keepdims=self.keepdims)
-        return np.multiply.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(
+                np.multiply.reduce(input_array, axis=None, keepdims=self.keepdims),
+            )
+        return self.activation_function.compute(
+            np.multiply.reduce(input_array, axis=self.axes, keepdims=self.keepdims),
+        )
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py b/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
index 66bfbfb..f3fe389 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
@@ -124,6 +124,10 @@ class ReduceSum(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.add.reduce(input_array, axis=None, keepdims=self.keepdims)
-        return np.add.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(
+                np.add.reduce(input_array, axis=None, keepdims=self.keepdims),
+            )
+        return self.activation_function.compute(
+            np.add.reduce(input_array, axis=self.axes, keepdims=self.keepdims),
+        )
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
index eab6b2e..91ea620 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
@@ -99,7 +99,7 @@ class ResizeCubic(Resize):
                                        + coeff2 * self.cubic_interpolation_1_d(input_array, f, x0, y0, x - x0)
                                        + coeff3 * self.cubic_interpolation_1_d(input_array, f, x0, y0 + 1, x - x0)
                                        + coeff4 * self.cubic_interpolation_1_d(input_array, f, x0, y0 + 2, x - x0))
-        return output
+        return self.activation_function.compute(output)
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
index c980e42..9a35a99 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
@@ -73,4 +73,4 @@ class ResizeLinear(Resize):
                                         + f12 * (x1 - x) * (y - y0) + f22 * (x - x0) * (y - y0))
                                        / ((x1 - x0) * (y1 - y0)))
 
-        return output
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
index fd18996..dfc367a 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
@@ -91,4 +91,4 @@ class ResizeNearest(Resize):
                     x0 = min(max(x0, 0), self.input_height - 1)
                     y0 = min(max(y0, 0), self.input_width - 1)
                     output[f, i, j] = input_array[f, x0, y0]
-        return output
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/tile/Tile.py b/src/acetone_nnet/generator/layers/tile/Tile.py
index af388e9..56d2812 100644
--- a/src/acetone_nnet/generator/layers/tile/Tile.py
+++ b/src/acetone_nnet/generator/layers/tile/Tile.py
@@ -107,4 +107,4 @@ class Tile(Layer):
     ) -> np.ndarray:
         """Compute output of layer."""
         input_array = input_array.reshape((self.input_channels, self.input_height, self.input_width))
-        return np.tile(input_array, self.repeats[1:])
\ No newline at end of file
+        return self.activation_function.compute(np.tile(input_array, self.repeats[1:]))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/transpose/Transpose.py b/src/acetone_nnet/generator/layers/transpose/Transpose.py
index b29936f..e839d52 100644
--- a/src/acetone_nnet/generator/layers/transpose/Transpose.py
+++ b/src/acetone_nnet/generator/layers/transpose/Transpose.py
@@ -117,4 +117,6 @@ class Transpose(Layer):
             input_array,
             (1, self.input_channels, self.input_height, self.input_width),
         )
-        return np.transpose(input_array, self.perm)
\ No newline at end of file
+        return self.activation_function.compute(
+            np.transpose(input_array, self.perm),
+        )
\ No newline at end of file
-- 
2.43.0


From 7d1a708bdfcb0a49fc1f1077809a2a8cca0a7104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 17/75] fix: do not fuse an activation into a layer that cannot
 apply it

Input, Constant, Flatten and Softmax layers do not apply their activation
function, so the fused activation was lost (or the fusion crashed on an input).
---
 .../patterns/FuseActivationLayers.py               | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
index 560173d..70f3fae 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
@@ -21,7 +21,13 @@
 from typing_extensions import Self
 
 from acetone_nnet.generator.activation_functions import Linear
-from acetone_nnet.generator.layers import ActivationLayer
+from acetone_nnet.generator.layers import (
+    ActivationLayer,
+    ConstantLayer,
+    Flatten,
+    InputLayer,
+    Softmax,
+)
 from acetone_nnet.ir import Layer
 from acetone_nnet.pattern_matching.Pattern import (
     Pattern,
@@ -60,6 +66,12 @@ class FuseActivationLayer(Pattern):
             return False
         if not hasattr(layer.previous_layer[0], "activation_function"):
             return False
+        # The code of these layers has no place for an activation function
+        if isinstance(
+            layer.previous_layer[0],
+            (ConstantLayer, Flatten, InputLayer, Softmax),
+        ):
+            return False
         if not isinstance(layer.previous_layer[0].activation_function, Linear):
             return False
         if len(layer.previous_layer[0].next_layer) != 1:
-- 
2.43.0


From 1696fd4688e4985fd49bc1ae85d5cfd8f0b67d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 18/75] fix: renumber the layers from the one a fusion removes

The layers were renumbered from the layer before the removed one in the list,
which gave two layers the same index (or dropped saved tensors) in branched
models; MatMulAddToDense removed the layer next to the MatMul in the list
rather than the Add.
---
 src/acetone_nnet/pattern_matching/Pattern.py               | 7 ++++---
 .../pattern_matching/patterns/FuseActivationLayers.py      | 2 +-
 .../pattern_matching/patterns/FuseConvBatchNorm.py         | 2 +-
 .../pattern_matching/patterns/FuseMatMulAdd.py             | 4 ++--
 .../pattern_matching/patterns/FuseSigmoidMul.py            | 2 +-
 5 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/acetone_nnet/pattern_matching/Pattern.py b/src/acetone_nnet/pattern_matching/Pattern.py
index d3e06e2..5a0e26c 100644
--- a/src/acetone_nnet/pattern_matching/Pattern.py
+++ b/src/acetone_nnet/pattern_matching/Pattern.py
@@ -68,13 +68,14 @@ def update_indices(
         m = f"Shift can't superior to the index ({shift} > {index})"
         raise ValueError(m)
 
+    shifted_cst = {}
     for i in range(nb_layers):
         if layers[i].idx > ref:
-            cst_index = dict_cst.get(layers[i].idx, None)
+            cst_index = dict_cst.pop(layers[i].idx, None)
             if cst_index is not None:
-                dict_cst.pop(layers[i].idx)
-                dict_cst[layers[i].idx - shift] = cst_index
+                shifted_cst[layers[i].idx - shift] = cst_index
             layers[i].idx = layers[i].idx - shift
+    dict_cst.update(shifted_cst)
 
 def update_next_layers(removed_layer: Layer, replacement_layer:Layer) -> None:
     """Link the layers in removed_layer.next_layer to the replacement_layer as input."""
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
index 70f3fae..408ecfb 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
@@ -97,8 +97,8 @@ class FuseActivationLayer(Pattern):
         layer.original_name += f" fused with {activation_layer.original_name}"
 
         # Updating the list of layers
+        update_indices(index, layers, 1, dict_cst)
         layers.pop(index)
-        update_indices(index - 1, layers, 1, dict_cst)
 
         return self.pattern.format(
             layer.idx,
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
index 5a7daf5..b254039 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
@@ -103,8 +103,8 @@ class FuseConvBatchNorm(Pattern):
         conv.original_name += f" fused with {batch_norm.original_name}"
 
         # Updating the list of layers
+        update_indices(index, layers, 1, dict_cst)
         layers.pop(index)
-        update_indices(index - 1, layers, 1, dict_cst)
 
         return self.pattern.format(index - 1, index, index - 1), layers.index(conv)
 
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py b/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
index 8e18e08..8568723 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
@@ -116,8 +116,8 @@ class MatMulAddToDense(Pattern):
 
         # Updating the list of layers
         layers[index] = dense
-        layers.pop(index + 1)
-        update_indices(index, layers, 1, dict_cst)
+        update_indices(layers.index(add), layers, 1, dict_cst)
+        layers.remove(add)
 
         return self.pattern.format(index, index + 1, index), layers.index(dense)
 
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
index 7d4d79a..5fe6efc 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
@@ -117,8 +117,8 @@ class SigmoidMultiplyToSilu(Pattern):
         update_dict_cst(multiply, silu, dict_cst)
         # Updating the list of layers
         layers[index] = silu
+        update_indices(layers.index(multiply), layers, 1, dict_cst)
         layers.remove(multiply)
-        update_indices(index, layers, 1, dict_cst)
 
         return (self.pattern.format(layer.idx, sigmoid.idx, multiply.idx, silu.idx),
                 layers.index(layer))
-- 
2.43.0


From 9db1db74f8996b2117b2c3a5677c9b8175470634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 19/75] fix: fuse a BatchNormalization into the convolution it
 follows

The layer before it in the list may belong to another branch.
---
 src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
index b254039..c65d4a8 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
@@ -75,7 +75,7 @@ class FuseConvBatchNorm(Pattern):
     ) -> tuple[str, int]:
         """Apply the pattern to the layer."""
         batch_norm: BatchNormalization = layers[index]
-        conv: Conv2D = layers[index - 1]
+        conv: Conv2D = batch_norm.previous_layer[0]
 
         # Retrieve the constant
         weights: np.array = conv.weights
-- 
2.43.0


From 088433c072c0414fa3e5700e97a34054f8c4f873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 20/75] fix: fusing Conv2D and BatchNormalization leaves the
 imported weights alone

---
 .../pattern_matching/patterns/FuseConvBatchNorm.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
index c65d4a8..ae78e50 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
@@ -78,8 +78,8 @@ class FuseConvBatchNorm(Pattern):
         conv: Conv2D = batch_norm.previous_layer[0]
 
         # Retrieve the constant
-        weights: np.array = conv.weights
-        biases = conv.biases
+        weights: np.array = conv.weights.copy()
+        biases = conv.biases.copy()
 
         scale = batch_norm.scale
         bias = batch_norm.biases
-- 
2.43.0


From a0ef3d181d0c5ad4de4d17ce1c7c861da777bce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 21/75] fix: padding layers apply their activation function
 once

---
 .../templates/layers/Pad/template_Pad_Non_Constant.c.tpl       | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
index 7f732aa..5584388 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
@@ -12,9 +12,6 @@
                 {{{change_indice}}}
 
                 ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = ctx->{{output_str}}[new_j + {{input_width}} * (new_i + {{input_height}} * new_f)];
-                {{^linear}}
-                ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = {{{activation_function}}};
-                {{/linear}}
                 {{#activation_function}}
                 ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = {{{activation_function}}};
                 {{/activation_function}}
-- 
2.43.0


From d745e01120201fa11f001ed0683db03eeafee3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 22/75] fix: keep a Silu apart from a layer that writes another
 tensor

The activation was fused into the layer, which kept writing its own tensor
while its successors read the one of the removed Multiply.
---
 .../pattern_matching/patterns/FuseActivationLayers.py         | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
index 408ecfb..ce72592 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
@@ -76,6 +76,10 @@ class FuseActivationLayer(Pattern):
             return False
         if len(layer.previous_layer[0].next_layer) != 1:
             return False
+        # Check that both layers write to the same tensor
+        # (a fused Silu takes the one of the Multiply it comes from)
+        if layer.previous_layer[0].path != layer.path:
+            return False
 
         return True
 
-- 
2.43.0


From ff9619899db23621e92686f405cc12eb13a6de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 23/75] fix: std_gemm convolutions apply the dilation rate

---
 .../generator/layers/convolution/Conv2DStdGemm.py             | 2 ++
 src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl  | 4 ++--
 src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl  | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
index 5f01a03..5708bc6 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
@@ -54,6 +54,7 @@ class Conv2DStdGemm(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
@@ -82,6 +83,7 @@ class Conv2DStdGemm(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
diff --git a/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
index f64e496..ac92c0b 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
@@ -1,8 +1,8 @@
     // im2col
     for (i = 0; i < {{patches_height}}; ++i)
     {
-        int i_offset = (i / {{kernel_w}}) % {{kernel_h}};
-        int j_offset = i % {{kernel_w}};
+        int i_offset = ((i / {{kernel_w}}) % {{kernel_h}}) * {{dilation_rate}};
+        int j_offset = (i % {{kernel_w}}) * {{dilation_rate}};
         int c_offset = i / {{kernel_h}} / {{kernel_w}};
         
         for (h = 0; h < {{output_height}}; ++h)
diff --git a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
index 9d5e2e0..f50a58b 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
@@ -1,8 +1,8 @@
     // im2row
     for (i = 0; i < {{patches_height}}; ++i)
     {
-        int i_offset = (i / {{kernel_w}}) % {{kernel_h}};
-        int j_offset = i % {{kernel_w}};
+        int i_offset = ((i / {{kernel_w}}) % {{kernel_h}}) * {{dilation_rate}};
+        int j_offset = (i % {{kernel_w}}) * {{dilation_rate}};
         int c_offset = i / {{kernel_h}} / {{kernel_w}};
         for (h = 0; h < {{output_height}}; ++h)
         {
-- 
2.43.0


From 779e97e1233c7df2d501e6d1202248f9ccd668f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 24/75] fix: text parameters of direct_block convolutions use
 the blocked layout

Only the binary parameter file did; without bin_dataset the generated code read
the weights in the wrong order.
---
 .../generator/layers/convolution/Conv2Ddirect_block.py        | 1 +
 src/acetone_nnet/generator/neural_network.py                  | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
index f0473fa..8b95706 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
@@ -67,6 +67,7 @@ class Conv2Ddirect_block(Conv2D):
         self.block_k = min(64,self.nb_filters) if self.weights.shape[-1]>1 else min(512,self.nb_filters)
         self.block_c = self.input_channels
         self.layout = self.transform_to_6d_blocked_layout()
+        self.nb_weights = self.count_elements_array(self.layout)
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index eacb50f..09d0eb7 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1175,7 +1175,9 @@ class CodeGenerator(ABC):
 
             if (w := getattr(layer, "weights", None)) is not None:
                 layer_hash["nb_weights"] = layer.nb_weights
-                layer_hash["weights"] = self.flatten_array_order_c(layer.weights)
+                if (layout := getattr(layer, "layout", None)) is not None:
+                    w = layout
+                layer_hash["weights"] = self.flatten_array_order_c(w)
 
             if isinstance(layer, ConstantLayer):
                 layer_hash["nb_weights"] = layer.constant.size
-- 
2.43.0


From 09bd38365378c085adeb1d90ba8450d535f1a99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 25/75] fix: activation fused into a channels_last pooling
 refers to its output

---
 .../layers/pooling/average_pooling/AveragePooling2DDefault.py   | 2 +-
 .../generator/layers/pooling/max_pooling/MaxPooling2DDefault.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py b/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
index 38575a5..eea6369 100644
--- a/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
+++ b/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
@@ -80,7 +80,7 @@ class AveragePooling2DDefault(AveragePooling2D):
             suffix = "_HWC"
             mustach_hash["is_avgpool"] = True
             if self.activation_function.name != "linear":
-                mustach_hash["activation_function"] = self.activation_function.write_activation_str("o_ptr[c]")
+                mustach_hash["activation_function"] = self.activation_function.write_activation_str("out_ptr[c]")
             mustach_hash["specific_function"] = self.specific_function(
             f"f + {self.input_width}*(ii + {self.input_height}*jj)", output_str)
         else:
diff --git a/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py b/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
index ef83e4b..7554713 100644
--- a/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
+++ b/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
@@ -79,7 +79,7 @@ class MaxPooling2DDefault(MaxPooling2D):
             suffix = "_HWC"
             mustach_hash["is_maxpool"] = True
             if self.activation_function.name != "linear":
-                mustach_hash["activation_function"] = self.activation_function.write_activation_str("o_ptr[c]")
+                mustach_hash["activation_function"] = self.activation_function.write_activation_str("out_ptr[c]")
             mustach_hash["specific_function"] = self.specific_function(
             f"f + {self.input_width}*(ii + {self.input_height}*jj)", output_str)
         else:
-- 
2.43.0


From aa181d7356c3889c6c060fd6450cdc23058eb479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 26/75] fix: binary parameter file holds broadcast constants
 and the model's data type

Constants of Add, Sub, Mul and Div were missing (undefined symbol at link time)
and arrays of another type (biases of layers imported without one, once fused)
were written as they were.
---
 src/acetone_nnet/generator/neural_network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 09d0eb7..fd04d73 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1147,6 +1147,9 @@ class CodeGenerator(ABC):
                 symtab[f"var_{layer.name}_{layer.idx:02d}"] = layer.var
                 symtab[f"scale_{layer.name}_{layer.idx:02d}"] = layer.scale
 
+            if isinstance(layer, Broadcast) and layer.constant is not None:
+                symtab[f"constant_{layer.name}_{layer.idx:02d}"] = layer.constant
+
         def align_up(value, alignment):
             return (value + (alignment - 1)) & ~(alignment - 1)
 
@@ -1156,7 +1159,7 @@ class CodeGenerator(ABC):
                 #print(f"{s} {symtab[s].shape} {symtab[s].dtype}")
                 parameters_bin.seek(align_up(parameters_bin.tell(),self.target_page_size),0)
                 self.symtab += f"--add-symbol {s}=.rodata:{parameters_bin.tell()} "
-                symtab[s].tofile(parameters_bin)
+                symtab[s].astype(self.data_type_py).tofile(parameters_bin)
         logging.info("Generated parameter .dat file.")
 
     def generate_parameter_file(self: Self, output_dir: Path) -> None:
-- 
2.43.0


From 4722a2847bb881abf886da89b4ac66782a1281b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 27/75] fix: generated program reports an output file it could
 not write

It crashed when the file could not be opened and returned 0 after a full disk.
---
 src/acetone_nnet/templates/template_main_file.c.tpl | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/templates/template_main_file.c.tpl b/src/acetone_nnet/templates/template_main_file.c.tpl
index 2fe02ca..ea4a61f 100644
--- a/src/acetone_nnet/templates/template_main_file.c.tpl
+++ b/src/acetone_nnet/templates/template_main_file.c.tpl
@@ -37,6 +37,11 @@ int main(int argc, char** argv)
     {{/read_input}}
 
     FILE *fp = fopen(path, "w+");
+    if (fp == NULL)
+    {
+        perror(path);
+        return 1;
+    }
 
     static {{data_type}} predictions[nb_samples][nn_output_size];
 
@@ -75,7 +80,12 @@ int main(int argc, char** argv)
         }
     }
 
-    fclose(fp);
+    int write_error = ferror(fp);
+    if (fclose(fp) != 0 || write_error)
+    {
+        perror(path);
+        return 1;
+    }
     fp = NULL;
 
     return 0;
-- 
2.43.0


From f255bd91db7c4211d87207c1cb64ff526a96c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 28/75] fix: save_weights reports a file it could not open or
 write

---
 src/acetone_nnet/templates/template_train_hook_file.c.tpl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/templates/template_train_hook_file.c.tpl b/src/acetone_nnet/templates/template_train_hook_file.c.tpl
index 7bbd6a5..6ed3d1b 100644
--- a/src/acetone_nnet/templates/template_train_hook_file.c.tpl
+++ b/src/acetone_nnet/templates/template_train_hook_file.c.tpl
@@ -29,9 +29,12 @@ int save_weights(char *file_path){
     FILE *f;
     int nb_written=0;
     f = fopen(file_path,"wb");
+    if (f == NULL)
+        return -1;
     {{#nb_params}}
     nb_written += fwrite({{param_name}},1,{{param_size}}*sizeof({{dtype}}),f);
     {{/nb_params}}
-    fclose(f);
+    if (fclose(f) != 0)
+        return -1;
     return nb_written;
 }
\ No newline at end of file
-- 
2.43.0


From 653bca36ae2122804891b4ee29c149ad6710da6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 29/75] fix: batch_loop takes arrays of the model's data type

---
 src/acetone_nnet/templates/template_train_hook_file.c.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/templates/template_train_hook_file.c.tpl b/src/acetone_nnet/templates/template_train_hook_file.c.tpl
index 6ed3d1b..f8e4028 100644
--- a/src/acetone_nnet/templates/template_train_hook_file.c.tpl
+++ b/src/acetone_nnet/templates/template_train_hook_file.c.tpl
@@ -4,7 +4,7 @@
 #include "inference.h"
 #include "test_dataset.h"
 
-void batch_loop(float * restrict predictions, float * restrict nn_input, int batch_size)
+void batch_loop({{data_type}} * restrict predictions, {{data_type}} * restrict nn_input, int batch_size)
 {
     int i,j;
     for (j = 0; j < batch_size; j+=MAX_BATCH_SIZE){
-- 
2.43.0


From f94e6a6bcddc7b35d4e47ebc287c6e67b11d3983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 30/75] fix: generation never writes to a file that already
 exists

The files are checked before the generation starts, so a generation running at
the same time in the same directory appended its code to the same files, and
the binary parameter and dataset files were overwritten without a check.
---
 src/acetone_nnet/generator/neural_network.py | 26 ++++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index fd04d73..3050451 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -465,7 +465,7 @@ class CodeGenerator(ABC):
         template = Path(
             self.template_path + "template_train_hook_file.c.tpl",
         ).read_text()
-        with (output_dir / "train_hook.c").open("a+") as train_hook_file:
+        with (output_dir / "train_hook.c").open("x") as train_hook_file:
             train_hook_file.write(pystache.render(template, mustach_hash))
         logging.info("Generated train hook .c file.")
 
@@ -637,7 +637,7 @@ class CodeGenerator(ABC):
         template = (
             Path(self.template_path) / "template_test_dataset_header.c.tpl"
         ).read_text()
-        with Path.open(output_dir / "test_dataset.h", "w+") as test_dataset_header:
+        with Path.open(output_dir / "test_dataset.h", "x") as test_dataset_header:
             test_dataset_header.write(
                 pystache.render(
                     template,
@@ -658,7 +658,7 @@ class CodeGenerator(ABC):
     ) -> None:
         """Generate C code for graph test dataset."""
         if self.bin_dataset:
-            with Path.open(output_dir / "test_dataset.dat", "w+") as test_dataset_bin:
+            with Path.open(output_dir / "test_dataset.dat", "x") as test_dataset_bin:
                 self.test_dataset.copy("C").tofile(test_dataset_bin)
         elif not self.read_ext_input:
             # Generate test source file
@@ -671,7 +671,7 @@ class CodeGenerator(ABC):
             template = (
                 Path(self.template_path) / "template_test_dataset_source.c.tpl"
             ).read_text()
-            with Path.open(output_dir / "test_dataset.c", "w+") as test_dataset_source:
+            with Path.open(output_dir / "test_dataset.c", "x") as test_dataset_source:
                 test_dataset_source.write(
                     pystache.render(
                         template,
@@ -686,7 +686,7 @@ class CodeGenerator(ABC):
     ) -> None:
         """Generate entry point C code."""
         template = (Path(self.template_path) / "template_main_file.c.tpl").read_text()
-        with (output_dir / "main.c").open("a+") as main_file:
+        with (output_dir / "main.c").open("x") as main_file:
             main_file.write(
                 pystache.render(
                     template,
@@ -750,7 +750,7 @@ class CodeGenerator(ABC):
             template.symtab = self.symtab
             template.align = self.target_page_size
         # Generate Makefile
-        with (output_dir / "Makefile").open("a+") as makefile:
+        with (output_dir / "Makefile").open("x") as makefile:
             makefile.write(pystache.render(template))
         logging.info("Generated Makefile.")
 
@@ -780,7 +780,7 @@ class CodeGenerator(ABC):
         template = (
             Path(self.template_path) / self.target / "template_target_file.c.tpl"
         ).read_text()
-        with (output_dir / "target.c").open("a+") as source_file:
+        with (output_dir / "target.c").open("x") as source_file:
             source_file.write(pystache.render(template, mustach_hash))
             logging.info("Generated target file.")
 
@@ -793,7 +793,7 @@ class CodeGenerator(ABC):
         template = (
             Path(self.template_path) / self.target / "template_target_file.h.tpl"
         ).read_text()
-        with (output_dir / "target.h").open("a+") as source_file:
+        with (output_dir / "target.h").open("x") as source_file:
             source_file.write(pystache.render(template, mustach_hash))
             logging.info("Generated target header file.")
 
@@ -955,7 +955,7 @@ class CodeGenerator(ABC):
 
         # Generate C code
         template = (Path(self.template_path) / "template_source_file.c.tpl").read_text()
-        with (output_dir / "inference.c").open("a+") as source_file:
+        with (output_dir / "inference.c").open("x") as source_file:
             source_file.write(pystache.render(template, mustach_hash))
         logging.info("Generated function source file.")
 
@@ -1060,7 +1060,7 @@ class CodeGenerator(ABC):
 
         # Generate header code
         template = (Path(self.template_path) / "template_header_file.c.tpl").read_text()
-        with (output_dir / "inference.h").open("a+") as header_file:
+        with (output_dir / "inference.h").open("x") as header_file:
             header_file.write(pystache.render(template, mustach_hash))
         logging.info("Generated function header file.")
 
@@ -1153,7 +1153,7 @@ class CodeGenerator(ABC):
         def align_up(value, alignment):
             return (value + (alignment - 1)) & ~(alignment - 1)
 
-        with Path.open(output_dir / "parameters.dat", "w+") as parameters_bin:
+        with Path.open(output_dir / "parameters.dat", "x") as parameters_bin:
             self.symtab = ""
             for s in symtab:
                 #print(f"{s} {symtab[s].shape} {symtab[s].dtype}")
@@ -1210,7 +1210,7 @@ class CodeGenerator(ABC):
         template = Path(
             self.template_path + "template_parameter_file.c.tpl",
         ).read_text()
-        with (output_dir / "parameters.c").open("a+") as parameter_file:
+        with (output_dir / "parameters.c").open("x") as parameter_file:
             parameter_file.write(pystache.render(template, mustach_hash))
         logging.info("Generated parameter .c file.")
 
@@ -1262,7 +1262,7 @@ class CodeGenerator(ABC):
         template = Path(
             self.template_path + "template_global_var_file.c.tpl",
         ).read_text()
-        with (output_dir / "global_vars.c").open("a+") as globalvars_file:
+        with (output_dir / "global_vars.c").open("x") as globalvars_file:
             globalvars_file.write(pystache.render(template, mustach_hash))
             if self.normalize:
                 globalvars_file.write(
-- 
2.43.0


From 41f2b86fe42d946e0b868cc074b522d3a289b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 31/75] fix: binary test dataset is written in the model's data
 type

---
 src/acetone_nnet/generator/neural_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 3050451..bdadd41 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -659,7 +659,7 @@ class CodeGenerator(ABC):
         """Generate C code for graph test dataset."""
         if self.bin_dataset:
             with Path.open(output_dir / "test_dataset.dat", "x") as test_dataset_bin:
-                self.test_dataset.copy("C").tofile(test_dataset_bin)
+                self.test_dataset.astype(self.data_type_py, "C").tofile(test_dataset_bin)
         elif not self.read_ext_input:
             # Generate test source file
             dataset = "{"
-- 
2.43.0


From e398eca51b19c369ce841d2798fada5b60f1abaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 32/75] fix: refuse a dataset file that holds fewer tests than
 requested

The missing inputs were silently replaced by zeros in the generated code.
---
 src/acetone_nnet/generator/neural_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index bdadd41..190d71e 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -423,6 +423,9 @@ class CodeGenerator(ABC):
                 contents = json.loads(line)
                 contents = [self.c2data(c) for c in contents]
                 test_dataset.append(list(map(dtype, contents)))
+        if len(test_dataset) < nb_tests:
+            msg = f"Error: {path} holds {len(test_dataset)} tests out of {nb_tests}"
+            raise ValueError(msg)
         return np.array(test_dataset)
 
     def get_input_shape(self: Self) -> list[int]:
-- 
2.43.0


From a101851665abb6e8f79613c54618d09eee96ebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 33/75] fix: importing an ONNX model leaves the caller's model
 alone

Constant nodes were added to its initializers.
---
 src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index aaecadb..4b2a46d 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -68,7 +68,7 @@ def load_onnx(
     model = (
         onnx.load(file_to_parse)
         if isinstance(file_to_parse, (str, Path))
-        else file_to_parse
+        else onnx.ModelProto.FromString(file_to_parse.SerializeToString())
     )
 
     if not model.graph.value_info:
-- 
2.43.0


From a8084c49eca828e679bb374d89c284f99800d160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 34/75] fix: normalization leaves the caller's input alone

A second inference on the same input normalized it twice.
---
 .../normalization/template_pre_processing.c.tpl          | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl b/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
index 12419d3..fe21500 100644
--- a/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
+++ b/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
@@ -1,18 +1,19 @@
     // pre-processing for the normalization
+    float normalized_input[{{input_size}}];
     for (i = 0; i < {{input_size}}; ++i) 
     { 
         if ( nn_input[i] < input_min[i]){
-            nn_input[i] = (input_min[i]-input_mean[i])/input_range[i];
+            normalized_input[i] = (input_min[i]-input_mean[i])/input_range[i];
         }
         else
         {
             if (nn_input[i] > input_max[i]){
-                nn_input[i] = (input_max[i]-input_mean[i])/input_range[i];
+                normalized_input[i] = (input_max[i]-input_mean[i])/input_range[i];
             }
             else
             {
-                nn_input[i] = (nn_input[i]-input_mean[i])/input_range[i];
+                normalized_input[i] = (nn_input[i]-input_mean[i])/input_range[i];
             }
         }
     }
-    
\ No newline at end of file
+    nn_input = normalized_input;
\ No newline at end of file
-- 
2.43.0


From 6d6bb5bfffc40e7e34f21ca3cbf5d80ed2825cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 35/75] fix: refuse a NNET file cut in its last bias

The line of a bias ends with a comma, as the lines of the weights do.
---
 src/acetone_nnet/importers/NNET_importer/parser_NNET.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/NNET_importer/parser_NNET.py b/src/acetone_nnet/importers/NNET_importer/parser_NNET.py
index 4694fd9..bfeec19 100644
--- a/src/acetone_nnet/importers/NNET_importer/parser_NNET.py
+++ b/src/acetone_nnet/importers/NNET_importer/parser_NNET.py
@@ -149,7 +149,7 @@ def load_nnet(
             # biases
             for _i in range(current_layer_size):
                 line = f.readline()
-                x = float(line.strip().split(",")[0])
+                x = float(line.strip().split(",")[:-1][0])
                 biases[layernum].append(x)
 
     f.close()
-- 
2.43.0


From 20de14341198cd24056759a5faac3284a34ff633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 36/75] fix: comparison reports truncated output files and NaN
 values

The shorter of the two files (or lines) decided how much was compared, so the
output of a program that was interrupted compared equal to the reference.
---
 src/acetone_nnet/cli/compare.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/cli/compare.py b/src/acetone_nnet/cli/compare.py
index 3dc3abb..ba4dd0e 100644
--- a/src/acetone_nnet/cli/compare.py
+++ b/src/acetone_nnet/cli/compare.py
@@ -21,6 +21,7 @@
 
 import argparse
 import sys
+from itertools import chain, repeat
 from pathlib import Path
 
 import numpy as np
@@ -69,9 +70,15 @@ def compare_lines(
     length = len(values_f1)
     line_comparison = True
 
+    # A line that lacks values differs from any other
+    if length == 0 or len(values_f2) != length:
+        return False, float("inf"), float("inf")
+
     for j in range(length):
         float_comparison, diff, rel_diff = compare_floats(values_f1[j], values_f2[j])
         line_comparison = float_comparison & line_comparison
+        if np.isnan(diff):
+            diff = rel_diff = 0.0 if float_comparison else float("inf")
         max_diff = max(diff, max_diff)
         max_rel_diff = max(rel_diff, max_rel_diff)
 
@@ -95,10 +102,11 @@ def compare_files(
     max_rel_diff_file = 0.0
     line_comparison = True
 
-    for line_f1, line_f2, line_counter in zip(
-        f1,
-        f2,
-        range(nb_tests + 1),
+    # A missing line is compared as an empty one
+    for line_f1, line_f2, _ in zip(
+        chain(f1, repeat("")),
+        chain(f2, repeat("")),
+        range(nb_tests),
         strict=False,
     ):
         float_comparison, max_diff_line, max_rel_diff_line = (
@@ -109,9 +117,6 @@ def compare_files(
         max_diff_file = max(max_diff_line, max_diff_file)
         max_rel_diff_file = max(max_rel_diff_line, max_rel_diff_file)
 
-        if line_counter == int(nb_tests):
-            break
-
     f1.close()
     f2.close()
 
-- 
2.43.0


From f9bc02bcf2be0d0f55c160e78c083924295e08d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 37/75] fix: SAME padding of a dilated kernel

---
 src/acetone_nnet/ir/layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/ir/layer.py b/src/acetone_nnet/ir/layer.py
index 5856c45..aa345e0 100644
--- a/src/acetone_nnet/ir/layer.py
+++ b/src/acetone_nnet/ir/layer.py
@@ -127,8 +127,8 @@ class Layer(ABCHasTraits):
         if isinstance(padding, str):
             # Compute 'same' padding tensorflow
 
-            filter_height = kernel_h - (kernel_h - 1) * (dilation_rate - 1)
-            filter_width = kernel_w - (kernel_w - 1) * (dilation_rate - 1)
+            filter_height = kernel_h + (kernel_h - 1) * (dilation_rate - 1)
+            filter_width = kernel_w + (kernel_w - 1) * (dilation_rate - 1)
 
             # The total padding applied along the height and width is computed as:
             if padding in ("VALID", "valid"):
-- 
2.43.0


From 1c56b2bc2b3a01c41e7e042fa85f2c34f62319cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 38/75] fix: JSON models build their input layer and
 convolutions

---
 .../importers/JSON_importer/parser_JSON.py           | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 378d7e6..20eda42 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -113,10 +113,11 @@ def load_json(
     layers = []
 
     l_temp = InputLayer(
-        0,
-        model["config"]["layers"][0]["config"]["size"],
-        model["config"]["layers"][0]["config"]["input_shape"],
-        data_format,
+        original_name=model["config"]["layers"][0]["config"]["name"],
+        idx=0,
+        size=model["config"]["layers"][0]["config"]["size"],
+        input_shape=model["config"]["layers"][0]["config"]["input_shape"],
+        data_format=data_format,
     )
 
     layers.append(l_temp)
@@ -161,7 +162,8 @@ def load_json(
                 nb_filters=layer["config"]["filters"],
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
-                weights=np.array(data_type_py(layer["weights"])),
+                # Stored as [C,H,W,F], expected as [F,C,H,W]
+                weights=np.moveaxis(np.array(data_type_py(layer["weights"])), -1, 0),
                 biases=data_type_py(layer["biases"]),
                 activation_function=create_actv_function_obj(
                     layer["config"]["activation"],
-- 
2.43.0


From b15e740af73928f456c4a493b05f7c82fb0b86d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 39/75] fix: JSON batch normalization is part of the network

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 20eda42..d148acb 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -304,7 +304,7 @@ def load_json(
             )
 
         elif layer["class_name"] == "BatchNormalization":
-            BatchNormalization(
+            current_layer = BatchNormalization(
                 original_name=layer["config"]["name"],
                 idx=layer["config"]["idx"],
                 size=layer["config"]["size"],
-- 
2.43.0


From 168f881564b253642fb29278735faff9ee6d18b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 40/75] fix: JSON merge layers give their input shapes as an
 array

---
 .../importers/JSON_importer/parser_JSON.py         | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index d148acb..bf06c7e 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -210,7 +210,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=layer["config"]["idx"],
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -220,7 +220,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=layer["config"]["idx"],
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -230,7 +230,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=layer["config"]["idx"],
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -244,7 +244,7 @@ def load_json(
                 idx=layer["config"]["idx"],
                 size=layer["config"]["size"],
                 axis=axis,
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -254,7 +254,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=layer["config"]["idx"],
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -264,7 +264,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=layer["config"]["idx"],
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -274,7 +274,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=layer["config"]["idx"],
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
-- 
2.43.0


From 083e64ff1d178e9ff072ab6b3b22cb96333877c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 41/75] fix: JSON layers follow dropped and softmax layers

---
 .../importers/JSON_importer/parser_JSON.py    | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index bf06c7e..0e06177 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -122,11 +122,15 @@ def load_json(
 
     layers.append(l_temp)
 
+    # The layer that computes the output of each layer of the model
+    sources = {0: l_temp}
+
     nb_softmax_layers = 0
 
     for idx, layer in list(islice(enumerate(model["config"]["layers"]), 1, None)):
         add_softmax_layer = False
 
+        model_idx = layer["config"].get("idx", idx)
         idx += nb_softmax_layers
 
         if (
@@ -208,7 +212,7 @@ def load_json(
         elif layer["class_name"] == "Add":
             current_layer = Add(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
@@ -218,7 +222,7 @@ def load_json(
         elif layer["class_name"] == "Multiply":
             current_layer = Multiply(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
@@ -228,7 +232,7 @@ def load_json(
         elif layer["class_name"] == "Subtract":
             current_layer = Subtract(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
@@ -241,7 +245,7 @@ def load_json(
                 axis = 1 if axis == 3 else axis + 1
             current_layer = Concatenate(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 axis=axis,
                 input_shapes=np.array(layer["config"]["input_shape"]),
@@ -252,7 +256,7 @@ def load_json(
         elif layer["class_name"] == "Maximum":
             current_layer = Maximum(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
@@ -262,7 +266,7 @@ def load_json(
         elif layer["class_name"] == "Minimum":
             current_layer = Minimum(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
@@ -272,7 +276,7 @@ def load_json(
         elif layer["class_name"] == "Average":
             current_layer = Average(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
@@ -294,7 +298,7 @@ def load_json(
 
             current_layer = ConstantPad(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 pads=pads,
                 constant_value=0,
@@ -306,7 +310,7 @@ def load_json(
         elif layer["class_name"] == "BatchNormalization":
             current_layer = BatchNormalization(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shape=layer["config"]["input_shape"],
                 epsilon=layer["config"]["epsilon"],
@@ -322,17 +326,20 @@ def load_json(
             or "Dropout" in layer["class_name"]
             or layer["class_name"] == "Reshape"
         ):
+            # output = input
+            sources[model_idx] = sources[layer["config"]["prev_layer_idx"][0]]
             continue
 
         else:
             raise TypeError("Error: layer" + layer["class_name"] + " not supported\n")
 
         for i in layer["config"]["prev_layer_idx"]:
-            current_layer.previous_layer.append(layers[i])
-            layers[i].next_layer.append(current_layer)
+            current_layer.previous_layer.append(sources[i])
+            sources[i].next_layer.append(current_layer)
 
         l_temp = current_layer
         layers.append(current_layer)
+        sources[model_idx] = current_layer
 
         # Separated method to generate softmax
         if add_softmax_layer:
@@ -348,6 +355,7 @@ def load_json(
             current_layer.previous_layer.append(l_temp)
             l_temp = current_layer
             layers.append(current_layer)
+            sources[model_idx] = current_layer
 
     layers, max_road, dict_cst = graph_interpretor.tri_topo(layers)
     layers = [x.find_output_str(dict_cst) for x in layers]
-- 
2.43.0


From fae8c8a798a1299f26325ed5ab3415e475717ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 42/75] fix: PyTorch layers without bias, rectangular kernels
 and default pooling stride

---
 .../importers/PYTORCH_importer/parse_pytorch.py   | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 202e0de..d019f43 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -108,6 +108,12 @@ class ShapeAwareVisitor(FXGraphVisitor):
         left_col = f"{self.indent}[{kind}] {node_name:<15} {extra}"
         logging.info(f"{left_col:<60} -> {shape_info}")
 
+    def _bias(self, node: torch.fx.Node, size: int) -> np.ndarray:
+        """Return the bias of a layer, zero when it has none (trailing default arguments are left out)."""
+        if len(node.args) > 2 and node.args[2] is not None:
+            return self.module.state_dict()[node.args[2].target].numpy()
+        return np.zeros(size, dtype=np.float32)
+
     # --- Visitor Implementation ---
 
     def visit(self, graph_module: torch.fx.GraphModule):
@@ -141,7 +147,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 idx=self.idx,
                 size=node.meta['val'].numel(),
                 weights=self.module.state_dict()[node.args[1].target].numpy().T,
-                biases=self.module.state_dict()[node.args[2].target].numpy(),
+                biases=self._bias(node, node.meta['val'].shape[-1]),
                 activation_function=Linear()
             )
             self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
@@ -174,14 +180,14 @@ class ShapeAwareVisitor(FXGraphVisitor):
                     padding=padding,
                     strides=stride,
                     group=group,
-                    kernel_h=self.module.state_dict()[node.args[1].target].shape[-1],
+                    kernel_h=self.module.state_dict()[node.args[1].target].shape[-2],
                     kernel_w=self.module.state_dict()[node.args[1].target].shape[-1],
                     dilation_rate=dilation,
                     nb_filters=node.meta['val'].shape[1],
                     input_shape=self.layerdic[node.args[0].name][1],
                     output_shape=node.meta['val'].shape,
                     weights=self.module.state_dict()[node.args[1].target].numpy(),
-                    biases=self.module.state_dict()[node.args[2].target].numpy() if node.args[2] is not None else np.zeros(node.meta['val'].shape[1],dtype=np.float32),
+                    biases=self._bias(node, node.meta['val'].shape[1]),
                     activation_function=Linear()
                 )
             self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
@@ -241,7 +247,8 @@ class ShapeAwareVisitor(FXGraphVisitor):
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
         elif "max_pool2d" in target_name:
             kernel = node.args[1][0] if len(node.args) > 1 else 1
-            stride = node.args[2][0] if len(node.args) > 2 else 1
+            # The stride defaults to the kernel size
+            stride = node.args[2][0] if len(node.args) > 2 and node.args[2] else kernel
             padding = node.args[3] + node.args[3] if len(node.args) > 3 else [0,0,0,0]
             dilation = node.args[4][0] if len(node.args) > 4 else 1
             this_layer = MaxPooling2D(
-- 
2.43.0


From e88185f0ac5757747614704dfffe70ed3fea9887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 43/75] fix: PyTorch activations and normalizations are only
 fused where nothing else reads the value

---
 .../PYTORCH_importer/parse_pytorch.py         | 62 ++++++++++++++++---
 1 file changed, 54 insertions(+), 8 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index d019f43..1c3d9a1 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -4,6 +4,7 @@ import numpy as np
 
 from acetone_nnet.generator import (
     ActivationFunctions,
+    ActivationLayer,
     Add,
     Clip,
     Average,
@@ -114,6 +115,38 @@ class ShapeAwareVisitor(FXGraphVisitor):
             return self.module.state_dict()[node.args[2].target].numpy()
         return np.zeros(size, dtype=np.float32)
 
+    def _fusible(self, node: torch.fx.Node, *types: type) -> bool:
+        """Tell whether a node can be applied by the layer that computes its input."""
+        layer = self.layerdic[node.args[0].name][0]
+        if not isinstance(layer, types) or type(layer.activation_function) is not Linear:
+            return False
+        # The value before the node must not be used by another one
+        source = node.args[0]
+        while len(source.users) == 1 and source.name != layer.original_name:
+            source = source.args[0]
+        return len(source.users) == 1
+
+    def _append(self, node: torch.fx.Node, layer: Layer) -> None:
+        """Add a layer with a single input to the network."""
+        previous_layer = self.layerdic[node.args[0].name][0]
+        previous_layer.next_layer.append(layer)
+        layer.previous_layer.append(previous_layer)
+        self.layerdic[node.name] = (layer, node.meta['val'].shape)
+        self.idx += 1
+
+    def _activate(self, node: torch.fx.Node, activation: ActivationFunctions) -> None:
+        """Apply an activation, in the previous layer where that changes nothing else."""
+        if self._fusible(node, Conv2D, Dense, Add):
+            self.layerdic[node.args[0].name][0].activation_function = activation
+            self.layerdic[node.name] = self.layerdic[node.args[0].name]
+        else:
+            self._append(node, ActivationLayer(
+                original_name=node.name,
+                idx=self.idx,
+                size=node.meta['val'].numel(),
+                activation_function=activation,
+            ))
+
     # --- Visitor Implementation ---
 
     def visit(self, graph_module: torch.fx.GraphModule):
@@ -155,14 +188,12 @@ class ShapeAwareVisitor(FXGraphVisitor):
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
         elif "relu" in target_name:
-            self.layerdic[node.args[0].name][0].activation_function=ReLu() # set previous layer activation 
-            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
+            self._activate(node, ReLu())
         elif "clamp" in target_name:
-            self.layerdic[node.args[0].name][0].activation_function=Clip( # set previous layer activation 
-                max_value=node.args[2],
-                min_value=node.args[1]
-            )
-            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
+            self._activate(node, Clip(
+                max_value=node.args[2] if len(node.args) > 2 else float("inf"),
+                min_value=node.args[1] if node.args[1] is not None else float("-inf"),
+            ))
         elif "conv2d" in target_name:
             #first call to conv2d is expected to decide memory layout format based on its input tensor
             if not hasattr(self,"data_format"):
@@ -196,12 +227,27 @@ class ShapeAwareVisitor(FXGraphVisitor):
             self.idx+=1
         elif "batch_norm" in target_name:
             # Fusing batch normalization to previous conv2d https://pytorch-cn.com/tutorials/intermediate/fx_conv_bn_fuser.html
-            self.layerdic[node.name] = self.layerdic[node.args[0].name]
             bn_w = self.module.state_dict()[node.args[1].target]
             bn_b = self.module.state_dict()[node.args[2].target]
             bn_rm = self.module.state_dict()[node.args[3].target]
             bn_rv = self.module.state_dict()[node.args[4].target]
             bn_eps = node.args[7]
+            if not self._fusible(node, Conv2D):
+                this_layer = BatchNormalization(
+                    original_name=node.name,
+                    idx=self.idx,
+                    size=node.meta['val'].numel(),
+                    input_shape=list(node.meta['val'].shape),
+                    epsilon=bn_eps,
+                    scale=bn_w.numpy(),
+                    biases=bn_b.numpy(),
+                    mean=bn_rm.numpy(),
+                    var=bn_rv.numpy(),
+                    activation_function=Linear(),
+                )
+                self._append(node, this_layer)
+                return
+            self.layerdic[node.name] = self.layerdic[node.args[0].name]
             bn_var_rsqrt = torch.rsqrt(bn_rv + bn_eps)
             conv_w = torch.from_numpy(self.layerdic[node.args[0].name][0].weights)
             conv_b = torch.from_numpy(self.layerdic[node.args[0].name][0].biases)
-- 
2.43.0


From 8465f19f33fa42ad51edae01c5bc9faabd8dac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 44/75] fix: one-sided clipping is written with a C infinity

---
 src/acetone_nnet/generator/activation_functions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/generator/activation_functions.py b/src/acetone_nnet/generator/activation_functions.py
index afa6338..2646674 100644
--- a/src/acetone_nnet/generator/activation_functions.py
+++ b/src/acetone_nnet/generator/activation_functions.py
@@ -267,18 +267,19 @@ class Clip(ActivationFunctions):
         """Generate the string to print."""
         # output = condition ? value_if_true : value_if_false
         # output = input > max ? max : (input < min ? min : input)
+        maxi, mini = (str(v).replace("inf", "INFINITY") for v in (self.max, self.min))
         return (
             local_var
             + " > "
-            + str(self.max)
+            + maxi
             + " ? "
-            + str(self.max)
+            + maxi
             + " : ("
             + local_var
             + " < "
-            + str(self.min)
+            + mini
             + " ? "
-            + str(self.min)
+            + mini
             + " : "
             + local_var
             + ")"
-- 
2.43.0


From 79711395c7a51af739d8c554a379f2b3cf9b57ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 45/75] fix: ONNX Clip with scalar or missing bounds

---
 .../importers/ONNX_importer/create_layer.py   | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 1b0dba5..19e5704 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1355,6 +1355,19 @@ def create_avg(
     )
 
 
+def get_clip_bounds(
+    node: onnx.NodeProto,
+    model: onnx.ModelProto,
+) -> tuple[float, float]:
+    """Return the bounds of a Clip node, infinite where they are not given."""
+    bounds = [float("-inf"), float("inf")]
+    for i, name in enumerate(node.input[1:3]):
+        if name:
+            bound = onnx.numpy_helper.to_array(look_for_initializer(name, model))
+            bounds[i] = bound.ravel()[0]
+    return bounds[0], bounds[1]
+
+
 def instantiate_activation_layer(
         node: onnx.NodeProto,
         model: onnx.ModelProto,
@@ -1377,11 +1390,7 @@ def instantiate_activation_layer(
                 attribute["alpha"] = 0.01
             return LeakyReLu(attribute["alpha"])
         case "Clip":
-            mini, maxi = float("-inf"), float("inf")
-            if node.input[1]:
-                mini = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))[0]
-            if node.input[2]:
-                maxi = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))[0]
+            mini, maxi = get_clip_bounds(node, model)
             return Clip(maxi,mini)
         case _:
             return None
@@ -1549,11 +1558,7 @@ def fuse_clip(
     layers: list,
 ) -> None:
     """Fuse the activation layer Clip with the prior layer."""
-    mini, maxi = float("-inf"), float("inf")
-    if node.input[1]:
-        mini = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))[0]
-    if node.input[2]:
-        maxi = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))[0]
+    mini, maxi = get_clip_bounds(node, model)
     layers[dict_output[node.input[0]]].activation_function = Clip(
         max_value=maxi,
         min_value=mini,
-- 
2.43.0


From 31b9d5bd62c7d6d96a5f723884c25251f12b387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 46/75] fix: ONNX layers without effect may be read along with
 their input

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 19e5704..9bb0734 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1466,7 +1466,7 @@ def bypass(
     model: onnx.ModelProto,
 ) -> None:
     """Bypass the layer (output=input)."""
-    dict_output[node.output[0]] = dict_output.pop(node.input[0])
+    dict_output[node.output[0]] = dict_output[node.input[0]]
 
 
 def create_initializer(
-- 
2.43.0


From 251ff2c103ca47e8acde923a949c61eb083efd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 47/75] fix: ONNX constant nodes keep their shape and may be
 operands

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 3 +--
 src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py  | 4 +++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 9bb0734..f59bffc 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1476,9 +1476,8 @@ def create_initializer(
 ) -> None:
     """Change a constant layer into an initializer."""
     const = model.graph.initializer.add()
+    const.CopyFrom(node.attribute[0].t)
     const.name = node.output[0]
-    const.data_type = node.attribute[0].t.data_type
-    const.raw_data = node.attribute[0].t.raw_data
 
 
 ###### Dict of all the functions ######
diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index 4b2a46d..9ddac69 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -91,7 +91,6 @@ def load_onnx(
         idx += 1
 
     # Create constant for all initializers
-    init_dict = {i.name:i for i in model.graph.initializer}
     '''for initializer in model.graph.initializer:
         layers.append(
             create_initializer_layer(
@@ -124,6 +123,9 @@ def load_onnx(
         else:
             raise TypeError("Error: layer " + node.op_type + " not supported\n")
 
+    # The initializers, among them the constant nodes
+    init_dict = {i.name:i for i in model.graph.initializer}
+
     # Attach layers to their inputs and outputs
     for layer_idx, layer_inputs in dict_input.items():
         # The indices of a layer is the same as it's position in the list
-- 
2.43.0


From 8be8e2eaf0a75a473948b067aa545b893d7adb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 48/75] fix: ONNX axes counted from the end, Pad axes and
 optional operands

---
 .../importers/ONNX_importer/create_layer.py   | 63 ++++++++++---------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index f59bffc..b149ccf 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -365,10 +365,7 @@ def resize_set_default_attributes_values(
     if "axes" not in attributes:
         attributes["axes"] = []
     else:
-        for i in range(len(attributes["axes"])):
-            axe = attributes["axes"][i]
-            if axe < 0:
-                axe = len(input_shape) - axe
+        attributes["axes"] = [axe % len(input_shape) for axe in attributes["axes"]]
     if "coordinate_transformation_mode" not in attributes:
         attributes["coordinate_transformation_mode"] = "half_pixel"
     if "exclude_outside" not in attributes:
@@ -417,7 +414,7 @@ def create_resize(
     roi = onnx.numpy_helper.to_array(initializers[0]) if initializers[0] else []
 
     return create_resize_obj(
-        mode=attributes["mode"],
+        mode=attributes.get("mode", b"nearest"),
         original_name=node.name,
         idx=idx,
         size=size,
@@ -456,24 +453,28 @@ def create_pad(
     ]
     attributes = extract_attributes(node)
 
-    initializer_length = 2
-    if len(initializers) == initializer_length:
-        axes = []
-    else:
-        axes = onnx.numpy_helper.to_array(initializers[2])
-        for i in range(len(axes)):
-            axe = axes[i]
-            if axe < 0:
-                axe = len(input_shape) - axe
-            axes[i] = axe
+    # Express the pads of the given axes on the four dimensions of the tensor
+    rank = len(get_shape(node.input[0], model, extend=False))
+    given_pads = list(map(int, onnx.numpy_helper.to_array(initializers[0])))
+    axes = list(range(rank))
+    if len(initializers) > 2 and initializers[2]:  # noqa: PLR2004
+        axes = onnx.numpy_helper.to_array(initializers[2]).tolist()
+    pads = [0] * 8
+    for i, axe in enumerate(axes):
+        pads[axe % rank + 4 - rank] = given_pads[i]
+        pads[axe % rank + 8 - rank] = given_pads[i + len(axes)]
+
+    constant_value = 0.0
+    if len(initializers) > 1 and initializers[1]:
+        constant_value = onnx.numpy_helper.to_array(initializers[1]).item()
     return create_pad_obj(
-        mode=attributes["mode"],
+        mode=attributes.get("mode", b"constant"),
         original_name=node.name,
         idx=idx,
         size=size,
-        pads=list(map(int, onnx.numpy_helper.to_array(initializers[0]))),
-        constant_value=float(onnx.numpy_helper.to_array(initializers[1])),
-        axes=axes,
+        pads=pads,
+        constant_value=constant_value,
+        axes=[],
         input_shape=list(map(int, input_shape)),
         activation_function=Linear(),
     )
@@ -495,7 +496,7 @@ def create_gather(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
+    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)).copy()
     if "axis" not in attributes:
         attributes["axis"] = 0
     elif attributes["axis"] < 0:
@@ -534,7 +535,7 @@ def create_gather_elements(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
+    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)).copy()
     if "axis" not in attributes:
         attributes["axis"] = 0
     elif attributes["axis"] < 0:
@@ -792,7 +793,7 @@ def create_reduce_sum(
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -803,7 +804,7 @@ def create_reduce_sum(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -846,7 +847,7 @@ def create_reduce_max(
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -857,7 +858,7 @@ def create_reduce_max(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -900,7 +901,7 @@ def create_reduce_min(
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -911,7 +912,7 @@ def create_reduce_min(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -954,7 +955,7 @@ def create_reduce_mean(
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -965,7 +966,7 @@ def create_reduce_mean(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -1008,7 +1009,7 @@ def create_reduce_prod(
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -1019,7 +1020,7 @@ def create_reduce_prod(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
-- 
2.43.0


From c85c0c02404256de2654fc61ddd7e20a2a2d60c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 49/75] fix: MatMul broadcasts an operand with a single channel

---
 src/acetone_nnet/generator/layers/matmul/MatMul.py        | 2 +-
 src/acetone_nnet/generator/layers/matmul/MatMulDefault.py | 4 ++++
 src/acetone_nnet/templates/layers/template_MatMul.c.tpl   | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/matmul/MatMul.py b/src/acetone_nnet/generator/layers/matmul/MatMul.py
index e72904a..30740d8 100644
--- a/src/acetone_nnet/generator/layers/matmul/MatMul.py
+++ b/src/acetone_nnet/generator/layers/matmul/MatMul.py
@@ -50,7 +50,7 @@ class MatMul(Layer):
         self.local_var = "dotproduct"
         self.input_shapes = input_shapes
 
-        self.output_channels = self.input_shapes[0][1]
+        self.output_channels = max(self.input_shapes[0][1], self.input_shapes[1][1])
         self.output_height = self.input_shapes[0][-2]
         self.output_width = self.input_shapes[1][-1]
         self.shared_dimension = self.input_shapes[0][-1]
diff --git a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
index 1f3de4b..acee5b8 100644
--- a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
+++ b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
@@ -53,6 +53,10 @@ class MatMulDefault(MatMul):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
 
+        # An operand with a single channel is broadcast
+        mustach_hash["channel_left"] = "f" if self.input_shapes[0][1] > 1 else "0"
+        mustach_hash["channel_right"] = "f" if self.input_shapes[1][1] > 1 else "0"
+
         mustach_hash["output_str_left"] = self.previous_layer[0].output_str
         mustach_hash["output_str_right"] = self.previous_layer[1].output_str
 
diff --git a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
index 178ca93..384b48e 100644
--- a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
@@ -8,7 +8,7 @@
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = 0;
                 for (k = 0; k < {{shared_dimension}}; ++k)
                 {
-                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*f)]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*f)];
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*{{channel_left}})]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*{{channel_right}})];
                 }
             }
         }
-- 
2.43.0


From d8f452aee5593fd188b2d7d9f6fa6c65426e4170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 50/75] fix: ONNX Resize by scales

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index b149ccf..137a1b7 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -402,7 +402,7 @@ def create_resize(
     attributes = extract_attributes(node)
     attributes = resize_set_default_attributes_values(attributes, input_shape)
 
-    if initializers[2]:
+    if len(initializers) > 2 and initializers[2]:  # noqa: PLR2004
         # target size
         targ_size = onnx.numpy_helper.to_array(initializers[2])
         bool_resize = 0
-- 
2.43.0


From c1f9aa05a2a764f179cf9952a2959781c9d9c2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 51/75] fix: ONNX Gemm bias broadcast to the output

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 137a1b7..fc85eb5 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -579,6 +579,8 @@ def create_gemm(
     if len(node.input) == 3 and node.input[2]:  # noqa: PLR2004
         c_tensor = look_for_initializer(node.input[2], model)
         bias = onnx.numpy_helper.to_array(c_tensor)
+        # The output has a single row, to which the bias is broadcast
+        bias = np.broadcast_to(bias, (1, output_shape[-1]))[0].copy()
     else:
         bias = np.zeros(output_shape[-1])
     if "transA" not in attributes:
-- 
2.43.0


From 0718a8cb420bf20663ff45e0cfca3a3a23caad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 52/75] fix: refuse ONNX attributes that the layers ignore

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index fc85eb5..fe34b2e 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -401,6 +401,8 @@ def create_resize(
     ]
     attributes = extract_attributes(node)
     attributes = resize_set_default_attributes_values(attributes, input_shape)
+    if attributes["exclude_outside"]:
+        raise ValueError("Error: exclude_outside in Resize not implemented")
 
     if len(initializers) > 2 and initializers[2]:  # noqa: PLR2004
         # target size
@@ -497,6 +499,8 @@ def create_gather(
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)).copy()
+    if indices.ndim > 1:
+        raise ValueError("Error: indices of several dimensions in Gather not implemented")
     if "axis" not in attributes:
         attributes["axis"] = 0
     elif attributes["axis"] < 0:
@@ -1112,6 +1116,8 @@ def create_average_pool(
         attributes["auto_pad"] = attributes["auto_pad"].decode()
     if "strides" not in attributes:
         attributes["strides"] = [1, 1]
+    if attributes.get("count_include_pad", 0) and any(attributes.get("pads", [])):
+        raise ValueError("Error: count_include_pad in AveragePool not implemented")
     return AveragePooling2D(
         original_name=node.name,
         idx=idx,
-- 
2.43.0


From f2758cf3c2433f6f7f415b9bb37894ea0d46a145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 53/75] fix: wrap padding by the size of the dimension

---
 .../templates/layers/Pad/template_Wrap_Pad.c.tpl            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
index 5bf4f2f..e79b780 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
@@ -4,7 +4,7 @@
                 }
                 if(f < {{pads_front}})
                 {
-                    new_f = (new_f) % ({{input_channels}}) +  {{input_channels}};
+                    new_f = ((new_f) % ({{input_channels}}) + {{input_channels}}) % ({{input_channels}});
                 }
 
                 if(i >= {{height_and_pad_top}})
@@ -13,7 +13,7 @@
                 }
                 if(i < {{pads_top}})
                 {
-                    new_i = (new_i) % ({{input_height}}) + {{input_height}};
+                    new_i = ((new_i) % ({{input_height}}) + {{input_height}}) % ({{input_height}});
                 }
 
                 if(j >= {{width_and_pad_left}})
@@ -22,5 +22,5 @@
                 }
                 if(j < {{pads_left}})
                 {
-                    new_j = (new_j) % ({{input_width}}) + {{input_width}};
+                    new_j = ((new_j) % ({{input_width}}) + {{input_width}}) % ({{input_width}});
                 }
\ No newline at end of file
-- 
2.43.0


From 6e771910b95af1b39c9d8db476a760aaecd67db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 54/75] fix: inference pass on an empty dataset

---
 src/acetone_nnet/generator/neural_network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 190d71e..dc27220 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -487,6 +487,7 @@ class CodeGenerator(ABC):
         else:
             dataset = self.test_dataset
 
+        nn_output = np.array([])
         with (Path(c_files_directory) / "output_python.txt").open("w") as fi:
             for nn_input in dataset:
                 # Debug Mode output
-- 
2.43.0


From f17f86d4300a6128dffb1d33b6e0502b10e77784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 55/75] fix: binary parameter and dataset files report a write
 that failed

---
 src/acetone_nnet/generator/neural_network.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index dc27220..14568fa 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -662,8 +662,10 @@ class CodeGenerator(ABC):
     ) -> None:
         """Generate C code for graph test dataset."""
         if self.bin_dataset:
-            with Path.open(output_dir / "test_dataset.dat", "x") as test_dataset_bin:
-                self.test_dataset.astype(self.data_type_py, "C").tofile(test_dataset_bin)
+            with Path.open(output_dir / "test_dataset.dat", "xb") as test_dataset_bin:
+                test_dataset_bin.write(
+                    self.test_dataset.astype(self.data_type_py, "C").tobytes(),
+                )
         elif not self.read_ext_input:
             # Generate test source file
             dataset = "{"
@@ -1157,13 +1159,13 @@ class CodeGenerator(ABC):
         def align_up(value, alignment):
             return (value + (alignment - 1)) & ~(alignment - 1)
 
-        with Path.open(output_dir / "parameters.dat", "x") as parameters_bin:
+        with Path.open(output_dir / "parameters.dat", "xb") as parameters_bin:
             self.symtab = ""
             for s in symtab:
                 #print(f"{s} {symtab[s].shape} {symtab[s].dtype}")
                 parameters_bin.seek(align_up(parameters_bin.tell(),self.target_page_size),0)
                 self.symtab += f"--add-symbol {s}=.rodata:{parameters_bin.tell()} "
-                symtab[s].astype(self.data_type_py).tofile(parameters_bin)
+                parameters_bin.write(symtab[s].astype(self.data_type_py).tobytes())
         logging.info("Generated parameter .dat file.")
 
     def generate_parameter_file(self: Self, output_dir: Path) -> None:
-- 
2.43.0


From 7aca03087d3207a913dcc6c23cf947638f38d7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 56/75] fix: a program that reads its inputs defines them once

---
 src/acetone_nnet/templates/template_main_file.c.tpl           | 4 ++++
 src/acetone_nnet/templates/template_test_dataset_header.c.tpl | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/templates/template_main_file.c.tpl b/src/acetone_nnet/templates/template_main_file.c.tpl
index ea4a61f..2cd0646 100644
--- a/src/acetone_nnet/templates/template_main_file.c.tpl
+++ b/src/acetone_nnet/templates/template_main_file.c.tpl
@@ -14,6 +14,10 @@
 {{/min}}
 
 struct timeval GetTimeStamp();
+{{#read_input}}
+
+{{data_type}} nn_test_inputs[nb_samples][nn_input_size];
+{{/read_input}}
 
 int main(int argc, char** argv)
 {
diff --git a/src/acetone_nnet/templates/template_test_dataset_header.c.tpl b/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
index ac70931..6e5d090 100644
--- a/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
+++ b/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
@@ -5,6 +5,6 @@
 #define nn_input_size {{nb_inputs}}
 #define nn_output_size {{nb_outputs}}
 
-{{^read_input}}extern{{/read_input}} {{data_type}} nn_test_inputs[nb_samples][nn_input_size];
+extern {{data_type}} nn_test_inputs[nb_samples][nn_input_size];
 
 #endif
\ No newline at end of file
-- 
2.43.0


From d2bea7931c534864e9e125e16b27d30511db6665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 57/75] fix: a program reads its inputs in its data type and
 reports missing ones

---
 src/acetone_nnet/generator/neural_network.py        |  7 +++++++
 src/acetone_nnet/templates/template_main_file.c.tpl | 11 ++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 14568fa..17e67ce 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -700,6 +700,13 @@ class CodeGenerator(ABC):
                         "data_type": self.data_type,
                         "read_input": self.read_ext_input,
                         "verbose": self.verbose,
+                        "scan_format": {
+                            "float64": "%lf",
+                            "int8": "%hhd",
+                            "int16": "%hd",
+                            "int32": "%d",
+                            "int64": "%ld",
+                        }.get(np.dtype(self.data_type_py).name, "%f"),
                         "format": (
                             "%d"
                             if np.issubdtype(self.data_type_py, np.integer)
diff --git a/src/acetone_nnet/templates/template_main_file.c.tpl b/src/acetone_nnet/templates/template_main_file.c.tpl
index 2cd0646..285d544 100644
--- a/src/acetone_nnet/templates/template_main_file.c.tpl
+++ b/src/acetone_nnet/templates/template_main_file.c.tpl
@@ -29,11 +29,20 @@ int main(int argc, char** argv)
     char *input_file_path = argv[2];
 
     FILE *input_file = fopen(input_file_path, "r");
+    if (input_file == NULL)
+    {
+        perror(input_file_path);
+        return 1;
+    }
     for (i = 0; i < nb_samples; ++i)
     {
         for (j = 0; j < nn_input_size; ++j)
         {
-            fscanf(input_file, "%f", &nn_test_inputs[i][j]);
+            if (fscanf(input_file, "{{scan_format}}", &nn_test_inputs[i][j]) != 1)
+            {
+                fprintf(stderr, "%s: test %d value %d is missing\n", input_file_path, i, j);
+                return 1;
+            }
         }
     }
     fclose(input_file);
-- 
2.43.0


From a112f5d01d05b22995d47d92eaf6a23f9dce55f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 58/75] fix: inference pass on an external dataset

---
 src/acetone_nnet/generator/neural_network.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 17e67ce..33b2b7f 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -482,7 +482,6 @@ class CodeGenerator(ABC):
             dataset = self._initialise_dataset(
                 dataset_or_path=dataset_or_path,
                 nb_tests=self.nb_tests,
-                data_type=self.data_type_py,
             )
         else:
             dataset = self.test_dataset
-- 
2.43.0


From a05e72baf298336560c73ba1b27c37354123e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 59/75] fix: a program that reads its inputs reports read
 errors

---
 src/acetone_nnet/templates/template_main_file.c.tpl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/acetone_nnet/templates/template_main_file.c.tpl b/src/acetone_nnet/templates/template_main_file.c.tpl
index 285d544..8a63438 100644
--- a/src/acetone_nnet/templates/template_main_file.c.tpl
+++ b/src/acetone_nnet/templates/template_main_file.c.tpl
@@ -45,6 +45,11 @@ int main(int argc, char** argv)
             }
         }
     }
+    if (ferror(input_file))
+    {
+        perror(input_file_path);
+        return 1;
+    }
     fclose(input_file);
     input_file = NULL;
     {{/read_input}}
-- 
2.43.0


From 0bf1bb4c8f51acf42241920a1d0b58821175574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 60/75] fix: copy_weights updates small parameters when
 optimised

The parameter arrays were declared const, so a compiler could drop the
stores of an inlined memcpy into them (gcc -O1 and above copies 16 of 32
bytes). They are writable data in a binary dataset: declare them so.
---
 src/acetone_nnet/generator/neural_network.py         |  4 +++-
 .../templates/template_header_file.c.tpl             | 12 ++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 33b2b7f..7e4ae9a 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -979,7 +979,9 @@ class CodeGenerator(ABC):
         mustach_hash = {
             "data_type": self.data_type,
             "path": list(range(self.maxpath)),
-            "max_batch_size":32
+            "max_batch_size":32,
+            # copy_weights() overwrites the parameters of a binary dataset
+            "writable_parameters": self.bin_dataset,
         }
         mustach_hash["temp_data_type"] = (
             self.target_cfg["quantization"]["temp_dtype"]
diff --git a/src/acetone_nnet/templates/template_header_file.c.tpl b/src/acetone_nnet/templates/template_header_file.c.tpl
index a551a42..afe306d 100644
--- a/src/acetone_nnet/templates/template_header_file.c.tpl
+++ b/src/acetone_nnet/templates/template_header_file.c.tpl
@@ -20,21 +20,21 @@ extern inference_t Context[MAX_BATCH_SIZE];
 
 {{#layers}}
     {{#nb_weights}}
-extern const {{data_type}} weights_{{name}}_{{idx}}[{{nb_weights}}];
+extern {{^writable_parameters}}const {{/writable_parameters}}{{data_type}} weights_{{name}}_{{idx}}[{{nb_weights}}];
     {{/nb_weights}}
     {{#nb_biases}}
-extern const {{data_type}} biases_{{name}}_{{idx}}[{{nb_biases}}];
+extern {{^writable_parameters}}const {{/writable_parameters}}{{data_type}} biases_{{name}}_{{idx}}[{{nb_biases}}];
     {{/nb_biases}}
     {{#patches_size}}
 extern {{data_type}} *ppatches_{{name}}_{{idx}}[{{patches_size}}];
     {{/patches_size}}
     {{#channels}}
-extern const {{data_type}} mean_{{name}}_{{idx}}[{{channels}}];
-extern const {{data_type}} var_{{name}}_{{idx}}[{{channels}}];
-extern const {{data_type}} scale_{{name}}_{{idx}}[{{channels}}];
+extern {{^writable_parameters}}const {{/writable_parameters}}{{data_type}} mean_{{name}}_{{idx}}[{{channels}}];
+extern {{^writable_parameters}}const {{/writable_parameters}}{{data_type}} var_{{name}}_{{idx}}[{{channels}}];
+extern {{^writable_parameters}}const {{/writable_parameters}}{{data_type}} scale_{{name}}_{{idx}}[{{channels}}];
     {{/channels}}
     {{#constant_size}}
-extern const {{data_type}} constant_{{name}}_{{idx}}[{{constant_size}}];
+extern {{^writable_parameters}}const {{/writable_parameters}}{{data_type}} constant_{{name}}_{{idx}}[{{constant_size}}];
     {{/constant_size}}
     
 {{/layers}}
-- 
2.43.0


From 6d6899238b0c9583e882432647a0d7c070447e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:10 +0000
Subject: [PATCH 61/75] fix: NNET files with missing or extra values are
 refused

---
 .../importers/NNET_importer/parser_NNET.py    | 34 +++++++++++++------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/acetone_nnet/importers/NNET_importer/parser_NNET.py b/src/acetone_nnet/importers/NNET_importer/parser_NNET.py
index bfeec19..e33b4a8 100644
--- a/src/acetone_nnet/importers/NNET_importer/parser_NNET.py
+++ b/src/acetone_nnet/importers/NNET_importer/parser_NNET.py
@@ -78,6 +78,15 @@ def generate_layers(
     return layers
 
 
+def read_values(line: str, expected: int | None = None) -> list[float]:
+    """Read a row of comma-terminated values, and check how many it holds."""
+    values = [float(x) for x in line.strip().split(",")[:-1]]
+    if expected is not None and len(values) != expected:
+        msg = f"Error: NNet file.\n Expected {expected} value(s) on a row, got {len(values)}"
+        raise ValueError(msg)
+    return values
+
+
 def load_nnet(
         file_to_parse: str | Path,
         normalize: bool,
@@ -115,19 +124,22 @@ def load_nnet(
 
         # input layer size, layer1size, layer2size...
         layer_sizes = [int(x) for x in line.strip().split(",")[:-1]]
+        if len(layer_sizes) != num_layers + 1:
+            msg = f"Error: NNet file.\n Expected {num_layers + 1} layer sizes, got {len(layer_sizes)}"
+            raise ValueError(msg)
 
         line = f.readline()
         line = f.readline()
-        input_minimums = [float(x) for x in line.strip().split(",")[:-1]]
+        input_minimums = read_values(line, layer_sizes[0] if normalize else None)
 
         line = f.readline()
-        input_maximums = [float(x) for x in line.strip().split(",")[:-1]]
+        input_maximums = read_values(line, layer_sizes[0] if normalize else None)
 
         line = f.readline()
-        means = [float(x) for x in line.strip().split(",")[:-1]]
+        means = read_values(line, layer_sizes[0] + 1 if normalize else None)
 
         line = f.readline()
-        ranges = [float(x) for x in line.strip().split(",")[:-1]]
+        ranges = read_values(line, layer_sizes[0] + 1 if normalize else None)
 
         weights = []
         biases = []
@@ -139,18 +151,18 @@ def load_nnet(
             biases.append([])
 
             # weights for non-conventional nnet
-            for i in range(current_layer_size):
+            for _i in range(current_layer_size):
                 line = f.readline()
-                aux = [float(x) for x in line.strip().split(",")[:-1]]
-                weights[layernum].append([])
-                for j in range(previous_layer_size):
-                    weights[layernum][i].append(aux[j])
+                weights[layernum].append(read_values(line, previous_layer_size))
 
             # biases
             for _i in range(current_layer_size):
                 line = f.readline()
-                x = float(line.strip().split(",")[:-1][0])
-                biases[layernum].append(x)
+                biases[layernum].extend(read_values(line, 1))
+
+        if any(line.strip() for line in f):
+            msg = "Error: NNet file.\n Unexpected rows after the last bias"
+            raise ValueError(msg)
 
     f.close()
 
-- 
2.43.0


From f77754dfdbc859bf7d8d80148bb193c1454d2b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:34 +0000
Subject: [PATCH 62/75] fix: tests that do not hold the values the model reads
 are refused

---
 src/acetone_nnet/generator/neural_network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 7e4ae9a..d7ebef6 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -400,6 +400,10 @@ class CodeGenerator(ABC):
                 d = self._load_dataset(Path(path), self.data_type_py, nb_tests)
             case _:
                 raise ValueError
+        for test in d:
+            if np.size(test) != self.layers[0].size:
+                msg = f"Error: a test holds {np.size(test)} values, the model reads {self.layers[0].size}"
+                raise ValueError(msg)
         return d
 
     def _load_dataset(
-- 
2.43.0


From f3886a0ff618a225fba7e8779764401bd6762a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:34 +0000
Subject: [PATCH 63/75] fix: products of quantized values are computed in the
 temporary type

---
 src/acetone_nnet/generator/layers/matmul/MatMulDefault.py | 3 +++
 src/acetone_nnet/generator/neural_network.py              | 1 +
 src/acetone_nnet/templates/layers/template_MatMul.c.tpl   | 2 +-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
index acee5b8..2607149 100644
--- a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
+++ b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
@@ -48,6 +48,9 @@ class MatMulDefault(MatMul):
 
         mustach_hash["activation"] = self.activation_function.as_lambda()
 
+        # Products of quantized values only fit the temporary type
+        mustach_hash["temp_data_type"] = getattr(self, "temp_cdtype", None)
+
         mustach_hash["shared_dimension"] = self.shared_dimension
         mustach_hash["output_channels"] = self.output_channels
         mustach_hash["output_height"] = self.output_height
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index d7ebef6..a4c0ff3 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1133,6 +1133,7 @@ class CodeGenerator(ABC):
                     logging.info(f"Quantize {l.name}_{l.idx} format {l.qparam}")
                     l.temp_pydtype = self.target_cfg["quantization"]["temp_pydtype"]
                     l.cdtype = self.target_cfg["quantization"]["dtype"]
+                    l.temp_cdtype = self.target_cfg["quantization"]["temp_dtype"]
 
                 except KeyError:
                     if hasattr(l, "weights") or hasattr(l, "biases"):
diff --git a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
index 384b48e..175b10b 100644
--- a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
@@ -8,7 +8,7 @@
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = 0;
                 for (k = 0; k < {{shared_dimension}}; ++k)
                 {
-                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*{{channel_left}})]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*{{channel_right}})];
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += {{#temp_data_type}}({{{temp_data_type}}}){{/temp_data_type}}ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*{{channel_left}})]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*{{channel_right}})];
                 }
             }
         }
-- 
2.43.0


From 253dae4cc8dae60cc55759ac095fcbf651e2182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:08 +0000
Subject: [PATCH 64/75] fix: a layer fused by an optimisation keeps its
 quantization formats

---
 src/acetone_nnet/generator/neural_network.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index a4c0ff3..2572db7 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1089,9 +1089,12 @@ class CodeGenerator(ABC):
         if self.target_cfg is not None:
             for l in self.layers:
                 try:
-                    layer_qconf = self.target_cfg["quantization"]["layers"][
-                        l.original_name
-                    ]
+                    layers_qconf = self.target_cfg["quantization"]["layers"]
+                    name = l.original_name
+                    if name not in layers_qconf:
+                        # A layer fused by an optimisation keeps its formats
+                        name = name.split(" fused with ")[0]
+                    layer_qconf = layers_qconf[name]
                     if isinstance(l, ConstantLayer):
                         l.qparam = layer_qconf["out"]
                     else:
-- 
2.43.0


From 53634419e2ec8d5ba1a4c70b38d5c4e6b929c43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:31 +0000
Subject: [PATCH 65/75] fix: matrix products and constants without quantization
 formats are refused

---
 src/acetone_nnet/generator/neural_network.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 2572db7..c79368e 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1139,7 +1139,12 @@ class CodeGenerator(ABC):
                     l.temp_cdtype = self.target_cfg["quantization"]["temp_dtype"]
 
                 except KeyError:
-                    if hasattr(l, "weights") or hasattr(l, "biases"):
+                    if (
+                        hasattr(l, "weights")
+                        or hasattr(l, "biases")
+                        or isinstance(l, MatMul)
+                        or (isinstance(l, ConstantLayer) and not hasattr(l, "qparam"))
+                    ):
                         raise KeyError(
                             f"Cannot quantize layer {l.name}_{l.idx}, missing data in target config",
                         )
-- 
2.43.0


From 7f410cc9709ebbef0d8ce47ea2cfefd092d06229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:21 +0000
Subject: [PATCH 66/75] fix: code generated in debug mode compiles

The outputs of the layers are members of the context.
---
 src/acetone_nnet/templates/template_source_file.c.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/templates/template_source_file.c.tpl b/src/acetone_nnet/templates/template_source_file.c.tpl
index 3d9f9a1..963a695 100644
--- a/src/acetone_nnet/templates/template_source_file.c.tpl
+++ b/src/acetone_nnet/templates/template_source_file.c.tpl
@@ -100,7 +100,7 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
     fprintf(fp, "{{name}} {{idx}} {{to_transpose}} {{channels}} {{height}} {{width}}\n");
     for (k = 0; k < {{size}}; ++k)
     {
-        fprintf(fp,"%.9g ", output_{{path}}[k]);
+        fprintf(fp,"%.9g ", ctx->output_{{path}}[k]);
         if (k == {{size}} - 1)
         {
             fprintf(fp, "\n");
-- 
2.43.0


From 5febfeb38c9e60aca8bb8c5b074ddc3b7d3ad2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:21 +0000
Subject: [PATCH 67/75] fix: the debug file is closed, and reported when it
 could not be written

---
 .../templates/template_source_file.c.tpl         | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/acetone_nnet/templates/template_source_file.c.tpl b/src/acetone_nnet/templates/template_source_file.c.tpl
index 963a695..68299d4 100644
--- a/src/acetone_nnet/templates/template_source_file.c.tpl
+++ b/src/acetone_nnet/templates/template_source_file.c.tpl
@@ -1,5 +1,8 @@
 #include <stdio.h>
 #include <math.h>
+{{#debug_file}}
+#include <stdlib.h>
+{{/debug_file}}
 #include "inference.h"
 {{#target_specific}}
 #include "target.h"
@@ -18,6 +21,11 @@ unsigned long long int start, end, difference;
 int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{data_type}} nn_input[{{input_size}}]){
     {{#debug_file}}
     FILE *fp = fopen("{{debug_file}}", "w+");
+    if (fp == NULL)
+    {
+        perror("{{debug_file}}");
+        exit(EXIT_FAILURE);
+    }
 
     {{/debug_file}}
     {{#time}}
@@ -130,5 +138,13 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
 
 
 {{{post_processing}}}
+    {{#debug_file}}
+    int debug_error = ferror(fp);
+    if (fclose(fp) != 0 || debug_error)
+    {
+        perror("{{debug_file}}");
+        exit(EXIT_FAILURE);
+    }
+    {{/debug_file}}
     return 0;
 }
\ No newline at end of file
-- 
2.43.0


From f35d64ff8f06f770f70226800a948832b13c323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:34 +0000
Subject: [PATCH 68/75] fix: indices of debug targets are those of the layers

Nodes that are not layers do not count, constants among them, the input layer
does, and an index may have several digits.
---
 src/acetone_nnet/debug/debug_onnx.py  | 11 ++++-------
 src/acetone_nnet/debug/debug_tools.py |  2 +-
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/acetone_nnet/debug/debug_onnx.py b/src/acetone_nnet/debug/debug_onnx.py
index 0a53e32..c801646 100644
--- a/src/acetone_nnet/debug/debug_onnx.py
+++ b/src/acetone_nnet/debug/debug_onnx.py
@@ -45,7 +45,7 @@ def extract_node_outputs(
 ) -> list[str]:
     """Get outputs name of layers of an ONNX model."""
     activation = ["Relu", "Tanh", "Sigmoid", "Clip", "Exp", "Log", "LeakyRelu"]
-    ignored = ["Dropout", "Reshape","Flatten"]
+    ignored = ["Dropout", "Reshape", "Flatten", "Unsqueeze", "Constant"]
     outputs_name = []
     for node in model.graph.node:
         if optimized_model and (node.op_type in activation):
@@ -62,12 +62,9 @@ def extract_targets_indices(
         outputs_name: list[str],
 ) -> list[int]:
     """Extract the indices each layer will have in ACETONE."""
-    targets_indices = []
-    for name in outputs_name:
-        for i in range(len(model.graph.node)):
-            if model.graph.node[i].output[0] == name:
-                targets_indices.append(i)
-    return targets_indices
+    # Layers are numbered from 1, the input being 0
+    layers = extract_node_outputs(model)
+    return [layers.index(name) + 1 for name in outputs_name if name in layers]
 
 
 def run_model_onnx(
diff --git a/src/acetone_nnet/debug/debug_tools.py b/src/acetone_nnet/debug/debug_tools.py
index 71423d4..5873a5a 100644
--- a/src/acetone_nnet/debug/debug_tools.py
+++ b/src/acetone_nnet/debug/debug_tools.py
@@ -142,7 +142,7 @@ def extract_outputs_python(
     targets = []
     for indices in targets_indices:
         for i in range(len(result_python[1])):
-            if indices == int(result_python[1][i][-1]):
+            if indices == int(result_python[1][i].split(" ")[-1]):
                 outputs.append(result_python[0][i])
                 targets.append(result_python[1][i])
 
-- 
2.43.0


From 72c5295db80aec2903e75e8788a2ad5fabfb3384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:34 +0000
Subject: [PATCH 69/75] fix: debug_onnx returns the outputs of its targets only

The output of the model is no target when a node without layer computes it.
---
 src/acetone_nnet/debug/debug_onnx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetone_nnet/debug/debug_onnx.py b/src/acetone_nnet/debug/debug_onnx.py
index c801646..d5afda8 100644
--- a/src/acetone_nnet/debug/debug_onnx.py
+++ b/src/acetone_nnet/debug/debug_onnx.py
@@ -126,5 +126,7 @@ def debug_onnx(
     # Model inference
     run_model = model if type(model) is str | Path else model.SerializeToString()
     outputs = run_model_onnx(run_model, dataset)
+    if model.graph.output[0].name not in inter_layers:
+        outputs.pop()
 
     return model, targets_indices, outputs
-- 
2.43.0


From d47a8109f6b845263a11c8ca4b136432dd8e6325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:25 +0000
Subject: [PATCH 70/75] fix: a target's flags are added to copies of the
 caller's lists

---
 src/acetone_nnet/generator/neural_network.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index c79368e..79e1a4e 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -19,6 +19,7 @@
 ******************************************************************************.
 """
 
+import copy
 import json
 import logging
 from abc import ABC
@@ -722,13 +723,16 @@ class CodeGenerator(ABC):
 
     def _get_makefile_properties(self) -> dict[str, str | list[str]]:
         """Get makefile properties."""
-        return {
-            "compiler": self.makefile_properties.get("compiler", "gcc"),
-            "linker_flags": self.makefile_properties.get("linker_flags", ["-lm"]),
-            "compiler_flags": self.makefile_properties.get(
-                "compiler_flags", ["-g", "-w"],
-            ),
-        }
+        # Copied: the flags of the target are added to the lists
+        return copy.deepcopy(
+            {
+                "compiler": self.makefile_properties.get("compiler", "gcc"),
+                "linker_flags": self.makefile_properties.get("linker_flags", ["-lm"]),
+                "compiler_flags": self.makefile_properties.get(
+                    "compiler_flags", ["-g", "-w"],
+                ),
+            },
+        )
 
     def generate_makefile(
         self: Self,
-- 
2.43.0


From 71216ef8fd204e71c1f1f43d5b6cde10d8eb9376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:51 +0000
Subject: [PATCH 71/75] fix: ONNX models with unused nodes, several inputs or
 several outputs were silently translated into another function

---
 src/acetone_nnet/graph/graph_interpretor.py       | 15 +++++++++++++++
 .../importers/ONNX_importer/parser_ONNX.py        | 12 +++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/graph/graph_interpretor.py b/src/acetone_nnet/graph/graph_interpretor.py
index ecf8749..6b47bec 100644
--- a/src/acetone_nnet/graph/graph_interpretor.py
+++ b/src/acetone_nnet/graph/graph_interpretor.py
@@ -25,6 +25,21 @@ from acetone_nnet.generator.layers import ConstantLayer
 from acetone_nnet.ir import Layer
 
 
+def restrict_to_output(dnn: list[Layer], output: Layer) -> list[Layer]:
+    """Keep the layers which the output of the network depends on."""
+    needed: set[int] = set()
+    to_visit = [output]
+    while to_visit:
+        layer = to_visit.pop()
+        if layer.idx not in needed:
+            needed.add(layer.idx)
+            to_visit += layer.previous_layer
+    layers = [layer for layer in dnn if layer.idx in needed]
+    for layer in layers:
+        layer.next_layer = [nxt for nxt in layer.next_layer if nxt.idx in needed]
+    return layers
+
+
 def tri_topo(dnn: list) -> tuple[list[Layer], int, dict[int, int]]:
     """Sort the graph (list of nodes) topologically."""
     paths: dict[int, bool] = {}  # Available paths per id
diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index 9ddac69..80f9c87 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -24,7 +24,7 @@ from pathlib import Path
 import numpy as np
 import onnx
 
-from acetone_nnet.graph.graph_interpretor import tri_topo
+from acetone_nnet.graph.graph_interpretor import restrict_to_output, tri_topo
 from acetone_nnet.importers.ONNX_importer.create_layer import (
     activation_layers,
     create_batch_norm,
@@ -74,6 +74,9 @@ def load_onnx(
     if not model.graph.value_info:
         model = onnx.shape_inference.infer_shapes(model)
 
+    if len(model.graph.input) != 1:
+        raise ValueError("Error: models with several inputs not supported")
+
     # The list of layers
     layers: list[Layer] = []
     # Dictionary of the outputs of each layer
@@ -152,6 +155,13 @@ def load_onnx(
 
     data_type, data_type_py = find_data_type(str(data_type))
 
+    # Keeping the layers used to compute the output, which comes first;
+    # the others can only be values computed on the way to it
+    outputs = [layers[dict_output[o.name]] for o in model.graph.output]
+    layers = restrict_to_output(layers, outputs[0])
+    if not {output.idx for output in outputs} <= {layer.idx for layer in layers}:
+        raise ValueError("Error: models with several outputs not supported")
+
     # Sorting the graph and adding the road to the layers
     layers, max_road, dict_cst = tri_topo(layers)
     layers = [x.find_output_str(dict_cst) for x in layers]
-- 
2.43.0


From 3cda1ab0c4ba2257cd475c35a91823a2e6a730cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:51 +0000
Subject: [PATCH 72/75] fix: refuse PyTorch operations that were silently
 dropped or mistaken for others

---
 .../PYTORCH_importer/parse_pytorch.py         | 68 ++++++++++++++-----
 1 file changed, 52 insertions(+), 16 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 1c3d9a1..a11f821 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -147,6 +147,23 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 activation_function=activation,
             ))
 
+    @staticmethod
+    def _uniform(values: list[int]) -> int:
+        """Value of an attribute which must be the same along both dimensions."""
+        if len(set(values)) != 1:
+            raise ValueError(f"Error: distinct values per dimension not implemented ({values})")
+        return values[0]
+
+    def _check_in_place(self, node: torch.fx.Node) -> None:
+        """Refuse a value read, under any of its names, after an operation modified it in place."""
+        if node.args[0].name not in self.layerdic:
+            return
+        layer = self.layerdic[node.args[0].name][0]
+        nodes = list(node.graph.nodes)
+        for later in nodes[nodes.index(node) + 1:]:
+            if any(i.name in self.layerdic and self.layerdic[i.name][0] is layer for i in later.all_input_nodes):
+                raise ValueError("Error: value read after " + node.name + " modified it not supported")
+
     # --- Visitor Implementation ---
 
     def visit(self, graph_module: torch.fx.GraphModule):
@@ -158,6 +175,8 @@ class ShapeAwareVisitor(FXGraphVisitor):
     def visit_placeholder(self, node: torch.fx.Node):
         target_name = node.target.__name__ if hasattr(node.target, '__name__') else str(node.target)
         self._print_node("INPUT", node, f"call: {target_name}(args={node.args})")
+        if self.layerdic:
+            raise ValueError("Error: models with several inputs not supported")
         this_layer = InputLayer(
             original_name=node.name,
             idx=self.idx,
@@ -174,7 +193,12 @@ class ShapeAwareVisitor(FXGraphVisitor):
     def visit_call_function(self, node: torch.fx.Node):
         target_name = node.target.__name__ if hasattr(node.target, '__name__') else str(node.target)
         self._print_node("FUNC", node, f"call: {target_name}(args={node.args})")
-        if "linear" in target_name:
+        # The operation without its overload and the mark of in-place variants
+        op = target_name.split(".")[0]
+        if op.endswith("_"):
+            self._check_in_place(node)
+            op = op.rstrip("_")
+        if op == "linear":
             this_layer = Dense(
                 original_name=node.name,
                 idx=self.idx,
@@ -187,21 +211,21 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "relu" in target_name:
+        elif op == "relu":
             self._activate(node, ReLu())
-        elif "clamp" in target_name:
+        elif op == "clamp" and not any(isinstance(a, torch.fx.Node) for a in node.args[1:]):
             self._activate(node, Clip(
                 max_value=node.args[2] if len(node.args) > 2 else float("inf"),
                 min_value=node.args[1] if node.args[1] is not None else float("-inf"),
             ))
-        elif "conv2d" in target_name:
+        elif op == "conv2d":
             #first call to conv2d is expected to decide memory layout format based on its input tensor
             if not hasattr(self,"data_format"):
                 self.data_format = "channels_last" if self.module.state_dict()[node.args[1].target].is_contiguous(memory_format=torch.channels_last) else "channels_first"
                 logging.info(f"[LAYOUT] : {self.data_format}")
-            stride = node.args[3][0] if len(node.args) > 3 else 1
+            stride = self._uniform(node.args[3]) if len(node.args) > 3 else 1
             padding = node.args[4] + node.args[4] if len(node.args) > 4 else [0,0,0,0]
-            dilation = node.args[5][0] if len(node.args) > 5 else 1
+            dilation = self._uniform(node.args[5]) if len(node.args) > 5 else 1
             group = node.args[6] if len(node.args) > 6 else 1
             this_layer = Conv2D(
                     conv_algorithm="specs",
@@ -225,7 +249,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "batch_norm" in target_name:
+        elif op == "batch_norm":
             # Fusing batch normalization to previous conv2d https://pytorch-cn.com/tutorials/intermediate/fx_conv_bn_fuser.html
             bn_w = self.module.state_dict()[node.args[1].target]
             bn_b = self.module.state_dict()[node.args[2].target]
@@ -255,7 +279,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
             conv_b = (conv_b - bn_rm) * bn_var_rsqrt * bn_w + bn_b
             self.layerdic[node.args[0].name][0].weights = conv_w.numpy().astype(np.float32)
             self.layerdic[node.args[0].name][0].biases = conv_b.numpy().astype(np.float32)
-        elif "add" in target_name:
+        elif op == "add" and node.kwargs.get("alpha", 1) == 1:
             if node.args[0].name in self.layerdic.keys(): # bypass bn2_num_batches_tracked + 1
                 this_layer =  Add(
                     original_name=node.name,
@@ -272,7 +296,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 self.idx+=1
             else:
                 logging.info(f"Add layer bypassed: {node.args[0].name}")
-        elif "cat" in target_name:
+        elif op in ("cat", "concat", "concatenate"):
             this_layer = Concatenate(
                     original_name=node.name,
                     idx=self.idx,
@@ -289,14 +313,18 @@ class ShapeAwareVisitor(FXGraphVisitor):
             self.idx+=1
         elif "dropout" in target_name:
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
-        elif "flatten" in target_name:
+        elif op == "flatten":
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
-        elif "max_pool2d" in target_name:
-            kernel = node.args[1][0] if len(node.args) > 1 else 1
+        elif op in ("view", "reshape", "unsqueeze", "squeeze", "clone"):
+            # Same values in the same order
+            self.layerdic[node.name] = (self.layerdic[node.args[0].name][0], node.meta['val'].shape)
+        elif op == "max_pool2d":
+            kernel = self._uniform(node.args[1]) if len(node.args) > 1 else 1
             # The stride defaults to the kernel size
-            stride = node.args[2][0] if len(node.args) > 2 and node.args[2] else kernel
+            stride = self._uniform(node.args[2]) if len(node.args) > 2 and node.args[2] else kernel
             padding = node.args[3] + node.args[3] if len(node.args) > 3 else [0,0,0,0]
-            dilation = node.args[4][0] if len(node.args) > 4 else 1
+            if len(node.args) > 4 and self._uniform(node.args[4]) != 1:
+                raise ValueError("Error: dilation in max_pool2d not implemented")
             this_layer = MaxPooling2D(
                     original_name=node.name,
                     idx=self.idx,
@@ -313,7 +341,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "adaptive_avg_pool2d" in target_name:
+        elif op == "adaptive_avg_pool2d":
             this_layer = AveragePooling2D(
                 original_name=node.name,
                 idx=self.idx,
@@ -330,6 +358,8 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
+        else:
+            raise TypeError("Error: operation " + target_name + " not supported\n")
 
     def visit_call_module(self, node: torch.fx.Node):
         self._print_node("MODULE", node, f"mod: {node.target}")
@@ -345,13 +375,19 @@ class ShapeAwareVisitor(FXGraphVisitor):
         # The output node usually contains the return value in args[0]
         # We look at the meta of the output node itself if available, or the inputs
         logging.info(f"{self.indent}[OUTPUT] return {node.args[0]}")
+        outputs = node.args[0] if isinstance(node.args[0], (list, tuple)) else [node.args[0]]
+        if len(outputs) != 1:
+            raise ValueError("Error: models with several outputs not supported")
+        self.output = self.layerdic[outputs[0].name][0]
 
 
 
 def load_pytorch(program : ExportedProgram):
     visitor = ShapeAwareVisitor()
     visitor.visit(program.module())
-    layers, max_road, dict_cst = graph_interpretor.tri_topo([l[0] for l in visitor.layerdic.values()])
+    layers, max_road, dict_cst = graph_interpretor.tri_topo(
+        graph_interpretor.restrict_to_output([l[0] for l in visitor.layerdic.values()], visitor.output),
+    )
     layers = [x.find_output_str(dict_cst) for x in layers]
     print("Finished model initialization.")    
     return layers, "float", np.float32, visitor.data_format,max_road, dict_cst
\ No newline at end of file
-- 
2.43.0


From d50c8e90ddcf9de0696431836032bf8737fe1ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:51 +0000
Subject: [PATCH 73/75] fix: refuse JSON layers and attributes that were
 silently ignored

---
 .../importers/JSON_importer/parser_JSON.py    | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 0e06177..2b2607c 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -88,6 +88,13 @@ def create_resize_obj(
     raise ValueError("Error: resize mode " + mode + " not implemented")
 
 
+def uniform(values: list[int]) -> int:
+    """Value of an attribute which must be the same along both dimensions."""
+    if len(set(values)) != 1:
+        raise ValueError(f"Error: distinct values per dimension not implemented ({values})")
+    return values[0]
+
+
 def load_json(
     file_to_parse: str | Path,
 ) -> (list[Layer], str, type, str, int, dict[int, int]):
@@ -159,10 +166,10 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 padding=layer["config"]["padding"],
-                strides=layer["config"]["strides"][0],
+                strides=uniform(layer["config"]["strides"]),
                 kernel_h=layer["config"]["kernel_size"][0],
                 kernel_w=layer["config"]["kernel_size"][1],
-                dilation_rate=layer["config"]["dilation_rate"][0],
+                dilation_rate=uniform(layer["config"]["dilation_rate"]),
                 nb_filters=layer["config"]["filters"],
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -180,8 +187,8 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 padding=layer["config"]["padding"],
-                strides=layer["config"]["strides"][0],
-                pool_size=layer["config"]["pool_size"][0],
+                strides=uniform(layer["config"]["strides"]),
+                pool_size=uniform(layer["config"]["pool_size"]),
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
@@ -193,8 +200,8 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 padding=layer["config"]["padding"],
-                strides=layer["config"]["strides"][0],
-                pool_size=layer["config"]["pool_size"][0],
+                strides=uniform(layer["config"]["strides"]),
+                pool_size=uniform(layer["config"]["pool_size"]),
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
@@ -322,8 +329,7 @@ def load_json(
             )
 
         elif (
-            "Normalization" in layer["class_name"]
-            or "Dropout" in layer["class_name"]
+            "Dropout" in layer["class_name"]
             or layer["class_name"] == "Reshape"
         ):
             # output = input
@@ -357,6 +363,9 @@ def load_json(
             layers.append(current_layer)
             sources[model_idx] = current_layer
 
+    if sum(not layer.next_layer for layer in layers) != 1:
+        raise ValueError("Error: models with several outputs not supported")
+
     layers, max_road, dict_cst = graph_interpretor.tri_topo(layers)
     layers = [x.find_output_str(dict_cst) for x in layers]
     print("Finished model initialization.")
-- 
2.43.0


From b53da933e702f5087a24c82a58ad19c4f104139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:59 +0000
Subject: [PATCH 74/75] fix: registering implementations in several threads
 loses some of them

---
 src/acetone_nnet/versioning/layer_factories.py | 8 +-------
 src/acetone_nnet/versioning/versioning.py      | 4 ++--
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/acetone_nnet/versioning/layer_factories.py b/src/acetone_nnet/versioning/layer_factories.py
index f31fc65..3713f4e 100644
--- a/src/acetone_nnet/versioning/layer_factories.py
+++ b/src/acetone_nnet/versioning/layer_factories.py
@@ -37,7 +37,7 @@ class LayerFactory:
     @property
     def list_implementations(self) -> list[str]:
         """Return known Layer implementations."""
-        return [i for i in self.implementations if i is not None]
+        return sorted(i for i in list(self.implementations) if i is not None)
 
     def register_implementation(self, name: str, variant: LayerVariant) -> None:
         """Register a new Layer variant."""
@@ -45,12 +45,6 @@ class LayerFactory:
             msg = f"{self.layer_name} variant {name} already exists."
             raise KeyError(msg)
         self.implementations[name] = variant
-        self.implementations = dict(
-            sorted(
-                self.implementations.items(),
-                key=lambda x: "a" if x[0] is None else x[0],
-            ),
-        )
 
     def __call__(self, layer: Layer, version: str) -> Layer:
         """Create a Layer implementation layer for the required implementation."""
diff --git a/src/acetone_nnet/versioning/versioning.py b/src/acetone_nnet/versioning/versioning.py
index 09dd51c..cb421fe 100644
--- a/src/acetone_nnet/versioning/versioning.py
+++ b/src/acetone_nnet/versioning/versioning.py
@@ -34,8 +34,8 @@ def register_factory(name: str, factory: LayerFactory) -> None:
 def list_all_implementations() -> dict[str, list[str]]:
     """List all the registered layer implementations."""
     implem = {}
-    for layer_name in implemented:
-        implem[layer_name] = implemented[layer_name].list_implementations
+    for layer_name, factory in list(implemented.items()):
+        implem[layer_name] = factory.list_implementations
 
     return implem
 
-- 
2.43.0


From a096aa68929a806e75d31e4ad5370c0fa0d9a2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:42 +0000
Subject: [PATCH 75/75] fix: the comparison of outputs overflows on large
 float32 values

---
 src/acetone_nnet/cli/compare.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetone_nnet/cli/compare.py b/src/acetone_nnet/cli/compare.py
index ba4dd0e..c2f92f1 100644
--- a/src/acetone_nnet/cli/compare.py
+++ b/src/acetone_nnet/cli/compare.py
@@ -34,6 +34,8 @@ def compare_floats(
     abs_th: float = sys.float_info.min,
 ) -> tuple[bool, float, float]:
     """Compare a-b to abs_th."""
+    # The sum or the difference of two float32 may exceed their range
+    a, b = float(a), float(b)
     diff = abs(a - b)
 
     if a == b:
-- 
2.43.0

