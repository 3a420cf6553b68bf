From d0acdfff6f232f72bbee4121dd3b9a56e63aff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:44 +0000
Subject: [PATCH 001/122] fix: goos executor handles heavy nodes that depend on
 heavy or supplied nodes

A heavy node whose input is also heavy was put in the same parallel block and
failed with a KeyError, and a heavy node inside a block was evaluated although
its value had been supplied.
---
 spins/goos/graph_executor.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index d688101..0755225 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -193,8 +193,14 @@ def _eval_fun_vals(
             # would be silently ignored.
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
-                    heavy_node_block.append(node)
+                # A heavy node that depends on another heavy node of the block
+                # has to wait for the next block. Nodes whose value is already
+                # set are skipped.
+                while (node in fun_vals or
+                       (_is_heavy_fun(fun_map[node]) and
+                        all(in_node in fun_vals for in_node in graph[node]))):
+                    if node not in fun_vals:
+                        heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
                 last_node_reached = True
@@ -334,10 +340,15 @@ def eval_grad(
             # At this point, we have processed all the possible nodes.
             # We now parallelize the computation of the `heavy_compute_nodes`.
             heavy_node_block = []
+            # Inputs of the nodes in the block: their gradients are not
+            # complete until the block has been processed.
+            heavy_node_inputs = set()
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                while (_is_heavy_fun(fun_map[node]) and
+                       node not in heavy_node_inputs):
                     heavy_node_block.append(node)
+                    heavy_node_inputs.update(graph[node])
                     node = next(node_iter)
             except StopIteration:
                 last_node_reached = True
-- 
2.43.0


From ae1bc6dd07adf13d436c769cb8176efa5cfbc700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:17 +0000
Subject: [PATCH 002/122] fix: goos gradients accumulate without sharing memory
 between nodes

The gradient of one node could be an alias of the gradient of another (Sum hands
the same array to several inputs), so that accumulating in place corrupted the
other: d(x + y + z + y)/dz was 2. Accumulating also failed when adding a complex
gradient to a real one, and a missing gradient was created with the type of an
input of another node.
---
 spins/goos/flows.py          | 9 ++++-----
 spins/goos/graph_executor.py | 8 +++++---
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/spins/goos/flows.py b/spins/goos/flows.py
index 748f412..5708be6 100644
--- a/spins/goos/flows.py
+++ b/spins/goos/flows.py
@@ -99,10 +99,7 @@ class FlowMeta(type):
                 for field in grad_fields:
                     field_val = getattr(self, field[0])
                     value_val = getattr(value, field[0])
-                    try:
-                        field_val.__iadd__(value_val)
-                    except AttributeError:
-                        setattr(self, field[0], value_val + field_val)
+                    setattr(self, field[0], field_val + value_val)
                 return super(cls.Grad, self).__iadd__(value)
 
             cls.Grad.__iadd__ = __iadd__
@@ -199,7 +196,9 @@ class NumericFlow(Flow):
         array_grad: np.ndarray = np_zero_field(1)
 
         def __iadd__(self, value):
-            self.array_grad += value.array_grad
+            # Not in-place because the sum can have another type or shape, e.g.
+            # if a complex gradient is added to a real one.
+            self.array_grad = self.array_grad + value.array_grad
             return super().__iadd__(value)
 
         def __eq__(self, value) -> bool:
diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index 0755225..d49af01 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -24,6 +24,7 @@ from typing import Dict, List, Set, Tuple, Union
 
 import collections
 import concurrent.futures
+import copy
 import inspect
 
 import numpy as np
@@ -308,14 +309,15 @@ def eval_grad(
         # empty gradient structure.
         for i in range(len(node_grad_vals)):
             if node_grad_vals[i] is None:
-                node_grad_vals[i] = type(input_vals[i]).Grad()
+                node_grad_vals[i] = type(fun_vals[graph[node][i]]).Grad()
 
-        # Update the gradient values.
+        # Update the gradient values. Accumulation happens in place so make sure
+        # that the accumulated value is not shared with any other gradient.
         for next_node, next_fun_grad in zip(graph[node], node_grad_vals):
             if next_node in grad_vals:
                 grad_vals[next_node] += next_fun_grad
             else:
-                grad_vals[next_node] = next_fun_grad
+                grad_vals[next_node] = copy.deepcopy(next_fun_grad)
 
     try:
         node_iter = iter(top_sorted_nodes)
-- 
2.43.0


From 463ed8e74dab6b3908d9cf8bf157fe37c161a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:09 +0000
Subject: [PATCH 003/122] fix: goos gradients of inherited flow fields are
 accumulated once

The generated __iadd__ of a flow gradient added the inherited fields, and then
called the __iadd__ of the base class which added them again.
---
 spins/goos/flows.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/spins/goos/flows.py b/spins/goos/flows.py
index 5708be6..c5cadb5 100644
--- a/spins/goos/flows.py
+++ b/spins/goos/flows.py
@@ -95,8 +95,18 @@ class FlowMeta(type):
                                                   grad_fields,
                                                   bases=grad_bases)
 
+            # Inherited fields are summed by the `__iadd__` of the base classes.
+            inherited = set()
+            for grad_base in grad_bases:
+                if dataclasses.is_dataclass(grad_base):
+                    inherited.update(
+                        field.name for field in dataclasses.fields(grad_base))
+            new_grad_fields = [
+                field for field in grad_fields if field[0] not in inherited
+            ]
+
             def __iadd__(self, value):
-                for field in grad_fields:
+                for field in new_grad_fields:
                     field_val = getattr(self, field[0])
                     value_val = getattr(value, field[0])
                     setattr(self, field[0], field_val + value_val)
-- 
2.43.0


From b983369e250587f84b8511fc5ac97fec352744b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:25 +0000
Subject: [PATCH 004/122] fix: goos sums and products of scalars and vectors

Mixing shapes (even x + y + 5) raised an error since numpy no longer makes an
array out of values with different shapes, and the gradient of a scalar that is
combined with a vector was not summed over the vector.
---
 spins/goos/math.py | 48 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 45c2c27..924b672 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -1,6 +1,7 @@
 from typing import List, Iterable, Union
 
 import copy
+import functools
 import numbers
 
 import numpy as np
@@ -241,6 +242,30 @@ def find_dominant_numeric_flow(flow_list: List[goos.NumericFlow],
         return dom_flow
 
 
+def _reduce_grad(grad: np.ndarray, out_shape: tuple,
+                 in_shape: tuple) -> np.ndarray:
+    """Reduces the gradient of a broadcasted value to the shape of an input.
+
+    Args:
+        grad: Gradient with respect to the output. If it has a single element,
+            the element applies to every element of the output.
+        out_shape: Shape of the output.
+        in_shape: Shape of the input before being broadcasted to `out_shape`.
+
+    Returns:
+        Gradient with shape `in_shape`.
+    """
+    grad = np.asarray(grad)
+    if grad.size == 1:
+        grad = grad.reshape(())
+    grad = np.broadcast_to(grad, out_shape)
+    # Sum over dimensions that were added or stretched.
+    grad = np.sum(grad, axis=tuple(range(len(out_shape) - len(in_shape))))
+    axes = tuple(i for i, dim in enumerate(in_shape)
+                 if dim == 1 and grad.shape[i] != 1)
+    return np.sum(grad, axis=axes, keepdims=True)
+
+
 class Sum(Function):
     node_type = "goos.function.sum"
 
@@ -251,7 +276,7 @@ class Sum(Function):
     def eval(self, inputs: List[flows.NumericFlow],
              context: goos.EvalContext) -> flows.NumericFlow:
         flow = copy.deepcopy(find_dominant_numeric_flow(inputs))
-        flow.array = np.sum([x.array for x in inputs], axis=0)
+        flow.array = functools.reduce(np.add, [x.array for x in inputs], 0)
         return flow
 
     def grad(self, inputs: List[flows.NumericFlow],
@@ -259,11 +284,16 @@ class Sum(Function):
              context: goos.EvalContext) -> List[flows.NumericFlow.Grad]:
         grads = []
         _, ind = find_dominant_numeric_flow(inputs, return_ind=True)
+        shapes = [np.shape(flow.array) for flow in inputs]
+        out_shape = np.broadcast_shapes(*shapes)
         for i in range(len(inputs)):
+            grad = _reduce_grad(grad_val.array_grad, out_shape, shapes[i])
             if ind == i:
-                grads.append(copy.deepcopy(grad_val))
+                flow = copy.deepcopy(grad_val)
+                flow.array_grad = grad
+                grads.append(flow)
             else:
-                grads.append(goos.NumericFlow.Grad(grad_val.array_grad))
+                grads.append(goos.NumericFlow.Grad(grad))
         return grads
 
     def __add__(self, obj):
@@ -289,18 +319,22 @@ class Product(Function):
 
     def eval(self, inputs: List[flows.NumericFlow]) -> flows.NumericFlow:
         flow = copy.deepcopy(find_dominant_numeric_flow(inputs))
-        flow.array = np.prod([x.array for x in inputs], axis=0)
+        flow.array = functools.reduce(np.multiply, [x.array for x in inputs], 1)
         return flow
 
     def grad(self, input_vals: List[flows.NumericFlow],
              grad_val: flows.NumericFlow.Grad) -> List[flows.NumericFlow.Grad]:
         input_val_arr = [f.array for f in input_vals]
+        shapes = [np.shape(arr) for arr in input_val_arr]
+        out_shape = np.broadcast_shapes(*shapes)
         grads = []
         for i in range(len(input_val_arr)):
             # Calculate product of everything except ith objective value.
-            prod_before = np.prod(input_val_arr[:i], axis=0)
-            prod_after = np.prod(input_val_arr[i + 1:], axis=0)
-            grads.append(prod_before * prod_after * grad_val.array_grad)
+            prod_before = functools.reduce(np.multiply, input_val_arr[:i], 1)
+            prod_after = functools.reduce(np.multiply, input_val_arr[i + 1:], 1)
+            grads.append(
+                _reduce_grad(prod_before * prod_after * grad_val.array_grad,
+                             out_shape, shapes[i]))
 
         grad_flows = []
         _, ind = find_dominant_numeric_flow(input_vals, return_ind=True)
-- 
2.43.0


From 4d49cc2b5b9c913222361e3218cbc72f9c1c6fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:27 +0000
Subject: [PATCH 005/122] fix: goos math nodes handle scalars, integers and
 zeros

- max and dot of a scalar and a vector failed or gave a gradient with the wrong
  shape.
- 1 / x failed for a variable with integers, and x**p for complex x.
- The gradient of a slice of integers was truncated to integers.
- The gradient of the norm of a zero vector was NaN rather than zero.
---
 spins/goos/math.py | 47 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 924b672..9dc4b10 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -371,17 +371,23 @@ class Power(Function):
     def eval(self, inputs: List[flows.NumericFlow],
              context: goos.EvalContext) -> flows.NumericFlow:
         value = copy.deepcopy(inputs[0])
-        value.array = value.array**self._pow
+        value.array = self._raise(value.array, self._pow)
         return value
 
     def grad(self, input_vals: List[flows.NumericFlow],
              grad_val: flows.NumericFlow.Grad,
              context: goos.EvalContext) -> List[flows.NumericFlow.Grad]:
         new_grad_val = copy.deepcopy(grad_val)
-        new_grad_val.array_grad *= (self._pow *
-                                    input_vals[0].array**(self._pow - 1))
+        new_grad_val.array_grad = new_grad_val.array_grad * (
+            self._pow * self._raise(input_vals[0].array, self._pow - 1))
         return [new_grad_val]
 
+    def _raise(self, array: np.ndarray, power: float) -> np.ndarray:
+        # NumPy refuses to raise integers to negative integer powers.
+        if power < 0 and np.issubdtype(np.asarray(array).dtype, np.integer):
+            array = np.asarray(array, dtype=float)
+        return array**power
+
 
 class AbsoluteValue(Function):
     node_type = "goos.function.abs"
@@ -436,8 +442,12 @@ class DotProduct(Function):
         in1_grad = type(input_vals[0]).Grad()
         in2_grad = type(input_vals[1]).Grad()
 
-        in1_grad.array_grad = grad_val.array_grad * input_vals[1].array
-        in2_grad.array_grad = grad_val.array_grad * input_vals[0].array
+        shapes = [np.shape(flow.array) for flow in input_vals]
+        out_shape = np.broadcast_shapes(*shapes)
+        in1_grad.array_grad = _reduce_grad(
+            grad_val.array_grad * input_vals[1].array, out_shape, shapes[0])
+        in2_grad.array_grad = _reduce_grad(
+            grad_val.array_grad * input_vals[0].array, out_shape, shapes[1])
         return [in1_grad, in2_grad]
 
 
@@ -476,8 +486,11 @@ class Norm(Function):
     def grad(self, input_vals: List[goos.NumericFlow],
              grad_val: goos.NumericFlow.Grad) -> List[goos.NumericFlow.Grad]:
         arr = input_vals[0].array.flatten()
-        norm_grad = np.conj(arr) * (
-            np.abs(arr) / np.linalg.norm(arr, ord=self._ord))**(self._ord - 1)
+        norm = np.linalg.norm(arr, ord=self._ord)
+        # The gradient is defined to be zero if the norm is zero.
+        if norm == 0:
+            norm = 1
+        norm_grad = np.conj(arr) * (np.abs(arr) / norm)**(self._ord - 1)
         # Avoid division by zero.
         norm_grad[np.abs(arr) > 0] /= np.abs(arr[np.abs(arr) > 0])
         norm_grad = np.reshape(norm_grad, input_vals[0].array.shape)
@@ -513,7 +526,9 @@ class Max(Function):
     def eval(self, input_vals: List[goos.NumericFlow]) -> goos.NumericFlow:
         # Concatenate all the arrays along the first axis and then take the
         # max over the first axis.
-        arr = np.stack([node.array for node in input_vals], axis=0)
+        arr = np.stack(np.broadcast_arrays(
+            *[node.array for node in input_vals]),
+                       axis=0)
         max_arr = np.max(arr, axis=0)
 
         flow = copy.deepcopy(input_vals[0])
@@ -521,14 +536,19 @@ class Max(Function):
         return flow
 
     def grad(self, input_vals: List[goos.NumericFlow], grad_val):
-        arr = np.stack([node.array for node in input_vals], axis=0)
+        arr = np.stack(np.broadcast_arrays(
+            *[node.array for node in input_vals]),
+                       axis=0)
         max_arr_ind = np.argmax(arr, axis=0)
+        out_shape = np.shape(max_arr_ind)
 
         grad_list = []
         for i, node in enumerate(input_vals):
-            grad = np.array(grad_val.array_grad)
-            grad[max_arr_ind != i] = 0
-            grad_list.append(goos.NumericFlow.Grad(grad))
+            grad = _reduce_grad(grad_val.array_grad, out_shape, out_shape)
+            grad = np.where(max_arr_ind == i, grad, 0)
+            grad_list.append(
+                goos.NumericFlow.Grad(
+                    _reduce_grad(grad, out_shape, np.shape(node.array))))
         return grad_list
 
 
@@ -576,7 +596,8 @@ class Slice(Function):
         slices = self._make_slices(shape)
 
         grad = type(inputs[0]).Grad()
-        grad.array_grad = np.zeros_like(inputs[0].array)
+        # The input could be integral but the gradient is not.
+        grad.array_grad = np.zeros(shape, np.asarray(grad_val.array_grad).dtype)
         grad.array_grad[slices] = grad_val.array_grad
         return [grad]
 
-- 
2.43.0


From 64b0cdb7f83455f7b58fd1a9907cacfa820fc174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:23 +0000
Subject: [PATCH 006/122] fix: goos arithmetic with NumPy arrays

array * fun made an array of functions instead of a function, and fun / array
failed for arrays of integers.
---
 spins/goos/math.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 9dc4b10..74f4b2f 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -13,6 +13,10 @@ from spins.goos import flows
 class Function(goos.ProblemGraphNode):
     node_type = "goos.function"
 
+    # Make NumPy arrays defer to the (reflected) operators defined here. Otherwise
+    # `array * fun` creates an array of functions.
+    __array_ufunc__ = None
+
     def __add__(self, obj) -> "Sum":
         if isinstance(obj, Sum):
             return obj.__add__(self)
@@ -57,7 +61,7 @@ class Function(goos.ProblemGraphNode):
         return -1 * self
 
     def __truediv__(self, obj) -> "Product":
-        return self * obj**-1
+        return self * (1 / obj)
 
     def __rtruediv__(self, obj) -> "Product":
         return self**-1 * obj
-- 
2.43.0


From 265c1571727219f84ec76f0051b0ef5eb7830f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:53 +0000
Subject: [PATCH 007/122] fix: goos sums and products of several vectors and a
 scalar

v + w was accepted for two vectors but v + w + 1 was not.
---
 spins/goos/math.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 74f4b2f..b8a81d3 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -227,14 +227,15 @@ def find_dominant_numeric_flow(flow_list: List[goos.NumericFlow],
             ind = 0
 
     if not dom_flow:
-        # Check whether all flows but one is a scalar.
+        # Check whether all flows that are not scalars have the same shape.
         for i, flow in enumerate(flow_list):
             if np.size(flow.array) > 1:
                 if not dom_flow:
                     dom_flow = flow
                     ind = i
-                else:
-                    raise ValueError("Only one non-scalar is permitted.")
+                elif np.shape(flow.array) != np.shape(dom_flow.array):
+                    raise ValueError(
+                        "Only non-scalars with the same shape are permitted.")
 
     if not dom_flow:
         dom_flow = flow_list[0]
-- 
2.43.0


From 974324941fb44df267a88417a253365e37a61c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:46 +0000
Subject: [PATCH 008/122] fix: renaming a goos variable does not detach it

goos.rename(variable) was registered as another variable with the initial value
so that it did not follow the variable, and its gradient could not be computed.
---
 spins/goos/optplan/optplan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 649e844..0da491b 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -485,7 +485,9 @@ class OptimizationPlan:
         self._node_map[node._goos_name] = node
 
         from spins.goos import math
-        if isinstance(node, math.Variable):
+        # A variable that has been renamed or cast is not a variable on its own
+        # but has the original variable as an input.
+        if isinstance(node, math.Variable) and not node._goos_inputs:
             self._var_value[node._goos_name] = node._value
             self._var_frozen[node._goos_name] = node._is_param
 
-- 
2.43.0


From 7a6f9d1bcaefdb0d756aa721fceb1fd0e44001ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:26 +0000
Subject: [PATCH 009/122] fix: gradient of the absolute value of zero in goos
 is zero rather than NaN

---
 spins/goos/math.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index b8a81d3..10ed7d3 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -407,8 +407,11 @@ class AbsoluteValue(Function):
 
     def grad(self, input_vals: List[goos.NumericFlow],
              grad_val: goos.NumericFlow.Grad) -> List[goos.NumericFlow.Grad]:
-        grad = np.conj(input_vals[0].array) / np.abs(
-            input_vals[0].array) * grad_val.array_grad
+        # Avoid division by zero. The gradient is zero where the value is zero.
+        abs_val = np.abs(input_vals[0].array)
+        abs_val = np.where(abs_val == 0, 1, abs_val)
+        grad = np.conj(
+            input_vals[0].array) / abs_val * grad_val.array_grad
         # TODO(logansu): Fix gradients here. The fundamental issue is that for
         # `f(z) = |z|`, df/dz differs by a factor of 2 depending on whether z is
         # considered complex or real. For now, we attempt to detect the type of
-- 
2.43.0


From 0c0d6b83cc9577658911d33671f484b13af27f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:02 +0000
Subject: [PATCH 010/122] fix: a goos plan is not modifiable after an action
 failed

Also, resume did not pass on auto_checkpoint to the remaining actions.
---
 spins/goos/optplan/optplan.py | 75 +++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 34 deletions(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 0da491b..e847634 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -559,19 +559,22 @@ class OptimizationPlan:
                 is specified.
         """
         self._modifiable = True
-        while self._action_ptr < len(self._actions):
-            self.logger.info("Running action {} ({}).".format(
-                self._action_ptr, self._actions[self._action_ptr]._goos_name))
-            self._actions[self._action_ptr].run(self)
+        try:
+            while self._action_ptr < len(self._actions):
+                self.logger.info("Running action {} ({}).".format(
+                    self._action_ptr,
+                    self._actions[self._action_ptr]._goos_name))
+                self._actions[self._action_ptr].run(self)
 
-            if auto_checkpoint and self._save_path:
-                self.write_checkpoint(
-                    os.path.join(self._save_path,
-                                 "action{}.chkpt".format(self._action_ptr)))
+                if auto_checkpoint and self._save_path:
+                    self.write_checkpoint(
+                        os.path.join(self._save_path,
+                                     "action{}.chkpt".format(self._action_ptr)))
 
-            self._action_ptr += 1
-            self._action_data = None
-        self._modifiable = False
+                self._action_ptr += 1
+                self._action_data = None
+        finally:
+            self._modifiable = False
 
     def resume(self,
                checkpoint: str = None,
@@ -599,34 +602,38 @@ class OptimizationPlan:
             self.read_checkpoint(checkpoint)
 
         self._modifiable = True
-
-        # Attempt to resume if there is event data to resume from.
-        if self._action_data:
-            self.logger.info("Resuming action {} ({}).".format(
-                self._action_ptr, self._actions[self._action_ptr]._goos_name))
-
-            if hasattr(self._actions[self._action_ptr], "resume"):
-                self._actions[self._action_ptr].resume(self, self._action_data)
+        try:
+            # Attempt to resume if there is event data to resume from.
+            if self._action_data:
+                self.logger.info("Resuming action {} ({}).".format(
+                    self._action_ptr,
+                    self._actions[self._action_ptr]._goos_name))
+
+                if hasattr(self._actions[self._action_ptr], "resume"):
+                    self._actions[self._action_ptr].resume(
+                        self, self._action_data)
+                else:
+                    self.logger.warning(
+                        "Action has no resume capabilities {}, re-running.".
+                        format(self._action_ptr))
+                    self._actions[self._action_ptr].run(self)
             else:
-                self.logger.warning(
-                    "Action has no resume capabilities {}, re-running.".format(
-                        self._action_ptr))
+                self.logger.info("Running action {} ({}).".format(
+                    self._action_ptr,
+                    self._actions[self._action_ptr]._goos_name))
                 self._actions[self._action_ptr].run(self)
-        else:
-            self.logger.info("Running action {} ({}).".format(
-                self._action_ptr, self._actions[self._action_ptr]._goos_name))
-            self._actions[self._action_ptr].run(self)
 
-        if auto_checkpoint and self._save_path:
-            self.write_checkpoint(
-                os.path.join(self._save_path,
-                             "action{}.chkpt".format(self._action_ptr)))
+            if auto_checkpoint and self._save_path:
+                self.write_checkpoint(
+                    os.path.join(self._save_path,
+                                 "action{}.chkpt".format(self._action_ptr)))
 
-        self._action_ptr += 1
-        self._action_data = None
-        self._modifiable = False
+            self._action_ptr += 1
+            self._action_data = None
+        finally:
+            self._modifiable = False
 
-        self.run()
+        self.run(auto_checkpoint)
 
     def eval_nodes(self, nodes: List[ProblemGraphNode]) -> List[flows.Flow]:
         """Evaluates nodes.
-- 
2.43.0


From 0439acd923bb1194b1297591ece948ef597474cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:11 +0000
Subject: [PATCH 011/122] fix: goos plan does not share the arrays of its
 variables with the caller

Modifying the array returned by evaluating a variable (or its bounds), or the
array that was passed in as bounds, modified the state of the plan. Setting a
scalar turned a variable into a zero-dimensional array.
---
 spins/goos/math.py            |  2 +-
 spins/goos/optplan/optplan.py | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 10ed7d3..95b7b96 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -87,7 +87,7 @@ class Constant(Function):
 
     def eval(self, inputs: List[flows.NumericFlow],
              context: goos.EvalContext) -> flows.NumericFlow:
-        return flows.NumericFlow(self._value)
+        return flows.NumericFlow(self._value.copy())
 
     def grad(self, inputs: List[flows.NumericFlow],
              grad_val: flows.NumericFlow.Grad,
diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index e847634..8734bf4 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -497,12 +497,16 @@ class OptimizationPlan:
                 lower_bounds = -np.inf
             if np.isscalar(lower_bounds):
                 lower_bounds = np.ones_like(node._value) * lower_bounds
+            else:
+                lower_bounds = np.array(lower_bounds)
 
             upper_bounds = node._upper_bounds
             if upper_bounds is None:
                 upper_bounds = np.inf
             if np.isscalar(upper_bounds):
                 upper_bounds = np.ones_like(node._value) * upper_bounds
+            else:
+                upper_bounds = np.array(upper_bounds)
 
             self._var_bounds[node._goos_name] = [lower_bounds, upper_bounds]
 
@@ -521,18 +525,19 @@ class OptimizationPlan:
             raise ValueError(
                 "Attempting to set value of frozen variable {}".format(
                     node._goos_name))
-        self._var_value[node._goos_name] = np.array(value)
+        # As upon construction, a variable is always at least a 1D vector.
+        self._var_value[node._goos_name] = np.array(value, ndmin=1)
 
     @_requires_action
     def set_var_bounds(self, node: "goos.Variable",
                        bounds: List[np.ndarray]) -> List[np.ndarray]:
-        self._var_bounds[node._goos_name] = copy.copy(bounds)
+        self._var_bounds[node._goos_name] = copy.deepcopy(bounds)
 
     def get_var_value(self, node: "goos.Variable") -> np.ndarray:
         return self._var_value[node._goos_name].copy()
 
     def get_var_bounds(self, node: "goos.Variable") -> List[np.ndarray]:
-        return self._var_bounds[node._goos_name].copy()
+        return copy.deepcopy(self._var_bounds[node._goos_name])
 
     @_requires_action
     def freeze_var(self, node: "goos.Variable") -> None:
@@ -663,7 +668,7 @@ class OptimizationPlan:
                                 frozen_flags=frozen_flags)
 
             override_map[self._node_map[var_name]] = (
-                flows.NumericFlow(var_value), context)
+                flows.NumericFlow(var_value.copy()), context)
         return graph_executor.eval_fun(nodes, override_map)
 
     def eval_node(self, node: ProblemGraphNode) -> flows.Flow:
@@ -702,7 +707,7 @@ class OptimizationPlan:
                                 frozen_flags=frozen_flags)
 
             override_map[self._node_map[var_name]] = (
-                flows.NumericFlow(var_value), grad_value, context)
+                flows.NumericFlow(var_value.copy()), grad_value, context)
         return graph_executor.eval_grad(node, wrt_nodes, override_map)
 
     def __enter__(self):
-- 
2.43.0


From f97fd5e9e44b50d70c2d886f831e9c5bf1a759fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:28 +0000
Subject: [PATCH 012/122] fix: goos log and checkpoint files are complete if
 they exist

A run that was stopped while a file was being written left a file that could not
be read.
---
 spins/goos/optplan/optplan.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 8734bf4..c753204 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -156,6 +156,14 @@ def _replace_node_with_schema(value: Any) -> Any:
     return value
 
 
+def _write_pickle(data: Any, file_path: str) -> None:
+    """Writes a pickle file such that the file is complete if it exists."""
+    tmp_path = str(file_path) + ".tmp"
+    with open(tmp_path, "wb") as handle:
+        pickle.dump(data, handle)
+    os.replace(tmp_path, file_path)
+
+
 @dataclasses.dataclass
 class NodeFlags:
     """Contains parameters useful for function and gradient evaluation.
@@ -425,8 +433,7 @@ class OptimizationPlan:
             file_path = os.path.join(
                 self._save_path,
                 os.path.join("step{}.pkl".format(self._log_counter)))
-            with open(file_path, "wb") as handle:
-                pickle.dump(data, handle)
+            _write_pickle(data, file_path)
             self._logger.info("Data saved to %s", file_path)
 
     def write_checkpoint(self, filename: str) -> None:
@@ -445,8 +452,7 @@ class OptimizationPlan:
         self._logger.info("Saving checkpoint file: %s", checkpoint_file)
 
         # Save the data.
-        with open(checkpoint_file, "wb") as handle:
-            pickle.dump(data, handle)
+        _write_pickle(data, checkpoint_file)
 
     def read_checkpoint(self, filename: str) -> None:
         """Reads a chekcpoint file.
-- 
2.43.0


From 41b2abd26eed7011889093dd8f44152f6e18e306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:31 +0000
Subject: [PATCH 013/122] fix: resuming a goos plan does not repeat a completed
 action

The checkpoint written after an action pointed to that action so that it was
executed again when resuming. The number of the last log file was not restored
either so that resuming overwrote the log files from step1.pkl on.
---
 spins/goos/optplan/optplan.py | 43 ++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index c753204..ace39db 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -359,12 +359,18 @@ class OptimizationPlan:
                 "bounds": self._var_bounds[var_name],
             }
 
+        # There is no action if all the actions have been completed.
+        action_name = None
+        if self._action_ptr < len(self._actions):
+            action_name = self._actions[self._action_ptr]._goos_name
+
         data = {
             "version": "0.2.0",
             "action_ptr": self._action_ptr,
-            "action": self._actions[self._action_ptr]._goos_name,
+            "action": action_name,
             "time": str(datetime.datetime.now()),
             "variable_data": var_data,
+            "log_counter": self._log_counter,
         }
         # TODO(logansu): Remove "transformation" and "parametrization".
         # For backwards capatibility, keep the name "transformation" and
@@ -410,7 +416,6 @@ class OptimizationPlan:
         data.update({
             "event": event,
             "monitor_data": monitor_data,
-            "log_counter": self._log_counter,
         })
         self._action_data = event
 
@@ -468,6 +473,8 @@ class OptimizationPlan:
 
         self._action_ptr = data["action_ptr"]
         self._action_data = data.get("event", None)
+        # Continue the numbering of the log files.
+        self._log_counter = data.get("log_counter", self._log_counter)
 
         # Unpack variables.
         for var_name, var_data in data["variable_data"].items():
@@ -576,17 +583,20 @@ class OptimizationPlan:
                     self._action_ptr,
                     self._actions[self._action_ptr]._goos_name))
                 self._actions[self._action_ptr].run(self)
-
-                if auto_checkpoint and self._save_path:
-                    self.write_checkpoint(
-                        os.path.join(self._save_path,
-                                     "action{}.chkpt".format(self._action_ptr)))
-
-                self._action_ptr += 1
-                self._action_data = None
+                self._complete_action(auto_checkpoint)
         finally:
             self._modifiable = False
 
+    def _complete_action(self, auto_checkpoint: bool) -> None:
+        """Moves on to the next action, and writes a checkpoint if requested."""
+        self._action_ptr += 1
+        self._action_data = None
+
+        if auto_checkpoint and self._save_path:
+            self.write_checkpoint(
+                os.path.join(self._save_path,
+                             "action{}.chkpt".format(self._action_ptr - 1)))
+
     def resume(self,
                checkpoint: str = None,
                auto_checkpoint: bool = True) -> None:
@@ -612,6 +622,10 @@ class OptimizationPlan:
         if checkpoint:
             self.read_checkpoint(checkpoint)
 
+        # All the actions may have been completed already.
+        if self._action_ptr >= len(self._actions):
+            return
+
         self._modifiable = True
         try:
             # Attempt to resume if there is event data to resume from.
@@ -633,14 +647,7 @@ class OptimizationPlan:
                     self._action_ptr,
                     self._actions[self._action_ptr]._goos_name))
                 self._actions[self._action_ptr].run(self)
-
-            if auto_checkpoint and self._save_path:
-                self.write_checkpoint(
-                    os.path.join(self._save_path,
-                                 "action{}.chkpt".format(self._action_ptr)))
-
-            self._action_ptr += 1
-            self._action_data = None
+            self._complete_action(auto_checkpoint)
         finally:
             self._modifiable = False
 
-- 
2.43.0


From 080b183c20b4c304f6b50e9c7c031039cbd12416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:31 +0000
Subject: [PATCH 014/122] fix: goos optimizer passes on every constraint

With several equality (or inequality) constraints, the last one was used for all
of them.
---
 spins/goos/optimize.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/spins/goos/optimize.py b/spins/goos/optimize.py
index 1f59b6e..5fa562e 100644
--- a/spins/goos/optimize.py
+++ b/spins/goos/optimize.py
@@ -149,14 +149,15 @@ class ScipyOptimizer(goos.Action):
         if self._method in methods_that_accept_constraints:
             constraints = []
             for eq in self._cons_eq:
-
-                def cons_fun(x):
+                # Bind the constraint as a default argument as otherwise all
+                # the functions refer to the last constraint.
+                def cons_fun(x, eq=eq):
                     unpack_and_set(x)
                     val = plan.eval_node(eq).array
                     plan.logger.debug("Eq. cons. function evaluated: %f", val)
                     return val
 
-                def cons_jac(x):
+                def cons_jac(x, eq=eq):
                     unpack_and_set(x)
                     grad_flows = plan.eval_grad(eq, variables)
                     val = []
@@ -182,13 +183,13 @@ class ScipyOptimizer(goos.Action):
             for ineq in self._cons_ineq:
                 # Note the negative sign because of opposite convention
                 # for inequalities (f >= 0 vs f <= 0).
-                def cons_fun(x):
+                def cons_fun(x, ineq=ineq):
                     unpack_and_set(x)
                     val = plan.eval_node(ineq).array
                     plan.logger.debug("Ineq. cons. function evaluated: %f", val)
                     return -val
 
-                def cons_jac(x):
+                def cons_jac(x, ineq=ineq):
                     unpack_and_set(x)
                     grad_flows = plan.eval_grad(ineq, variables)
                     val = []
-- 
2.43.0


From 7ba4a920f77b463c0c1da22ee703353c2d2e7cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:11 +0000
Subject: [PATCH 015/122] fix: goos optimizer runs only the iterations that are
 left when resuming

The number of iterations was looked up in the wrong dictionary. Also, do not
treat max_iters=0 as no limit.
---
 spins/goos/optimize.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spins/goos/optimize.py b/spins/goos/optimize.py
index 5fa562e..51e316a 100644
--- a/spins/goos/optimize.py
+++ b/spins/goos/optimize.py
@@ -59,7 +59,7 @@ class ScipyOptimizer(goos.Action):
         # Convert options to a dictionary of keyword arguments for
         # `scipy.optimize.minimize`.
         self._options = {"options": {}}
-        if max_iters:
+        if max_iters is not None:
             self._options["options"].update({
                 "maxiter": max_iters,
             })
@@ -239,8 +239,11 @@ class ScipyOptimizer(goos.Action):
 
         # Adjust total number of iterations if we are resuming.
         options = copy.deepcopy(self._options)
-        if "maxiter" in options:
-            options["maxiter"] -= start_iter
+        if "maxiter" in options["options"]:
+            options["options"]["maxiter"] -= start_iter
+            # The optimizers run at least one iteration.
+            if options["options"]["maxiter"] <= 0:
+                return
 
         initial_val = np.hstack(initial_val)
         self._results = scipy.optimize.minimize(func,
-- 
2.43.0


From 5f06448d8e1b627ab7576d6a0964f041b0a615b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:50 +0000
Subject: [PATCH 016/122] fix: goos optimizer can keep track of the iteration
 in a parameter

Setting the variable failed if it is frozen but it has to be frozen in order not
to be optimized.
---
 spins/goos/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/optimize.py b/spins/goos/optimize.py
index 51e316a..9984393 100644
--- a/spins/goos/optimize.py
+++ b/spins/goos/optimize.py
@@ -230,7 +230,7 @@ class ScipyOptimizer(goos.Action):
             nonlocal iter_num
             iter_num += 1
             if self._iter:
-                plan.set_var_value(self._iter, iter_num)
+                plan.set_var_value(self._iter, iter_num, check_frozen=False)
 
             plan.write_event({
                 "state": "optimizing",
-- 
2.43.0


From f7658afc5de3a2da7a5790fa1503a33749d3ecb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:32 +0000
Subject: [PATCH 017/122] fix: two different nodes of a goos plan never have
 the same name

A node whose name was already taken was ignored silently, so that two
variables shared their state. Loading a plan in a new session made that happen
easily because automatically generated names were handed out again. Nodes that
were loaded while no or another plan was active were created twice.
---
 spins/goos/optplan/optplan.py | 33 ++++++++++++++++++++++++---------
 spins/goos/optplan/schema.py  | 14 ++++++++++++++
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index ace39db..ad5884e 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -122,6 +122,7 @@ class ProblemGraphNodeMeta(type):
         # Name the node and set the schema.
         if node_name:
             obj._goos_name = node_name
+            optplan.schema.reserve_name(node_name)
         else:
             obj._goos_name = optplan.schema.generate_name(cls.node_type)
 
@@ -321,15 +322,25 @@ class OptimizationPlan:
 
         from schematics import models
 
+        # Nodes can create additional nodes. Make sure that these do not take
+        # the name of a node that has yet to be created.
+        for model in plan.nodes + plan.actions:
+            if model.name in self._node_map:
+                raise ValueError(
+                    "Plan already has a node with name {}".format(model.name))
+            optplan.schema.reserve_name(model.name)
+
         def process_field(model: models.Model,
                           child_model: models.Model) -> ProblemGraphNode:
             return _create_node(child_model)
 
         visited = set()
+        # Map from name to the nodes created so far.
+        created = {}
 
         def _create_node(model: models.Model) -> ProblemGraphNode:
-            if model.name in self._node_map:
-                return self._node_map[model.name]
+            if model.name in created:
+                return created[model.name]
 
             optplan.schema._iter_optplan_fields(model, visited, process_field)
             params = {}
@@ -337,16 +348,16 @@ class OptimizationPlan:
                 if key == "type":
                     continue
                 params[key] = value
-            return optplan.GLOBAL_CONTEXT_STACK.get_node(
+            created[model.name] = optplan.GLOBAL_CONTEXT_STACK.get_node(
                 model.type).creator(**params)
+            return created[model.name]
 
-        for node in plan.nodes:
-            # TODO(logansu): Check for clashes in names.
-            self.add_node(_create_node(node))
+        with self:
+            for node in plan.nodes:
+                self.add_node(_create_node(node))
 
-        for model in plan.actions:
-            # TODO(logansu): Check for clashes in names.
-            self.add_action(_create_node(model))
+            for model in plan.actions:
+                self.add_action(_create_node(model))
 
     def get_state_dict(self) -> Dict:
         """Creates a dictionary with the current state of the plan."""
@@ -494,6 +505,10 @@ class OptimizationPlan:
     # TODO(logansu): Refactor into a single variable state dataclass.
     def add_node(self, node: ProblemGraphNode):
         if node._goos_name in self._node_map:
+            if self._node_map[node._goos_name] is not node:
+                raise ValueError(
+                    "Plan already has a different node with name {}".format(
+                        node._goos_name))
             return
         self._node_map[node._goos_name] = node
 
diff --git a/spins/goos/optplan/schema.py b/spins/goos/optplan/schema.py
index 6f7d19f..63b67b3 100644
--- a/spins/goos/optplan/schema.py
+++ b/spins/goos/optplan/schema.py
@@ -272,6 +272,20 @@ def generate_name(model_type: str) -> str:
     return name
 
 
+def reserve_name(name: str) -> None:
+    """Makes sure that `generate_name` does not generate `name` from now on.
+
+    Args:
+        name: Name that is used by a node, possibly one generated by
+            `generate_name` in another session.
+    """
+    model_type, _, num = name.rpartition(".")
+    if model_type and num.isdigit():
+        optplan.PROBLEM_GRAPH_NAME_MAP[model_type] = max(
+            optplan.PROBLEM_GRAPH_NAME_MAP.get(model_type, 0),
+            int(num) + 1)
+
+
 def _iter_optplan_fields(
         model: models.Model,
         visited: Set[int],
-- 
2.43.0


From 7caad9e673a59391a371f2cd098a4faba30fbde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:32 +0000
Subject: [PATCH 018/122] fix: saved goos plan does not follow later changes to
 arrays passed in

---
 spins/goos/optplan/optplan.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index ad5884e..d12e8a0 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -154,6 +154,9 @@ def _replace_node_with_schema(value: Any) -> Any:
         }
     elif isinstance(value, ProblemGraphNode):
         return value._goos_schema
+    elif isinstance(value, np.ndarray):
+        # The caller is free to change the array afterwards.
+        return value.copy()
     return value
 
 
-- 
2.43.0


From d70699e789a10d03e9f2172a91beaebef8a9482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:32 +0000
Subject: [PATCH 019/122] fix: goos plan with a node that was renamed twice can
 be loaded

---
 spins/goos/generic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spins/goos/generic.py b/spins/goos/generic.py
index 9021dad..306f8b3 100644
--- a/spins/goos/generic.py
+++ b/spins/goos/generic.py
@@ -35,6 +35,11 @@ def cast(node: goos.ProblemGraphNode,
         operation.
     """
 
+    # Casting to a type that is itself the result of a cast is the same as
+    # casting to the type of the latter as only it can be looked up by name.
+    while cls_type.node_type == "goos.cast":
+        cls_type = cls_type.__bases__[0]
+
     class CastOp(cls_type):
         node_type = "goos.cast"
         # We will register a custom function `build_cast_op` instead. We need
-- 
2.43.0


From 90633b77a74680e48d9fede32a562d09b5fbb6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:27 +0000
Subject: [PATCH 020/122] fix: saving a loaded goos plan does not add nodes
 created by constructors

---
 spins/goos/optplan/optplan.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index d12e8a0..9a9d024 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -15,6 +15,10 @@ from spins.goos import flows
 from spins.goos import optplan
 
 
+# Number of nodes that are currently being constructed.
+_construct_depth = 0
+
+
 class ProblemGraphNodeMeta(type):
 
     def __new__(meta, name, bases, class_dict):
@@ -117,7 +121,15 @@ class ProblemGraphNodeMeta(type):
             else:
                 schema_data[param.name] = param.default
 
-        obj = super(ProblemGraphNodeMeta, cls).__call__(*args, **kwargs)
+        # Nodes created by the constructor are created again by it upon loading
+        # so they must not be saved.
+        global _construct_depth
+        _construct_depth += 1
+        try:
+            obj = super(ProblemGraphNodeMeta, cls).__call__(*args, **kwargs)
+        finally:
+            _construct_depth -= 1
+        obj._goos_internal = _construct_depth > 0
 
         # Name the node and set the schema.
         if node_name:
@@ -304,7 +316,11 @@ class OptimizationPlan:
         if not save_folder:
             save_folder = self._save_path
 
-        nodes = [item._goos_schema for item in self._node_map.values()]
+        nodes = [
+            item._goos_schema
+            for item in self._node_map.values()
+            if not item._goos_internal
+        ]
         actions = [item._goos_schema for item in self._actions]
         plan = optplan.OptimizationPlanSchema(nodes=nodes, actions=actions)
         with open(os.path.join(save_folder, "optplan.json"), "w") as fp:
-- 
2.43.0


From 76ae9dd3ed37e7b70a58106e04ef32544de27236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:26 +0000
Subject: [PATCH 021/122] fix: goos node without its own constructor is saved
 with its own type

---
 spins/goos/optplan/optplan.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 9a9d024..946dc9d 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -85,7 +85,10 @@ class ProblemGraphNodeMeta(type):
                         "type": optplan.types.StringType(default=cls.node_type)
                     })
             else:
-                cls.Schema = type(cls.node_type, tuple(schema_base_classes), {})
+                cls.Schema = type(
+                    cls.node_type, tuple(schema_base_classes), {
+                        "type": optplan.types.StringType(default=cls.node_type)
+                    })
         if not cls.goos_no_register:
             optplan.GLOBAL_CONTEXT_STACK.register_node(cls.node_type,
                                                        cls.Schema, cls)
-- 
2.43.0


From 24588e805711ed733e5ae66c812daa71c0fe4da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:27 +0000
Subject: [PATCH 022/122] fix: goos plan with an empty list can be loaded

---
 spins/goos/optplan/schema_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spins/goos/optplan/schema_utils.py b/spins/goos/optplan/schema_utils.py
index a1023bf..0a1fa68 100644
--- a/spins/goos/optplan/schema_utils.py
+++ b/spins/goos/optplan/schema_utils.py
@@ -3,6 +3,7 @@ import copy
 from typing import List, Optional, Tuple, Union
 import warnings
 
+from schematics import common
 from schematics import models
 from schematics import types
 
@@ -191,5 +192,6 @@ class Model(KwargsModelMixin, models.Model, CopyModelMixin):
     """Defines a copyable model that can be inherited."""
 
     class Options:
-        # Leave out any fields set to `None` during serialization.
-        serialize_when_none = False
+        # Leave out any fields set to `None` during serialization (but not
+        # empty lists, unlike `serialize_when_none`).
+        export_level = common.NOT_NONE
-- 
2.43.0


From 3d6f2be0e6b49b911d0a74b0b8c64c3ad6593f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:30 +0000
Subject: [PATCH 023/122] fix: goos log_print of nodes survives saving and
 loading

---
 spins/goos/generic.py | 53 ++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/spins/goos/generic.py b/spins/goos/generic.py
index 306f8b3..0e4fdf3 100644
--- a/spins/goos/generic.py
+++ b/spins/goos/generic.py
@@ -120,27 +120,48 @@ class LogPrint(goos.Action):
     """
     node_type = "goos.log_print"
 
-    def __init__(
-        self,
-        obj: Union[str, goos.ProblemGraphNode,
-                   List[goos.ProblemGraphNode]] = None
-    ) -> None:
+    class Schema(optplan.ActionNodeSchema):
+        """Schema for `LogPrint`.
+
+        Text and nodes are kept apart because upon serialization a reference to
+        a node cannot be told from text.
+        """
+        type = goos.ModelNameType("goos.log_print")
+        obj = goos.types.StringType()
+        nodes = goos.types.ListType(
+            goos.ReferenceType(optplan.ProblemGraphNodeSchema))
+
+    def __init__(self,
+                 obj: Union[str, goos.ProblemGraphNode,
+                            List[goos.ProblemGraphNode]] = None,
+                 nodes: List[goos.ProblemGraphNode] = None) -> None:
+        """Creates a new print action.
+
+        Args:
+            obj: Text to print, or the node or list of nodes whose value to
+                print.
+            nodes: List of nodes whose value to print.
+        """
         super().__init__()
 
-        self._obj = obj
+        self._text = obj if isinstance(obj, str) else None
+        self._nodes = list(nodes or [])
+        if isinstance(obj, goos.ProblemGraphNode):
+            self._nodes.append(obj)
+        elif obj is not None and self._text is None:
+            self._nodes += obj
 
-    def run(self, plan: goos.OptimizationPlan) -> None:
-        if isinstance(self._obj, str):
-            plan.logger.info(self._obj)
-            return
+        self._goos_schema = LogPrint.Schema(
+            name=self.node_type,
+            obj=self._text,
+            nodes=[node._goos_schema for node in self._nodes])
 
-        if isinstance(self._obj, goos.Function):
-            nodes = [self._obj]
-        else:
-            nodes = self._obj
+    def run(self, plan: goos.OptimizationPlan) -> None:
+        if self._text is not None:
+            plan.logger.info(self._text)
 
-        values = plan.eval_nodes(nodes)
-        for node, val in zip(nodes, values):
+        values = plan.eval_nodes(self._nodes)
+        for node, val in zip(self._nodes, values):
             plan.logger.info("{}: {}".format(node._goos_name, val))
 
 
-- 
2.43.0


From 4e26127e4e8f729044e2ea53e65ce907b97dac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:30 +0000
Subject: [PATCH 024/122] fix: goos accepts plan versions above 0.3 regardless
 of the minor version

---
 spins/goos/optplan/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/optplan/schema.py b/spins/goos/optplan/schema.py
index 63b67b3..9b2ba30 100644
--- a/spins/goos/optplan/schema.py
+++ b/spins/goos/optplan/schema.py
@@ -462,7 +462,7 @@ def _validate_optplan_version(version: str) -> None:
         ValueError: On incompatible version.
     """
     version_parts = [int(part) for part in version.split(".")]
-    if version_parts[0] < 0 or version_parts[1] < 3:
+    if version_parts < [0, 3]:
         raise ValueError(
             "Optplan must be at least version 0.3.0, got {}".format(version))
 
-- 
2.43.0


From 9deafb3ab5c0e8e9bda4062618f8e6743f0e4a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:26 +0000
Subject: [PATCH 025/122] fix: goos refuses plans where an action has the name
 of another node

---
 spins/goos/optplan/schema.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spins/goos/optplan/schema.py b/spins/goos/optplan/schema.py
index 9b2ba30..003b806 100644
--- a/spins/goos/optplan/schema.py
+++ b/spins/goos/optplan/schema.py
@@ -424,6 +424,14 @@ def validate(plan: optplan.OptimizationPlanSchema) -> None:
             raise ValueError("Nonunique name found: {}".format(node.name))
         names.add(node.name)
 
+    # The same action may be performed repeatedly.
+    actions = {}
+    for action in plan.actions or []:
+        action_data = action.to_primitive()
+        if (action.name in names or
+                actions.setdefault(action.name, action_data) != action_data):
+            raise ValueError("Nonunique name found: {}".format(action.name))
+
 
 def validate_references(model: models.Model) -> None:
     """Validates that all `optplan.ReferenceType` are valid.
-- 
2.43.0


From 896b7e2ea876ef8f21ca2c0518718a68f288a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:06 +0000
Subject: [PATCH 026/122] fix: goos shapes that have been renamed or cast can
 be evaluated

---
 spins/goos/generic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spins/goos/generic.py b/spins/goos/generic.py
index 0e4fdf3..1ca03e1 100644
--- a/spins/goos/generic.py
+++ b/spins/goos/generic.py
@@ -52,6 +52,11 @@ def cast(node: goos.ProblemGraphNode,
             goos.ProblemGraphNode.__init__(self, node)
             self._node = node
 
+        def eval_const_flags(self, inputs):
+            # Do not use the implementation of the superclass or the underlying
+            # node as these expect other inputs.
+            return inputs[0]
+
         def eval(self, inputs):
             return inputs[0]
 
-- 
2.43.0


From 4cfd451fcd928d31313eddc566532bd52db8f2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:43 +0000
Subject: [PATCH 027/122] fix: goos optimizer passes on the gradient of every
 element of a constraint

The Jacobian of constraints with several elements was computed as if they
were scalar. The gradient of the edge location constraint of gratings also had
the wrong sign for the first edge.
---
 spins/goos/graph_executor.py  | 11 ++++++--
 spins/goos/grating.py         |  4 +--
 spins/goos/optimize.py        | 51 ++++++++++++++++-------------------
 spins/goos/optplan/optplan.py |  5 ++--
 4 files changed, 37 insertions(+), 34 deletions(-)

diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index d49af01..1369226 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -234,7 +234,8 @@ def eval_grad(
     fun: "goos.Function",
     variables: List["goos.Variable"],
     override_map: Dict["goos.Function", Tuple["flows.Flow", "flows.Flow",
-                                              "goos.NodeFlags"]] = None
+                                              "goos.NodeFlags"]] = None,
+    out_grad: np.ndarray = None,
 ) -> Union[List["flows.Flow"], "flows.Flow"]:
     """Evalutes the gradient of `fun` with respect to `param`.
 
@@ -258,6 +259,9 @@ def eval_grad(
             where `fun_val` is the value of the node, `grad_val` is the
             value of the gradient with respect to the node, and `context` is the
             context of the node.
+        out_grad: Gradient with respect to the value of `fun`. This selects
+            which combination of the elements of a vector-valued function to
+            differentiate. Unnecessary for scalar functions.
 
     Returns:
         The function value.
@@ -265,6 +269,9 @@ def eval_grad(
     Raises:
         ValueError: If more than one `Variable` node was found.
     """
+    if out_grad is None:
+        out_grad = np.array([1.0])
+
     fun_map, graph, in_nodes, out_nodes, heavy_nodes = _create_computational_graph(
         [fun])
     out_node = out_nodes[0]
@@ -292,7 +299,7 @@ def eval_grad(
     if override_map:
         for fun, flow in override_map.items():
             known_grads[id(fun)] = [flow[1]]
-    grad_vals[out_node] = flows.NumericFlow.Grad(np.array([1.0]))
+    grad_vals[out_node] = flows.NumericFlow.Grad(out_grad)
 
     def _eval_grad(node, input_vals, grad_val, context):
         context = goos.EvalContext(context)
diff --git a/spins/goos/grating.py b/spins/goos/grating.py
index 97a954b..d450d13 100644
--- a/spins/goos/grating.py
+++ b/spins/goos/grating.py
@@ -729,13 +729,13 @@ class EdgeLocConstraint(goos.Function):
 
             # Append constraints for first and last edge.
             first = np.zeros(len(vector))
-            first[0] = 1
+            first[0] = -1
             last = np.zeros(len(vector))
             last[-1] = 1
             self._diff_mat = np.vstack([self._diff_mat, first, last])
 
         return [
-            goos.NumericFlow.Grad(grad_val.array_grad * self._diff_mat), None
+            goos.NumericFlow.Grad(grad_val.array_grad @ self._diff_mat), None
         ]
 
 
diff --git a/spins/goos/optimize.py b/spins/goos/optimize.py
index 9984393..bfa31d0 100644
--- a/spins/goos/optimize.py
+++ b/spins/goos/optimize.py
@@ -135,6 +135,23 @@ class ScipyOptimizer(goos.Action):
                               np.linalg.norm(val))
             return val
 
+        def constraint_jac(cons, x):
+            # A constraint may have several elements. In that case, we compute
+            # the gradient of each of them.
+            unpack_and_set(x)
+            val = plan.eval_node(cons).array
+            rows = []
+            for i in range(val.size):
+                out_grad = None
+                if val.size > 1:
+                    out_grad = np.zeros(val.shape)
+                    out_grad.flat[i] = 1
+                grad_flows = plan.eval_grad(cons, variables, out_grad)
+                rows.append(
+                    np.hstack([flow.array_grad.flatten()
+                               for flow in grad_flows]))
+            return np.array(rows)
+
         # To avoid scipy warning, only pass Jacobian to methods that need it.
         methods_that_need_jacobian = {
             "CG", "BFGS", "L-BFGS-B", "TNC", "SLSQP", "dogleg", "trust-ncg"
@@ -153,23 +170,12 @@ class ScipyOptimizer(goos.Action):
                 # the functions refer to the last constraint.
                 def cons_fun(x, eq=eq):
                     unpack_and_set(x)
-                    val = plan.eval_node(eq).array
-                    plan.logger.debug("Eq. cons. function evaluated: %f", val)
+                    val = plan.eval_node(eq).array.flatten()
+                    plan.logger.debug("Eq. cons. function evaluated: %s", val)
                     return val
 
                 def cons_jac(x, eq=eq):
-                    unpack_and_set(x)
-                    grad_flows = plan.eval_grad(eq, variables)
-                    val = []
-                    for flow, var_shape in zip(grad_flows, var_shapes):
-                        # Flatten only the dimension corresponding to the
-                        # variable.
-                        arr = flow.array_grad
-                        new_shape = arr.shape[:-len(var_shape)] + (
-                            np.prod(var_shape),)
-                        val.append(np.reshape(arr, new_shape))
-
-                    val = np.hstack(val)
+                    val = constraint_jac(eq, x)
                     plan.logger.debug("Eq. cons. gradient evaluated, norm: %f",
                                       np.linalg.norm(val))
                     return val
@@ -185,23 +191,12 @@ class ScipyOptimizer(goos.Action):
                 # for inequalities (f >= 0 vs f <= 0).
                 def cons_fun(x, ineq=ineq):
                     unpack_and_set(x)
-                    val = plan.eval_node(ineq).array
-                    plan.logger.debug("Ineq. cons. function evaluated: %f", val)
+                    val = plan.eval_node(ineq).array.flatten()
+                    plan.logger.debug("Ineq. cons. function evaluated: %s", val)
                     return -val
 
                 def cons_jac(x, ineq=ineq):
-                    unpack_and_set(x)
-                    grad_flows = plan.eval_grad(ineq, variables)
-                    val = []
-                    for flow, var_shape in zip(grad_flows, var_shapes):
-                        # Flatten only the dimension corresponding to the
-                        # variable.
-                        arr = flow.array_grad
-                        new_shape = arr.shape[:-len(var_shape)] + (
-                            np.prod(var_shape),)
-                        val.append(np.reshape(arr, new_shape))
-
-                    val = np.hstack(val)
+                    val = constraint_jac(ineq, x)
                     plan.logger.debug(
                         "Ineq. cons. gradient evaluated, norm: %f",
                         np.linalg.norm(val))
diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 946dc9d..cefb209 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -735,7 +735,8 @@ class OptimizationPlan:
         return self.eval_nodes([node])[0]
 
     def eval_grad(self, node: ProblemGraphNode,
-                  wrt_nodes: List[ProblemGraphNode]):
+                  wrt_nodes: List[ProblemGraphNode],
+                  out_grad: np.ndarray = None):
         self.add_node(node)
         from spins.goos import graph_executor
         from spins.goos import flows
@@ -758,7 +759,7 @@ class OptimizationPlan:
 
             override_map[self._node_map[var_name]] = (
                 flows.NumericFlow(var_value.copy()), grad_value, context)
-        return graph_executor.eval_grad(node, wrt_nodes, override_map)
+        return graph_executor.eval_grad(node, wrt_nodes, override_map, out_grad)
 
     def __enter__(self):
         push_plan(self)
-- 
2.43.0


From 5be12ad2ff6a4dbedb0011c917600f48d6e092e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:43 +0000
Subject: [PATCH 028/122] fix: goos optimizer does not ignore options that are
 zero

---
 spins/goos/optimize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spins/goos/optimize.py b/spins/goos/optimize.py
index bfa31d0..58650a9 100644
--- a/spins/goos/optimize.py
+++ b/spins/goos/optimize.py
@@ -63,15 +63,15 @@ class ScipyOptimizer(goos.Action):
             self._options["options"].update({
                 "maxiter": max_iters,
             })
-        if ftol:
+        if ftol is not None:
             self._options["options"].update({
                 "ftol": ftol,
             })
-        if gtol:
+        if gtol is not None:
             self._options["options"].update({
                 "gtol": gtol,
             })
-        if maxls:
+        if maxls is not None:
             self._options["options"].update({
                 "maxls": maxls,
             })
-- 
2.43.0


From 3bc16e1354f43cd2f449e988e4870bed84d2bc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:43 +0000
Subject: [PATCH 029/122] fix: goos optimizer does not overwrite the iteration
 variable

---
 spins/goos/optimize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spins/goos/optimize.py b/spins/goos/optimize.py
index 58650a9..507b8bb 100644
--- a/spins/goos/optimize.py
+++ b/spins/goos/optimize.py
@@ -77,7 +77,10 @@ class ScipyOptimizer(goos.Action):
             })
 
     def run(self, plan: goos.OptimizationPlan, start_iter: int = 0):
-        variables = plan.get_thawed_vars()
+        # The iteration number is not an optimization variable.
+        variables = [
+            var for var in plan.get_thawed_vars() if var is not self._iter
+        ]
 
         var_shapes = []
         initial_val = []
-- 
2.43.0


From cbd83a64c75d10344905913233da06bade5cfeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:30 +0000
Subject: [PATCH 030/122] fix: goos gradients of array flows are not lost if a
 part of them is zero

---
 spins/goos/array.py          |  4 +++-
 spins/goos/graph_executor.py | 38 ++++++++++++++++++++++++++++++++----
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/spins/goos/array.py b/spins/goos/array.py
index 8177c6b..2d791fa 100644
--- a/spins/goos/array.py
+++ b/spins/goos/array.py
@@ -1,6 +1,7 @@
 """Contains nodes and flows for handling array flows."""
 from typing import List, Union
 
+import copy
 import dataclasses
 
 from spins import goos
@@ -35,7 +36,8 @@ class ArrayFlow(flows.Flow):
             for i in range(len(self.flows_grad)):
                 # `None + obj == obj` where `obj` is any valid `Grad` object.
                 if not self.flows_grad[i]:
-                    self.flows_grad[i] = value[i]
+                    # Make a copy because accumulation happens in-place.
+                    self.flows_grad[i] = copy.deepcopy(value[i])
                 elif value[i]:
                     self.flows_grad[i] += value[i]
             return super().__iadd__(value)
diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index 1369226..fb675a8 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -25,6 +25,7 @@ from typing import Dict, List, Set, Tuple, Union
 import collections
 import concurrent.futures
 import copy
+import dataclasses
 import inspect
 
 import numpy as np
@@ -312,11 +313,11 @@ def eval_grad(
             return fun_map[node].grad(input_vals, grad_val, context)
 
     def _update_grad_vals(node, node_grad_vals):
-        # If the gradient is `None`, we automatically create an
-        # empty gradient structure.
+        # If the gradient is `None`, we automatically create a
+        # gradient structure that is zero.
         for i in range(len(node_grad_vals)):
             if node_grad_vals[i] is None:
-                node_grad_vals[i] = type(fun_vals[graph[node][i]]).Grad()
+                node_grad_vals[i] = _zero_grad(fun_vals[graph[node][i]])
 
         # Update the gradient values. Accumulation happens in place so make sure
         # that the accumulated value is not shared with any other gradient.
@@ -389,7 +390,15 @@ def eval_grad(
     grad_ret = []
     for variable in variables:
         if id(variable) in grad_vals:
-            grad_ret.append(grad_vals[id(variable)])
+            grad = grad_vals[id(variable)]
+            # Gradients that have not been filled in default to one zero. Make
+            # sure that the gradient has the shape of the variable.
+            if isinstance(grad, flows.NumericFlow.Grad) and np.size(
+                    grad.array_grad) == 1:
+                grad.array_grad = np.full(
+                    np.shape(fun_vals[id(variable)].array),
+                    np.ravel(grad.array_grad)[0])
+            grad_ret.append(grad)
         else:
             flow = override_map[variable][0]
             grad_ret.append(
@@ -397,6 +406,27 @@ def eval_grad(
     return grad_ret
 
 
+def _zero_grad(flow: "flows.Flow") -> "flows.Flow.Grad":
+    """Creates a gradient of zero with respect to a flow.
+
+    Args:
+        flow: Flow to create gradient for.
+
+    Returns:
+        Gradient where each entry has the same shape as the corresponding entry
+        in `flow`.
+    """
+    if isinstance(flow, goos.ArrayFlow):
+        return type(flow).Grad([_zero_grad(f) for f in flow])
+
+    grad = type(flow).Grad()
+    for field in dataclasses.fields(flow):
+        if hasattr(grad, field.name + "_grad"):
+            setattr(grad, field.name + "_grad",
+                    np.zeros(np.shape(getattr(flow, field.name))))
+    return grad
+
+
 def _create_computational_graph(
     fun_list: List["goos.Function"]
 ) -> Tuple[FunctionMap, Graph, Set[NodeId], NodeId]:
-- 
2.43.0


From c2e498f8fe7d684c061ca0c5e26b04461008f1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:30 +0000
Subject: [PATCH 031/122] fix: goos shapes at integer positions and groups of
 shapes can be translated

---
 spins/goos/shapes.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/spins/goos/shapes.py b/spins/goos/shapes.py
index c1bac0c..4c796b5 100644
--- a/spins/goos/shapes.py
+++ b/spins/goos/shapes.py
@@ -508,8 +508,16 @@ class TranslateShape(Shape):
         return inputs[0]
 
     def eval(self, inputs: List[ShapeFlow]) -> ShapeFlow:
-        flow = copy.deepcopy(inputs[0])
-        flow.pos += self._offset
+        return self._translate(inputs[0])
+
+    def _translate(
+        self, flow: Union[ShapeFlow, goos.ArrayFlow]
+    ) -> Union[ShapeFlow, goos.ArrayFlow]:
+        if isinstance(flow, goos.ArrayFlow):
+            return goos.ArrayFlow([self._translate(f) for f in flow])
+
+        flow = copy.deepcopy(flow)
+        flow.pos = np.array(flow.pos) + self._offset
         return flow
 
     def grad(self, inputs: List[ShapeFlow],
-- 
2.43.0


From 8b3a169f7549ecebb49a34e3384b676a5da4a6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:30 +0000
Subject: [PATCH 032/122] fix: goos cuboid accepts an array as rotation

---
 spins/goos/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/shapes.py b/spins/goos/shapes.py
index 4c796b5..a644e5b 100644
--- a/spins/goos/shapes.py
+++ b/spins/goos/shapes.py
@@ -78,7 +78,7 @@ def cuboid(extents, pos, rot=None, **kwargs):
         extents = goos.Constant(extents)
     if not isinstance(pos, goos.Function):
         pos = goos.Constant(pos)
-    if rot and not isinstance(rot, goos.Function):
+    if rot is not None and not isinstance(rot, goos.Function):
         rot = goos.Constant(rot)
 
     return Cuboid(extents, pos, rot, **kwargs)
-- 
2.43.0


From cc5196ce53c4c62f691531ae6cb3485ffaa8d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:08 +0000
Subject: [PATCH 033/122] fix: number of pixels of a goos shape is not affected
 by rounding errors

---
 spins/goos/shapes.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/spins/goos/shapes.py b/spins/goos/shapes.py
index a644e5b..de82d9d 100644
--- a/spins/goos/shapes.py
+++ b/spins/goos/shapes.py
@@ -253,9 +253,7 @@ class PixelatedContShapeFlow(ShapeFlow, goos.NumericFlow):
         # large.
         edge_coords = []
         for i in range(len(extents)):
-            num_pixels = np.ceil(extents[i] / pixel_size[i])
-            if num_pixels * pixel_size[i] < extents[i]:
-                num_pixels += 1
+            num_pixels = cls._get_num_pixels(extents[i], pixel_size[i])
             coord = pixel_size[i] * np.arange(0, num_pixels + 1)
             edge_coords.append(coord - (coord[0] + coord[-1]) / 2)
 
@@ -284,13 +282,18 @@ class PixelatedContShapeFlow(ShapeFlow, goos.NumericFlow):
         Returns:
             List of the shape of the values array.
         """
-        shape = []
-        for i in range(3):
-            size = int(extents[i] / pixel_size[i]) + 1
-            if pixel_size[i] * (size - 1) >= extents[i]:
-                size -= 1
-            shape.append(size)
-        return shape
+        return [
+            cls._get_num_pixels(extents[i], pixel_size[i]) for i in range(3)
+        ]
+
+    @classmethod
+    def _get_num_pixels(cls, extent: float, pixel_size: float) -> int:
+        """Returns the number of pixels needed to cover `extent`."""
+        num_pixels = extent / pixel_size
+        # Do not add a pixel because of rounding errors.
+        if np.isclose(num_pixels, np.round(num_pixels), rtol=1e-9, atol=0):
+            return int(np.round(num_pixels))
+        return int(np.ceil(num_pixels))
 
 
 class PixelatedContShape(Shape, goos.Function):
-- 
2.43.0


From 2483e3220fe7ab25e6ea0a3a900db14f4f8a8d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:18 +0000
Subject: [PATCH 034/122] fix: converting a grid index to a position works and
 is bounded by the grid

---
 spins/gridlock/grid.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index eb4d3c2..57c1adc 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -246,17 +246,22 @@ class Grid:
         if check_bounds:
             if round_ind:
                 low_bound = 0.0
-                high_bound = -1
+                high_bound = 1.0
             else:
                 low_bound = -0.5
-                high_bound = -0.5
-            if (ind < low_bound).any() or (ind > self.shape - high_bound).any():
+                high_bound = 0.5
+            num_cells = np.array([
+                e.size - 1 for e in self.shifted_exyz(which_shifts, which_grid)
+            ])
+            if (ind < low_bound).any() or (ind > num_cells - high_bound).any():
                 raise GridError('Position outside of grid: {}'.format(ind))
 
         if round_ind:
-            rind = np.clip(np.round(ind), 0, self.shape - 1)
             sxyz = self.shifted_xyz(which_shifts, which_grid)
-            position = [sxyz[a][rind[a]].astype(int) for a in range(3)]
+            position = [
+                sxyz[a][int(np.clip(np.round(ind[a]), 0, sxyz[a].size - 1))]
+                for a in range(3)
+            ]
         else:
             sexyz = self.shifted_exyz(which_shifts, which_grid)
             position = [
-- 
2.43.0


From e25a9f724ceeb1ef170b77d06648cda90873a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:18 +0000
Subject: [PATCH 035/122] fix: fractional grid indices have integers at the
 cell centers

---
 spins/gridlock/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index 57c1adc..457fe58 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -319,8 +319,8 @@ class Grid:
                 x = self.shifted_exyz(which_shifts, which_grid)[a][xi]
                 dx = self.shifted_dxyz(which_shifts, which_grid)[a][xi]
                 f = (r[a] - x) / dx
-                # Clip to centers
-                grid_pos[a] = np.clip(xi + f, 0, sexyz[a].size - 1)
+                # Clip to centers (integer indices are at the cell centers).
+                grid_pos[a] = np.clip(xi + f - 0.5, 0, sexyz[a].size - 2)
         return grid_pos
 
     def coord2ind(self,
-- 
2.43.0


From 1b3dab903a90826d07ede2af3ed8398a639ae99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:18 +0000
Subject: [PATCH 036/122] fix: grid does not ignore periodicity given per axis

---
 spins/gridlock/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index 457fe58..de47aa7 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -363,7 +363,7 @@ class Grid:
         if is_scalar(periodic):
             self.periodic = [periodic] * 3
         else:
-            self.periodic = [False] * 3
+            self.periodic = list(periodic)
 
         self.shifts = np.array(shifts, dtype=float)
         self.comp_shifts = np.array(comp_shifts, dtype=float)
-- 
2.43.0


From 834476558feb46b661042ff3baf08631b1f4c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:18 +0000
Subject: [PATCH 037/122] fix: grid refuses invalid shifts

---
 spins/gridlock/grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index de47aa7..66e6e2b 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -368,19 +368,19 @@ class Grid:
         self.shifts = np.array(shifts, dtype=float)
         self.comp_shifts = np.array(comp_shifts, dtype=float)
         if self.shifts.shape[1] != 3:
-            GridError(
+            raise GridError(
                 'Misshapen shifts on the primary grid; second axis size should be 3,'
                 ' shape is {}'.format(self.shifts.shape))
         if self.comp_shifts.shape[1] != 3:
-            GridError(
+            raise GridError(
                 'Misshapen shifts on the complementary grid: second axis size should be 3,'
                 ' shape is {}'.format(self.comp_shifts.shape))
         if self.comp_shifts.shape[0] != self.shifts.shape[0]:
-            GridError(
+            raise GridError(
                 'Inconsistent number of shifts in the primary and complementary grid'
             )
         if not ((self.shifts >= 0).all() and (self.comp_shifts >= 0).all()):
-            GridError(
+            raise GridError(
                 'Shifts are required to be non-negative for both primary and complementary grid'
             )
 
-- 
2.43.0


From f6c5a7fad3b55c4b0c6fe462ac68a49532c5ccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:18 +0000
Subject: [PATCH 038/122] fix: grid can be drawn on if its initial value is a
 real or integer array

---
 spins/gridlock/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index 66e6e2b..11d5115 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -408,7 +408,7 @@ class Grid:
                     if not np.array_equal(initial[i].shape, self.shape):
                         raise GridError(
                             'Initial grid sizes must match given coordinates')
-                    self.grids_bg[i] = initial[i]
+                    self.grids_bg[i] = np.array(initial[i], dtype=complex)
 
         if isinstance(ext_dir, Direction):
             self.ext_dir = ext_dir.value
-- 
2.43.0


From b02aab63c7f491bae49600108a48af6e5f4d06ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:18 +0000
Subject: [PATCH 039/122] fix: permittivity drawn on a grid can be a list and
 is validated for polygons

---
 spins/gridlock/grid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index 11d5115..c3135ae 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -499,8 +499,9 @@ class Grid:
 
         if is_scalar(eps):
             eps = np.ones(self.shifts.shape[0]) * eps
-        elif eps.ndim != 1 and eps.size != self.shifts.shape[0]:
-            raise GridErro(
+        eps = np.array(eps)
+        if eps.ndim != 1 or eps.size != self.shifts.shape[0]:
+            raise GridError(
                 'Invalid permittivity - must be scalar or vector of length equalling number of grids'
             )
         # Translating polygon by its center
@@ -531,6 +532,7 @@ class Grid:
 
         if is_scalar(eps):
             eps = np.ones(self.shifts.shape[0]) * eps
+        eps = np.array(eps)
         if eps.ndim != 1 or eps.size != self.shifts.shape[0]:
             raise GridError(
                 'Invalid permittivity - must be scalar or vector of length equalling number of grids'
@@ -563,6 +565,7 @@ class Grid:
 
         if is_scalar(eps):
             eps = np.ones(self.shifts.shape[0]) * eps
+        eps = np.array(eps)
 
         if eps.ndim != 1 or eps.size != self.shifts.shape[0]:
             raise GridError(
@@ -603,6 +606,7 @@ class Grid:
 
         if is_scalar(eps):
             eps = np.ones(self.shifts.shape[0]) * eps
+        eps = np.array(eps)
 
         if eps.ndim != 1 or eps.size != self.shifts.shape[0]:
             raise GridError(
-- 
2.43.0


From da05d3411092abedd87d2c5dc4fc334bfbabf419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:18 +0000
Subject: [PATCH 040/122] fix: grid fill direction can be given as an integer

---
 spins/gridlock/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index c3135ae..ee26492 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -636,7 +636,7 @@ class Grid:
             fill_dir = fill_dir.value
         elif not is_scalar(fill_dir):
             raise GridError('Invalid slab direction')
-        elif not dir_slab in range(3):
+        elif not fill_dir in range(3):
             raise GridError('Invalid slab direction')
 
         if not is_scalar(fill_pol):
@@ -669,7 +669,7 @@ class Grid:
             fill_dir = fill_dir.value
         elif not is_scalar(fill_dir):
             raise GridError('Invalid slab direction')
-        elif not dir_slab in range(3):
+        elif not fill_dir in range(3):
             raise GridError('Invalid slab direction')
 
         if not is_scalar(fill_pol):
-- 
2.43.0


From e349bac2529c26799bbd264ca23fc027d119641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:18 +0000
Subject: [PATCH 041/122] fix: grid with fewer component grids than shifts can
 be rendered

---
 spins/gridlock/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index ee26492..dc4a17f 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -973,7 +973,7 @@ class Grid:
                         eps=polygon[1])
 
         # Finally, adding the background permittivity
-        for i in range(0, self.shifts.shape[0]):
+        for i in range(0, len(self.grids)):
             self.grids[i] = self.grids[i] + self.grids_bg[i] * self.frac_bg[i]
 
     def get_slice(self,
-- 
2.43.0


From f50b1e8b51d32daead6860244f88b87567dc0aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:18 +0000
Subject: [PATCH 042/122] fix: slices of a complex or down-sampled grid can be
 retrieved

---
 spins/gridlock/grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index dc4a17f..13a0f43 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -1029,11 +1029,11 @@ class Grid:
                 'Coordinate of selected plane must be within simulation domain')
 
         # Extract grid values from planes above and below visualized slice
-        sliced_grid = zeros(self.shape[surface])
+        sliced_grid = 0
         for ci, weight in zip(centers, w):
             s = tuple(
                 ci if a == surface_normal else np.s_[::sp] for a in range(3))
-            sliced_grid += weight * self.grids[which_shifts][tuple(s)]
+            sliced_grid = sliced_grid + weight * self.grids[which_shifts][tuple(s)]
 
         # Remove extra dimensions
         sliced_grid = np.squeeze(sliced_grid)
@@ -1078,7 +1078,7 @@ class Grid:
             grid_slice = np.transpose(np.array([grid_slice]))
 
         pyplot.figure()
-        pyplot.pcolormesh(xmesh, ymesh, grid_slice)
+        pyplot.pcolormesh(xmesh, ymesh, np.real(grid_slice))
         pyplot.colorbar()
         pyplot.gca().set_aspect('equal', adjustable='box')
         pyplot.xlabel(x_label)
-- 
2.43.0


From 74a4b0645a4a402b205f4958b7a66be50d5f9498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:03 +0000
Subject: [PATCH 043/122] fix: grid does not truncate coordinates along the
 extrusion direction to integers

---
 spins/gridlock/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index 13a0f43..b52cbd3 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -812,7 +812,7 @@ class Grid:
             return np.insert(vector, self.ext_dir, z)
 
         def get_zi(z: float, which_shifts: float):
-            pos_3D = to_3D([0, 0], z)
+            pos_3D = to_3D([0.0, 0.0], z)
             grid_coords = self.pos2ind(
                 pos_3D,
                 which_shifts,
@@ -1011,7 +1011,7 @@ class Grid:
         surface = np.delete(range(3), surface_normal)
 
         # Extract indices and weights of planes
-        center3 = np.insert([0, 0], surface_normal, (center,))
+        center3 = np.insert([0.0, 0.0], surface_normal, (center,))
         center_index = self.pos2ind(
             center3, which_shifts, round_ind=False,
             check_bounds=False)[surface_normal]
-- 
2.43.0


From e5d5a90933fa00a98e614987305cca7ce07ea959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:03 +0000
Subject: [PATCH 044/122] fix: filling a grid in a direction always reaches the
 end of the grid

---
 spins/gridlock/grid.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index b52cbd3..cb4533e 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -650,8 +650,11 @@ class Grid:
         if surf_extent.ndim != 1 or surf_extent.size != 2:
             raise GridError('Invalid surface extent')
 
-        edge_lim = self.exyz[fill_dir][0] if fill_pol == -1 else self.exyz[
-            fill_dir][-1]
+        # Extend beyond the edge of the grid as the outermost cells of shifted
+        # grids do.
+        edges = self.exyz[fill_dir]
+        edge_lim = (edges[0] if fill_pol == -1 else
+                    edges[-1]) + fill_pol * (edges[-1] - edges[0])
         cuboid_extent = np.insert(surf_extent, fill_dir,
                                   2 * np.abs(edge_lim - surf_center[fill_dir]))
 
@@ -680,8 +683,11 @@ class Grid:
         if not is_scalar(surf_center):
             raise GridError('Invalid surface center')
 
-        edge_lim = self.exyz[fill_dir][0] if fill_pol == -1 else self.exyz[
-            fill_dir][-1]
+        # Extend beyond the edge of the grid as the outermost cells of shifted
+        # grids do.
+        edges = self.exyz[fill_dir]
+        edge_lim = (edges[0] if fill_pol == -1 else
+                    edges[-1]) + fill_pol * (edges[-1] - edges[0])
         slab_thickness = 2 * np.abs(edge_lim - surf_center)
         slab_center = surf_center + 0.5 * fill_pol * slab_thickness
         self.draw_slab(fill_dir, slab_center, slab_thickness, eps)
-- 
2.43.0


From e2763965df5b842fed4b40798f54ceea38860ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:43 +0000
Subject: [PATCH 045/122] fix: gradient of a rendered pixelated shape weighs
 all field components equally

---
 spins/goos_sim/maxwell/render.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spins/goos_sim/maxwell/render.py b/spins/goos_sim/maxwell/render.py
index ecd2c4e..56682a5 100644
--- a/spins/goos_sim/maxwell/render.py
+++ b/spins/goos_sim/maxwell/render.py
@@ -140,7 +140,7 @@ class PixelatedContShapeFlowImpl(GeometryImpl):
         contrast = self.shape.material2.permittivity(
             params.wlen) - self.shape.material.permittivity(params.wlen)
         shape_coords = self.shape.get_edge_coords()
-        grad = np.zeros_like(self.shape.array)
+        grad = np.zeros(np.shape(self.shape.array))
         for axis in range(3):
             grid_coords = grid.shifted_exyz(axis,
                                             which_grid=gridlock.GridType.COMP)
@@ -151,10 +151,11 @@ class PixelatedContShapeFlowImpl(GeometryImpl):
             ]
             mat = get_rendering_matrix(shape_coords, grid_coords)
             grid_vals = contrast * mat.T @ grid.grids[axis].flatten()
-            grad += np.real(np.reshape(grid_vals, self.shape.array.shape))
+            grid_vals = np.reshape(grid_vals, np.shape(self.shape.array))
             # TODO(logansu): Fix complex gradient.
             if np.iscomplexobj(grid_vals):
-                grad *= 2
+                grid_vals = 2 * grid_vals
+            grad += np.real(grid_vals)
 
         return goos.PixelatedContShapeFlow.Grad(array_grad=grad)
 
-- 
2.43.0


From f18da118639b95689c0927305db151fedb3e48e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:36 +0000
Subject: [PATCH 046/122] fix: the full E-H wave operator accepts the default
 permeability

---
 spins/fdfd_tools/operators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spins/fdfd_tools/operators.py b/spins/fdfd_tools/operators.py
index ffedcb6..398656d 100644
--- a/spins/fdfd_tools/operators.py
+++ b/spins/fdfd_tools/operators.py
@@ -226,9 +226,10 @@ def eh_full(omega: complex,
         pm = sparse.diags(np.where(pmc, 0, 1))  # set pm to (not PMC)
 
     iwe = pe @ (1j * omega * sparse.diags(epsilon)) @ pe
-    iwm = 1j * omega
-    if not np.any(np.equal(mu, None)):
-        iwm *= sparse.diags(mu)
+    if np.any(np.equal(mu, None)):
+        iwm = 1j * omega * sparse.eye(epsilon.size)
+    else:
+        iwm = 1j * omega * sparse.diags(mu)
     iwm = pm @ iwm @ pm
 
     A1 = pe @ curl_h(dxes, bloch_vec, shift_orthogonal) @ pm
-- 
2.43.0


From c61c365758780fd9a7f56f3e30db39a95ac5a086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:36 +0000
Subject: [PATCH 047/122] fix: the functional wave operator divides by the
 permeability

---
 spins/fdfd_tools/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/fdfd_tools/functional.py b/spins/fdfd_tools/functional.py
index c0fd2d9..38ea02a 100644
--- a/spins/fdfd_tools/functional.py
+++ b/spins/fdfd_tools/functional.py
@@ -84,7 +84,7 @@ def e_full(omega: complex,
         return [c - omega**2 * e * x for c, e, x in zip(curls, epsilon, e)]
 
     def op_mu(e):
-        curls = ch([m * y for m, y in zip(mu, ce(e))])
+        curls = ch([y / m for m, y in zip(mu, ce(e))])
         return [c - omega**2 * p * x for c, p, x in zip(curls, epsilon, e)]
 
     if np.any(np.equal(mu, None)):
-- 
2.43.0


From 112e54f310a27f4c14154272a482536bd78b0faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:36 +0000
Subject: [PATCH 048/122] fix: a PML of thickness zero leaves the grid
 unchanged on either side

---
 spins/fdfd_tools/grid.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/spins/fdfd_tools/grid.py b/spins/fdfd_tools/grid.py
index f769a1f..54a9bf3 100644
--- a/spins/fdfd_tools/grid.py
+++ b/spins/fdfd_tools/grid.py
@@ -140,10 +140,7 @@ def stretch_with_scpml(
         def l_d(x):
             return (x - bound) / (pos[-1] - bound)
 
-        if thickness == 0:
-            slc = slice(None)
-        else:
-            slc = slice(-thickness, None)
+        slc = slice(len(pos) - 1 - thickness, None)
 
     dx_ai[slc] *= 1 + 1j * s_function(l_d(pos_a[slc])) / d / s_correction
     dx_bi[slc] *= 1 + 1j * s_function(l_d(pos_b[slc])) / d / s_correction
-- 
2.43.0


From fcb48a01a732c77f27d9a00cb87b10f76d3507c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:36 +0000
Subject: [PATCH 049/122] fix: a non-uniform grid honours the default mesh size
 of every axis

---
 spins/fdfd_tools/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/fdfd_tools/grid.py b/spins/fdfd_tools/grid.py
index 54a9bf3..4034d5e 100644
--- a/spins/fdfd_tools/grid.py
+++ b/spins/fdfd_tools/grid.py
@@ -214,8 +214,8 @@ def make_nonuniform_grid(SimBorders: List[int],
     y = np.linspace(np.floor(SimBorders[2]), np.ceil(SimBorders[3]), NY + 1)
     z = np.linspace(np.floor(SimBorders[4]), np.ceil(SimBorders[5]), NZ + 1)
     dx = dx_default[0] * np.ones((1, NX + 1))
-    dy = dx_default[0] * np.ones((1, NY + 1))
-    dz = dx_default[0] * np.ones((1, NZ + 1))
+    dy = dx_default[1] * np.ones((1, NY + 1))
+    dz = dx_default[2] * np.ones((1, NZ + 1))
 
     # define a function that makes a dx vector with DX in between x0 and xn and
     # that increases outside of the [x0, xn] with grad_mesh
-- 
2.43.0


From e3d5b7f013d4dc56c7a25c6b9ce63e1d5da1cf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:36 +0000
Subject: [PATCH 050/122] fix: a non-uniform grid spans exactly the simulation
 borders

---
 spins/fdfd_tools/grid.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/spins/fdfd_tools/grid.py b/spins/fdfd_tools/grid.py
index 4034d5e..5fb734c 100644
--- a/spins/fdfd_tools/grid.py
+++ b/spins/fdfd_tools/grid.py
@@ -246,20 +246,25 @@ def make_nonuniform_grid(SimBorders: List[int],
     dyv = np.amin(dy, axis=0)
     dzv = np.amin(dz, axis=0)
 
+    # the last mesh point may overshoot the border: shrink the mesh to span
+    # exactly the simulation borders
+    def fit(xs, x0, xn):
+        return x0 + (np.array(xs) - x0) / (xs[-1] - x0) * (xn - x0)
+
     # make the mesh: start at the simulation border and take step with the mesh
     # size give at that point
     xs = [SimBorders[0]]
     while xs[-1] < SimBorders[1]:
         xs = xs + [xs[-1] + dxv[int((xs[-1] - x[0]) // step)]]
-    xs = (xs / np.max(xs) * SimBorders[1])
+    xs = fit(xs, SimBorders[0], SimBorders[1])
     ys = [SimBorders[2]]
     while ys[-1] < SimBorders[3]:
         ys = ys + [ys[-1] + dyv[int((ys[-1] - y[0]) // step)]]
-    ys = (ys / np.max(ys) * SimBorders[3])
+    ys = fit(ys, SimBorders[2], SimBorders[3])
     zs = [SimBorders[4]]
     while zs[-1] < SimBorders[5]:
         zs = zs + [zs[-1] + dzv[int((zs[-1] - z[0]) // step)]]
-    zs = (zs / np.max(zs) * SimBorders[5])
+    zs = fit(zs, SimBorders[4], SimBorders[5])
 
     # return results
     return xs, ys, zs
-- 
2.43.0


From 9a83044f1ea492dff30d94bb47d613ccfc74a211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:30 +0000
Subject: [PATCH 051/122] fix: iterative solvers converge to the requested
 relative tolerance for any source strength

---
 spins/fdfd_solvers/local_matrix_solvers.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/spins/fdfd_solvers/local_matrix_solvers.py b/spins/fdfd_solvers/local_matrix_solvers.py
index 7186b06..bab5cac 100644
--- a/spins/fdfd_solvers/local_matrix_solvers.py
+++ b/spins/fdfd_solvers/local_matrix_solvers.py
@@ -137,8 +137,7 @@ class QmrSolver(LocalMatrixSolver):
         self.relative_tol = relative_tol
 
     def solve_matrix_equation(self, A, b):
-        tol = self.relative_tol * np.linalg.norm(b)
-        x, info = scipy.sparse.linalg.qmr(A, b, tol=tol)
+        x, info = scipy.sparse.linalg.qmr(A, b, tol=self.relative_tol, atol=0)
         if info > 0:
             logger.error('Convergence tolerance not achieved.')
         elif info < 0:
@@ -158,8 +157,7 @@ class BiCgSolver(LocalMatrixSolver):
         self.relative_tol = relative_tol
 
     def solve_matrix_equation(self, A, b):
-        tol = self.relative_tol * np.linalg.norm(b)
-        x, info = scipy.sparse.linalg.bicg(A, b, tol=tol)
+        x, info = scipy.sparse.linalg.bicg(A, b, tol=self.relative_tol, atol=0)
         if info > 0:
             logger.error('Convergence tolerance not achieved.')
         elif info < 0:
-- 
2.43.0


From 0094ac05070a2992657622e8b26fbbc25983e7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:30 +0000
Subject: [PATCH 052/122] fix: a direct solve with PEC cells is not singular

---
 spins/fdfd_solvers/local_matrix_solvers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spins/fdfd_solvers/local_matrix_solvers.py b/spins/fdfd_solvers/local_matrix_solvers.py
index bab5cac..820197d 100644
--- a/spins/fdfd_solvers/local_matrix_solvers.py
+++ b/spins/fdfd_solvers/local_matrix_solvers.py
@@ -64,6 +64,12 @@ class LocalMatrixSolver:
             pmc=pmc,
             bloch_vec=bloch_vec)
 
+        if pec is not None:
+            # The wave operator is zero on the PEC cells. Let it be the identity
+            # there so that the fields in the PEC cells are zero.
+            A0 = A0 + scipy.sparse.diags(np.where(pec, 1, 0))
+            b0 = np.where(pec, 0, b0)
+
         Pl, Pr = operators.e_full_preconditioners(dxes)
 
         if adjoint:
-- 
2.43.0


From 7ba8f474091c7423e3b53bd223840b19b92a6582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:30 +0000
Subject: [PATCH 053/122] fix: the adjoint of a simulation with a
 complex-stretched grid solves the adjoint equation

---
 spins/invdes/problem/simulation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spins/invdes/problem/simulation.py b/spins/invdes/problem/simulation.py
index b384270..433ed70 100644
--- a/spins/invdes/problem/simulation.py
+++ b/spins/invdes/problem/simulation.py
@@ -202,7 +202,8 @@ class AdjointFdfdSimulation:
          From the fact that M is symmetric, we can write
           M* = (L A R)* = (L A R)' = R' A' L' = R* A' L*
          We obtain M* by conjugating the contents of sim (except sim.J).
-         We then multiply sim.J by (R* R*) = diag(1./s)*, obtaining
+         We then multiply sim.J by (R* R*) = diag(1./s) [s is already
+         conjugated in the code below], obtaining
           (R* A' L*) v = (L* (R* R* b))
                        = (R* b)
          and then fix the returned value v by multiplying by
@@ -235,7 +236,7 @@ class AdjointFdfdSimulation:
         new_J = np.copy(fdfd_tools.unvec(J, self.sim.dims))
 
         for k in range(3):
-            new_J[k] /= np.conj(s[k])
+            new_J[k] /= s[k]
         new_J = fdfd_tools.vec(new_J)
         mu = None
         if self.sim.mu is not None:
@@ -254,6 +255,6 @@ class AdjointFdfdSimulation:
         # Unvec to undo right pre-conditioner.
         efields = fdfd_tools.unvec(efields, self.sim.dims)
         for i in range(3):
-            efields[i] = np.multiply(efields[i], np.conj(s[i]))
+            efields[i] = np.multiply(efields[i], s[i])
         efields = fdfd_tools.vec(efields)
         return efields
-- 
2.43.0


From d420e52df0c785ebcca68941c312be5982db8ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:01 +0000
Subject: [PATCH 054/122] fix: simulation caches keep copies of the structures
 and fields

---
 spins/invdes/problem/simulation.py       | 10 ++++++----
 spins/invdes/problem_graph/creator_em.py | 11 +++++++----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/spins/invdes/problem/simulation.py b/spins/invdes/problem/simulation.py
index 433ed70..4e9822d 100644
--- a/spins/invdes/problem/simulation.py
+++ b/spins/invdes/problem/simulation.py
@@ -107,8 +107,9 @@ class FdfdSimulation:
                 # Remove the last used element.
                 del self.cache[0]
             # Insert data into cache.
-            self.cache.append((z, electric_fields))
-        return electric_fields
+            self.cache.append((np.array(z), electric_fields))
+        # The cache must not see what the caller does with the arrays.
+        return np.array(electric_fields)
 
     def _run_solver(self, z: np.ndarray) -> np.ndarray:
         """ Runs the solver to compute electric fields.
@@ -182,8 +183,9 @@ class AdjointFdfdSimulation:
                 # Remove the last used element.
                 del self.cache[0]
             # Insert data into cache.
-            self.cache.append((z, J, electric_fields))
-        return electric_fields
+            self.cache.append((np.array(z), np.array(J), electric_fields))
+        # The cache must not see what the caller does with the arrays.
+        return np.array(electric_fields)
 
     def _run_solver(self, z: np.ndarray, J: np.ndarray) -> np.ndarray:
         """ Runs the solver to compute electric fields.
diff --git a/spins/invdes/problem_graph/creator_em.py b/spins/invdes/problem_graph/creator_em.py
index cfbd252..eb7bd3e 100644
--- a/spins/invdes/problem_graph/creator_em.py
+++ b/spins/invdes/problem_graph/creator_em.py
@@ -375,8 +375,9 @@ class FdfdSimulation(problem.OptimizationFunction):
             del self._cache[0]
 
         # Insert data into cache.
-        self._cache.append((eps, electric_fields))
-        return electric_fields
+        self._cache.append((np.array(eps), electric_fields))
+        # The cache must not see what the caller does with the arrays.
+        return np.array(electric_fields)
 
     def _simulate_adjoint(self, eps: np.ndarray,
                           source: np.ndarray) -> np.ndarray:
@@ -423,9 +424,11 @@ class FdfdSimulation(problem.OptimizationFunction):
             del self._cache_adjoint[0]
 
         # Insert data into cache.
-        self._cache_adjoint.append((eps, source, electric_fields))
+        self._cache_adjoint.append(
+            (np.array(eps), np.array(source), electric_fields))
 
-        return electric_fields
+        # The cache must not see what the caller does with the arrays.
+        return np.array(electric_fields)
 
     def __str__(self):
         return "Simulation({})".format(self._wlen)
-- 
2.43.0


From 31ab04627183fafa6a0ac4f4c0da1717a4c5bd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:01 +0000
Subject: [PATCH 055/122] fix: the gradient of a goos simulation uses the
 fields of the structure it is asked for

---
 spins/goos_sim/maxwell/simulate.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/spins/goos_sim/maxwell/simulate.py b/spins/goos_sim/maxwell/simulate.py
index c818a92..3c8a5d0 100644
--- a/spins/goos_sim/maxwell/simulate.py
+++ b/spins/goos_sim/maxwell/simulate.py
@@ -500,8 +500,20 @@ class SimulateNode(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
         Returns:
             Simulated fields.
         """
-        if self._last_eps is None or self._last_eps != input_vals[0]:
-            eps = input_vals[0].array
+        sim = self._simulate(input_vals[0])
+        return goos.ArrayFlow([out.eval(sim) for out in self._outputs])
+
+    def _simulate(self, eps_flow: goos.NumericFlow) -> FdfdSimProp:
+        """Runs the simulation unless it is the last simulation that was run.
+
+        Args:
+            eps_flow: Permittivity distribution.
+
+        Returns:
+            The properties of the simulation, including the simulated fields.
+        """
+        if self._last_eps is None or self._last_eps != eps_flow:
+            eps = np.array(eps_flow.array)
             sim = FdfdSimProp(eps=eps,
                               source=np.zeros_like(eps),
                               wlen=self._wlen,
@@ -531,11 +543,10 @@ class SimulateNode(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
             fields = fdfd_tools.unvec(fields, eps[0].shape)
             sim.fields = np.stack(fields, axis=0)
 
-            self._last_eps = input_vals[0]
+            self._last_eps = copy.deepcopy(eps_flow)
             self._last_results = sim
 
-        return goos.ArrayFlow(
-            [out.eval(self._last_results) for out in self._outputs])
+        return self._last_results
 
     def grad(self, input_vals: List[goos.Flow],
              grad_val: goos.ArrayFlow.Grad) -> List[goos.Flow.Grad]:
@@ -567,7 +578,8 @@ class SimulateNode(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
         adjoint_fields = np.stack(fdfd_tools.unvec(adjoint_fields,
                                                    eps[0].shape),
                                   axis=0)
-        grad = -1j * omega * np.conj(adjoint_fields) * self._last_results.fields
+        fields = self._simulate(input_vals[0]).fields
+        grad = -1j * omega * np.conj(adjoint_fields) * fields
 
         if np.isrealobj(eps):
             grad = 2 * np.real(grad)
-- 
2.43.0


From 44493f08edb80c2b54cb8b3a6134d943207345e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:01 +0000
Subject: [PATCH 056/122] fix: outputs of a goos simulation are independent of
 the simulation cache

---
 spins/goos_sim/maxwell/simulate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/goos_sim/maxwell/simulate.py b/spins/goos_sim/maxwell/simulate.py
index 3c8a5d0..2b7049b 100644
--- a/spins/goos_sim/maxwell/simulate.py
+++ b/spins/goos_sim/maxwell/simulate.py
@@ -250,7 +250,7 @@ class Epsilon(SimOutput):
 class EpsilonImpl(SimOutputImpl):
 
     def eval(self, sim: FdfdSimProp) -> goos.NumericFlow:
-        return goos.NumericFlow(sim.eps)
+        return goos.NumericFlow(np.array(sim.eps))
 
 
 @goos.polymorphic_model()
@@ -277,7 +277,7 @@ class ElectricFieldImpl(SimOutputImpl):
             A `NumericFlow` where the ith entry of the array corresponds to
             electric field component i (e.g. 0th entry is Ex).
         """
-        return goos.NumericFlow(sim.fields)
+        return goos.NumericFlow(np.array(sim.fields))
 
 
 @goos.polymorphic_model()
-- 
2.43.0


From a8a923524165d6b654ff94ca022f9dd32bd80446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:01 +0000
Subject: [PATCH 057/122] fix: a goos simulation can have overlaps that are not
 part of the objective

---
 spins/goos_sim/maxwell/simulate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spins/goos_sim/maxwell/simulate.py b/spins/goos_sim/maxwell/simulate.py
index 2b7049b..defb08d 100644
--- a/spins/goos_sim/maxwell/simulate.py
+++ b/spins/goos_sim/maxwell/simulate.py
@@ -338,6 +338,9 @@ class WaveguideModeOverlapImpl(SimOutputImpl):
 
     def before_adjoint_sim(self, adjoint_sim: FdfdSimProp,
                            grad_val: goos.NumericFlow.Grad) -> None:
+        # The gradient is `None` if the output is not part of the objective.
+        if grad_val is None:
+            return
         adjoint_sim.source += np.conj(grad_val.array_grad * self._wg_overlap)
 
 
-- 
2.43.0


From e07a86d244b115edac5636435d7687c98513f8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:01 +0000
Subject: [PATCH 058/122] fix: gradient of the overlap objective has the right
 sign for odd powers

---
 spins/invdes/problem/emobjective.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spins/invdes/problem/emobjective.py b/spins/invdes/problem/emobjective.py
index 797e524..1832503 100644
--- a/spins/invdes/problem/emobjective.py
+++ b/spins/invdes/problem/emobjective.py
@@ -269,12 +269,12 @@ class BasicOverlapObjective(EmObjective):
         Cx = np.array(C.H.dot(x))
         overlap = np.abs(Cx)
 
-        f0 = ((overlap < alpha) * (overlap - alpha) +
-              (beta < overlap) * (beta - overlap))
+        f0 = ((overlap < alpha) * (alpha - overlap) +
+              (beta < overlap) * (overlap - beta))
 
         df0_viol_dx = scipy.sparse.diags(
-            (1 * (overlap < alpha) - 1 *
-             (beta < overlap)) * 0.5 * np.conj(Cx) / overlap) @ C.H
+            (1 * (beta < overlap) - 1 *
+             (overlap < alpha)) * 0.5 * np.conj(Cx) / overlap) @ C.H
 
         df_viol_dx = (
             pf * scipy.sparse.diags(f0**(pf - 1)) * df0_viol_dx).sum(axis=0)
-- 
2.43.0


From b31ed90a747a0a814c35cb380c0f0b5260cc46dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:22 +0000
Subject: [PATCH 059/122] fix: sources are complex also if the permittivity is
 real

---
 spins/fdfd_solvers/dipole.py       | 2 +-
 spins/goos_sim/maxwell/simulate.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spins/fdfd_solvers/dipole.py b/spins/fdfd_solvers/dipole.py
index 655dfe6..d8d42d6 100644
--- a/spins/fdfd_solvers/dipole.py
+++ b/spins/fdfd_solvers/dipole.py
@@ -29,7 +29,7 @@ def build_dipole_source(omega: complex, dxes: List[np.ndarray],
     # The 0.0266 constant is an empirically determined constant.
     j_norm = np.sqrt(power) / np.sqrt(0.02661928208866846 * (omega**2 * dx**3))
 
-    J = np.zeros_like(eps)
+    J = np.zeros_like(eps, dtype=complex)
     J[int(axis)][tuple(position)] = 1 / eps_source * j_norm * phase / abs(phase)
 
     return J
diff --git a/spins/goos_sim/maxwell/simulate.py b/spins/goos_sim/maxwell/simulate.py
index defb08d..9ef6ef7 100644
--- a/spins/goos_sim/maxwell/simulate.py
+++ b/spins/goos_sim/maxwell/simulate.py
@@ -518,7 +518,7 @@ class SimulateNode(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
         if self._last_eps is None or self._last_eps != eps_flow:
             eps = np.array(eps_flow.array)
             sim = FdfdSimProp(eps=eps,
-                              source=np.zeros_like(eps),
+                              source=np.zeros_like(eps, dtype=complex),
                               wlen=self._wlen,
                               dxes=self._dxes,
                               pml_layers=self._pml_layers,
@@ -555,7 +555,7 @@ class SimulateNode(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
              grad_val: goos.ArrayFlow.Grad) -> List[goos.Flow.Grad]:
         eps = input_vals[0].array
         sim = FdfdSimProp(eps=eps,
-                          source=np.zeros_like(eps),
+                          source=np.zeros_like(eps, dtype=complex),
                           wlen=self._wlen,
                           dxes=self._dxes,
                           pml_layers=self._pml_layers,
-- 
2.43.0


From e8e89ca50a0616a22e11bbb07974d0ce196078e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:10 +0000
Subject: [PATCH 060/122] fix: multiplying an objective with an array is a
 product, not a sum

---
 spins/invdes/problem/objective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index 028924a..17513bd 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -147,7 +147,7 @@ class OptimizationFunction(metaclass=abc.ABCMeta):
         if isinstance(obj, numbers.Number):
             return Product([self, Constant(obj)], parallelize=False)
         if isinstance(obj, np.ndarray):
-            return Sum([self, Constant(obj)], parallelize=False)
+            return Product([self, Constant(obj)], parallelize=False)
         if isinstance(obj, OptimizationFunction):
             return Product([self, obj])
         raise TypeError("Attempting to add unknown object to objective")
-- 
2.43.0


From dd4f8dcbd7b52d07a23698b82de93bfce8b19dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:10 +0000
Subject: [PATCH 061/122] fix: an array to the left of an objective makes a
 single objective

---
 spins/invdes/problem/objective.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index 17513bd..d669cfd 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -39,6 +39,10 @@ class OptimizationFunction(metaclass=abc.ABCMeta):
     function.
     """
 
+    # Let `array + obj` and `array * obj` use `__radd__` and `__rmul__` of this
+    # class instead of producing an array of functions.
+    __array_ufunc__ = None
+
     def __init__(self,
                  inputs: Union["OptimizationFunction", List[
                      "OptimizationFunction"]] = None,
-- 
2.43.0


From 4154a160f82d335488cebd37ba88ab2450beb160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:10 +0000
Subject: [PATCH 062/122] fix: sums and products of objectives with different
 shapes and types

---
 spins/invdes/problem/objective.py | 34 ++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index d669cfd..e569861 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -179,6 +179,28 @@ class OptimizationFunction(metaclass=abc.ABCMeta):
         return -1 * self
 
 
+def _reduce_grad(grad: np.ndarray, in_val: np.ndarray) -> np.ndarray:
+    """Reduces the gradient of a broadcasted value to the shape of an input.
+
+    Args:
+        grad: Gradient with respect to the broadcasted value.
+        in_val: Value of the input before being broadcasted.
+
+    Returns:
+        Gradient summed over the dimensions that were added or stretched.
+    """
+    in_shape = np.shape(in_val)
+    extra = np.ndim(grad) - len(in_shape)
+    if extra > 0:
+        grad = np.sum(grad, axis=tuple(range(extra)))
+    if np.ndim(grad) == len(in_shape):
+        axes = tuple(i for i, dim in enumerate(in_shape)
+                     if dim == 1 and np.shape(grad)[i] != 1)
+        if axes:
+            grad = np.sum(grad, axis=axes, keepdims=True)
+    return grad
+
+
 def calculate_objective_parallel(objs: List[OptimizationFunction],
                                  param: Parametrization) -> List[float]:
     """Calculates the objective functions in parallel.
@@ -537,7 +559,7 @@ class Sum(OptimizationFunction):
 
     def grad(self, input_vals: List[np.ndarray],
              grad_val: np.ndarray) -> List[np.ndarray]:
-        return [grad_val] * len(input_vals)
+        return [_reduce_grad(grad_val, val) for val in input_vals]
 
     def __add__(self, obj):
         if isinstance(obj, Sum):
@@ -584,7 +606,8 @@ class Product(OptimizationFunction):
     def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
         total = 1.0
         for obj in input_vals:
-            total *= obj
+            # Not in-place because the product can have another type or shape.
+            total = total * obj
         return total
 
     def grad(self, input_vals: List[np.ndarray],
@@ -592,9 +615,10 @@ class Product(OptimizationFunction):
         grads = []
         for i in range(len(input_vals)):
             # Calculate product of everything except ith objective value.
-            prod_before = np.prod(input_vals[:i], axis=0)
-            prod_after = np.prod(input_vals[i + 1:], axis=0)
-            grads.append(prod_before * prod_after * grad_val)
+            prod = grad_val
+            for val in input_vals[:i] + input_vals[i + 1:]:
+                prod = prod * val
+            grads.append(_reduce_grad(prod, input_vals[i]))
         return grads
 
     def __mul__(self, obj):
-- 
2.43.0


From 71e86e038b812a4ebb641ccbe012f568deab3bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:10 +0000
Subject: [PATCH 063/122] fix: constant objectives copy their value and can be
 raised to a constant

---
 spins/invdes/problem/objective.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index e569861..5836a45 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -7,6 +7,7 @@ objectives.
 """
 
 import abc
+import copy
 import concurrent.futures
 import numbers
 from typing import List, Union
@@ -403,7 +404,7 @@ class Constant(OptimizationFunction):
         """
         super().__init__([])
 
-        self.value = value
+        self.value = copy.copy(value)
         self.value_shape = np.array(self.value).shape
 
     def calculate_objective_function(self, param: Parametrization) -> float:
@@ -446,6 +447,8 @@ class Constant(OptimizationFunction):
         return Constant(-self.value)
 
     def __pow__(self, obj):
+        if isinstance(obj, Constant):
+            obj = obj.value
         return Constant(self.value**obj)
 
     def __str__(self):
-- 
2.43.0


From 14e7774147707d41c708df9ea9db59eb39828296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:10 +0000
Subject: [PATCH 064/122] fix: gradient of the absolute value is finite at zero

---
 spins/invdes/problem/objective.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index 5836a45..36e0a4c 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -697,7 +697,9 @@ class AbsoluteValue(OptimizationFunction):
 
     def grad(self, input_vals: List[np.ndarray],
              grad_val: np.ndarray) -> List[np.ndarray]:
-        grad = np.conj(input_vals[0]) / abs(input_vals[0])
+        # Zero is a subgradient where the input vanishes.
+        abs_val = abs(input_vals[0])
+        grad = np.conj(input_vals[0]) / np.where(abs_val == 0, 1, abs_val)
         return [grad_val * grad]
 
     def __str__(self):
-- 
2.43.0


From 5eb00d3bba32d94b30934b473220a6db90d0a301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:10 +0000
Subject: [PATCH 065/122] fix: invdes executor handles heavy functions that
 depend on heavy functions

---
 spins/invdes/problem/graph_executor.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem/graph_executor.py b/spins/invdes/problem/graph_executor.py
index f214d71..eccfc3f 100644
--- a/spins/invdes/problem/graph_executor.py
+++ b/spins/invdes/problem/graph_executor.py
@@ -158,7 +158,10 @@ def _eval_fun_vals(fun_vals: Dict[NodeId, np.ndarray], fun_map: FunctionMap,
             # would be silently ignored.
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                # A heavy node that depends on another heavy node of the block
+                # has to wait for the next block.
+                while (_is_heavy_fun(fun_map[node]) and
+                       all(in_node in fun_vals for in_node in graph[node])):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
@@ -285,10 +288,15 @@ def eval_grad(fun: "OptimizationFunction",
             # At this point, we have processed all the possible nodes.
             # We now parallelize the computation of the `heavy_compute_nodes`.
             heavy_node_block = []
+            # Inputs of the nodes in the block: their gradients are not
+            # complete until the block has been processed.
+            heavy_node_inputs = set()
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                while (_is_heavy_fun(fun_map[node]) and
+                       node not in heavy_node_inputs):
                     heavy_node_block.append(node)
+                    heavy_node_inputs.update(graph[node])
                     node = next(node_iter)
             except StopIteration:
                 last_node_reached = True
-- 
2.43.0


From df57c773e7d81ed59880bd9f1e955562422332a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:10 +0000
Subject: [PATCH 066/122] fix: gradients of real and complex branches of an
 objective add up

---
 spins/invdes/problem/graph_executor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spins/invdes/problem/graph_executor.py b/spins/invdes/problem/graph_executor.py
index eccfc3f..0700de2 100644
--- a/spins/invdes/problem/graph_executor.py
+++ b/spins/invdes/problem/graph_executor.py
@@ -278,10 +278,11 @@ def eval_grad(fun: "OptimizationFunction",
                     node_grad_vals = fun_map[node].grad(input_vals,
                                                         grad_vals[node])
 
-                    # Update the gradient values.
+                    # Update the gradient values. This is not done in-place
+                    # because the sum can have another type or shape.
                     for next_node, next_fun_grad in zip(graph[node],
                                                         node_grad_vals):
-                        grad_vals[next_node] += next_fun_grad
+                        grad_vals[next_node] = grad_vals[next_node] + next_fun_grad
 
                 node = next(node_iter)
 
@@ -316,7 +317,7 @@ def eval_grad(fun: "OptimizationFunction",
             for node_, node_grad_vals in zip(heavy_node_block, heavy_node_vals):
                 for next_node, next_fun_grad in zip(graph[node_],
                                                     node_grad_vals):
-                    grad_vals[next_node] += next_fun_grad
+                    grad_vals[next_node] = grad_vals[next_node] + next_fun_grad
 
             if last_node_reached:
                 break
-- 
2.43.0


From c360a8d10240b8b6c905f83ce904d5362832d7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:10 +0000
Subject: [PATCH 067/122] fix: gradient of an objective without variables is a
 vector of zeros

---
 spins/invdes/problem/graph_executor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spins/invdes/problem/graph_executor.py b/spins/invdes/problem/graph_executor.py
index 0700de2..290692c 100644
--- a/spins/invdes/problem/graph_executor.py
+++ b/spins/invdes/problem/graph_executor.py
@@ -332,6 +332,9 @@ def eval_grad(fun: "OptimizationFunction",
         total_grads += [
             np.array(grad_vals[in_node]) @ param.calculate_gradient()
         ]
+    if not total_grads:
+        # The function does not depend on the parametrization.
+        return np.zeros(len(param.to_vector()))
     return np.sum(total_grads, axis=0)
 
 
-- 
2.43.0


From 773c56498a108cbb6a56fe6d56de6dcc7f1fe7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:10 +0000
Subject: [PATCH 068/122] fix: gradient of the permittivity fit is the
 derivative of its value

---
 spins/invdes/problem/structure_objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem/structure_objectives.py b/spins/invdes/problem/structure_objectives.py
index 9ce0e86..703ab26 100644
--- a/spins/invdes/problem/structure_objectives.py
+++ b/spins/invdes/problem/structure_objectives.py
@@ -29,7 +29,7 @@ class Fit2Eps(OptimizationFunction):
         z = param.get_structure()
         err = self.eps_bg + self.S @ z - self.eps
         return np.asfortranarray(
-            np.real(np.conj(err) @ self.S @ param.calculate_gradient()))
+            2 * np.real(np.conj(err) @ self.S @ param.calculate_gradient()))
 
     def __str__(self) -> str:
         return 'fit2eps()'
-- 
2.43.0


From cce942844de8647a67a76873e6bf02c07424dada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:03 +0000
Subject: [PATCH 069/122] fix: gradient of a real objective that involves
 complex constants is real

---
 spins/invdes/problem/objective.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index 36e0a4c..8de4352 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -188,7 +188,8 @@ def _reduce_grad(grad: np.ndarray, in_val: np.ndarray) -> np.ndarray:
         in_val: Value of the input before being broadcasted.
 
     Returns:
-        Gradient summed over the dimensions that were added or stretched.
+        Gradient summed over the dimensions that were added or stretched. It is
+        real if the input is real.
     """
     in_shape = np.shape(in_val)
     extra = np.ndim(grad) - len(in_shape)
@@ -199,6 +200,9 @@ def _reduce_grad(grad: np.ndarray, in_val: np.ndarray) -> np.ndarray:
                      if dim == 1 and np.shape(grad)[i] != 1)
         if axes:
             grad = np.sum(grad, axis=axes, keepdims=True)
+    # A real input can be combined with complex ones (see `AbsoluteValue`).
+    if np.isrealobj(in_val):
+        grad = np.real(grad)
     return grad
 
 
-- 
2.43.0


From ce08adf93bc349fb99f4660d61277660a7c54610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:48 +0000
Subject: [PATCH 070/122] fix: empty lists in an optplan survive serialization

---
 spins/invdes/problem_graph/schema_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem_graph/schema_utils.py b/spins/invdes/problem_graph/schema_utils.py
index a1023bf..6efdf6c 100644
--- a/spins/invdes/problem_graph/schema_utils.py
+++ b/spins/invdes/problem_graph/schema_utils.py
@@ -3,6 +3,7 @@ import copy
 from typing import List, Optional, Tuple, Union
 import warnings
 
+from schematics import common
 from schematics import models
 from schematics import types
 
@@ -191,5 +192,6 @@ class Model(KwargsModelMixin, models.Model, CopyModelMixin):
     """Defines a copyable model that can be inherited."""
 
     class Options:
-        # Leave out any fields set to `None` during serialization.
-        serialize_when_none = False
+        # Leave out any fields set to `None` during serialization (but keep
+        # empty lists, unlike `serialize_when_none`).
+        export_level = common.NOT_NONE
-- 
2.43.0


From 44192718fe7abb2733e170be57b3d67cc2e5e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:48 +0000
Subject: [PATCH 071/122] fix: optplan versions above 0.2.3 are accepted
 regardless of their last parts

---
 spins/invdes/problem_graph/optplan/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem_graph/optplan/io.py b/spins/invdes/problem_graph/optplan/io.py
index 261dff3..9ee7b2a 100644
--- a/spins/invdes/problem_graph/optplan/io.py
+++ b/spins/invdes/problem_graph/optplan/io.py
@@ -286,9 +286,9 @@ def _validate_optplan_version(version: str) -> None:
         ValueError: On incompatible version.
     """
     version_parts = [int(part) for part in version.split(".")]
-    if version_parts[0] < 0 or version_parts[1] < 2 or version_parts[2] < 3:
+    if version_parts < [0, 2, 3]:
         raise ValueError(
-            "Optplan must be at least version 0.2.1, got {}".format(version))
+            "Optplan must be at least version 0.2.3, got {}".format(version))
 
 
 def loads(serialized_plan: str) -> optplan.OptimizationPlan:
-- 
2.43.0


From 6a14fc1ff3b41f6b41858e341149b2688dd6e06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:49 +0000
Subject: [PATCH 072/122] fix: a plan without nodes can be loaded

---
 spins/invdes/problem_graph/optplan/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/optplan/io.py b/spins/invdes/problem_graph/optplan/io.py
index 9ee7b2a..47255a6 100644
--- a/spins/invdes/problem_graph/optplan/io.py
+++ b/spins/invdes/problem_graph/optplan/io.py
@@ -247,7 +247,7 @@ def validate(plan: optplan.OptimizationPlan) -> None:
 
     # Check for non-unique nodes.
     names = set()
-    for node in plan.nodes:
+    for node in plan.nodes or []:
         if node.name in names:
             raise ValueError("Nonunique name found: {}".format(node.name))
         names.add(node.name)
@@ -306,6 +306,8 @@ def loads(serialized_plan: str) -> optplan.OptimizationPlan:
 
     # Unpack the optimization plan.
     # First create a dictionary mapping strings to the node.
+    if not plan.nodes:
+        plan.nodes = []
     node_map = {}
     for node in plan.nodes:
         node_map[node.name] = node
-- 
2.43.0


From b898eacefd1bdee95d0f97544a149cae3fe38faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:49 +0000
Subject: [PATCH 073/122] fix: a number can be divided by an optplan function

---
 spins/invdes/problem_graph/optplan/optplan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/optplan/optplan.py b/spins/invdes/problem_graph/optplan/optplan.py
index ebc1f3d..f6536d6 100644
--- a/spins/invdes/problem_graph/optplan/optplan.py
+++ b/spins/invdes/problem_graph/optplan/optplan.py
@@ -219,7 +219,7 @@ class Function(ProblemGraphNode):
     def __rsub__(self, obj) -> "optplan.Sum":
         return -self + obj
 
-    def __rdiv__(self, obj) -> "optplan.Product":
+    def __rtruediv__(self, obj) -> "optplan.Product":
         return self**(-1) * obj
 
 
-- 
2.43.0


From ca4e048b09dbced37805eea89d12c611509b9080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:49 +0000
Subject: [PATCH 074/122] fix: a workspace can be created in current versions
 of Python

---
 spins/invdes/problem_graph/workspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem_graph/workspace.py b/spins/invdes/problem_graph/workspace.py
index 989b91b..ad1fe2c 100644
--- a/spins/invdes/problem_graph/workspace.py
+++ b/spins/invdes/problem_graph/workspace.py
@@ -4,7 +4,7 @@ The workspace has the following responsibilities:
     1) Creating and caching problem graph node objects.
     2) Handling execution of transformations.
 """
-import collections
+import collections.abc
 from datetime import datetime
 import glob
 import logging
@@ -56,7 +56,7 @@ class Workspace:
         # TODO(logansu): Accept argument-less variable.
         self._objects[VARIABLE_NODE] = problem.Variable(1)
 
-        if isinstance(nodes, collections.Iterable):
+        if isinstance(nodes, collections.abc.Iterable):
             for node in nodes:
                 self._add_node(node)
         elif nodes:
-- 
2.43.0


From de8875a155c3772e3f8dfcd9d7672136bef638cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:36 +0000
Subject: [PATCH 075/122] fix: invdes log and checkpoint files are complete if
 they exist

A run that was stopped while a file was being written left a file that could not
be read, and the plan could not be resumed.
---
 spins/invdes/problem_graph/workspace.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/spins/invdes/problem_graph/workspace.py b/spins/invdes/problem_graph/workspace.py
index ad1fe2c..535100e 100644
--- a/spins/invdes/problem_graph/workspace.py
+++ b/spins/invdes/problem_graph/workspace.py
@@ -250,6 +250,14 @@ def _set_parameters(work: workspace.Workspace,
             parameter.set_parameter_value(function_value)
 
 
+def _write_pickle(data: Dict, file_path: str) -> None:
+    """Writes a pickle file such that the file is complete if it exists."""
+    tmp_path = file_path + ".tmp"
+    with open(tmp_path, "wb") as handle:
+        pickle.dump(data, handle)
+    os.replace(tmp_path, file_path)
+
+
 class Logger:
     """Handles logging for transformations.
 
@@ -321,8 +329,7 @@ class Logger:
 
         # Save the data.
         file_path = os.path.join(self._path, checkpoint_file)
-        with open(file_path, "wb") as handle:
-            pickle.dump(data, handle)
+        _write_pickle(data, file_path)
 
     def write(self,
               event: Dict,
@@ -371,8 +378,7 @@ class Logger:
         # Save the data.
         file_path = os.path.join(
             self._path, os.path.join("step{}.pkl".format(self._log_counter)))
-        with open(file_path, "wb") as handle:
-            pickle.dump(data, handle)
+        _write_pickle(data, file_path)
 
 
 def get_latest_log_step(folder: str) -> int:
-- 
2.43.0


From efd3101bd6609ff2918649ac51c67ec48e07b165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:36 +0000
Subject: [PATCH 076/122] fix: resuming a plan restores all parametrizations
 and parameters on record

Parametrizations that were not the subject of an earlier transformation were not
restored, and parameters that are never set led to a KeyError.
---
 spins/invdes/problem_graph/solver.py | 36 ++++++++++++++++------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/spins/invdes/problem_graph/solver.py b/spins/invdes/problem_graph/solver.py
index e4ed8cc..4331b32 100644
--- a/spins/invdes/problem_graph/solver.py
+++ b/spins/invdes/problem_graph/solver.py
@@ -120,6 +120,8 @@ def restore_workspace(plan: optplan.OptimizationPlan, work: workspace.Workspace,
                              "{}.chkpt.pkl".format(transform.name))):
             transform_index = i + 1
 
+    nodes = _get_nodes(plan)
+
     # Load the checkpoint data.
     # If `transform_index` is zero, this means that there is no previous
     # checkpoint so we're on the first transformation in the plan and
@@ -133,23 +135,13 @@ def restore_workspace(plan: optplan.OptimizationPlan, work: workspace.Workspace,
         with open(chkpt_file, "rb") as fp:
             chkpt_data = pickle.load(fp)
 
-        # Iterate through all the previous transformations, restoring any
-        # parametrizations and parameters along the way. It is not strictly
-        # necessary to restore parametrizations/parameters along the way,
-        # but it was done out of implementation convenience.
-        for transform in plan.transformations[:transform_index]:
-            # Restore any parametrizations.
-            work.get_object(transform.parametrization).deserialize(
-                chkpt_data["parametrizations"][transform.parametrization.name])
-
-            # Add any parameter descriptions. Actual values restored below.
-            if transform.parameter_list:
-                for set_param in transform.parameter_list:
-                    work._add_node(set_param.parameter)
+        # Restore all parametrizations.
+        for name, data in chkpt_data["parametrizations"].items():
+            work.get_object(nodes[name]).deserialize(data)
 
         # Now restore all parameter values.
-        for param, param_value in chkpt_data["parameters"].items():
-            work.get_object(param).set_parameter_value(param_value)
+        for name, value in chkpt_data["parameters"].items():
+            work.get_object(nodes[name]).set_parameter_value(value)
 
     if transform_index >= len(plan.transformations):
         # Optimization plan is complete already.
@@ -183,6 +175,20 @@ def restore_workspace(plan: optplan.OptimizationPlan, work: workspace.Workspace,
     return transform_index, event_data
 
 
+def _get_nodes(
+        plan: optplan.OptimizationPlan) -> Dict[str, optplan.ProblemGraphNode]:
+    """Returns all the nodes used by the transformations of a plan by name."""
+    nodes = {}
+
+    def process_field(unused_parent, child):
+        nodes[child.name] = child
+
+    # TODO(logansu): Deal with this private import.
+    from spins.invdes.problem_graph.optplan.io import _iter_optplan_fields
+    _iter_optplan_fields(plan, set(), process_field)
+    return nodes
+
+
 def setup_logging(save_folder: str) -> None:
     """Setup logging.
 
-- 
2.43.0


From 8ef1c29005189947ddc30a88ff048f669bbe903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:36 +0000
Subject: [PATCH 077/122] fix: resuming in the middle of a transformation
 restores the parameters

---
 spins/invdes/problem_graph/solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/solver.py b/spins/invdes/problem_graph/solver.py
index 4331b32..12fa3a8 100644
--- a/spins/invdes/problem_graph/solver.py
+++ b/spins/invdes/problem_graph/solver.py
@@ -163,10 +163,12 @@ def restore_workspace(plan: optplan.OptimizationPlan, work: workspace.Workspace,
 
     if log_data["transformation"] == plan.transformations[transform_index].name:
         # The log file is in the next transformation so restore the
-        # current parametrization value.
+        # current parametrization value and the parameters.
         work.get_object(
             plan.transformations[transform_index].parametrization).deserialize(
                 log_data["parametrization"])
+        for name, value in log_data["parameters"].items():
+            work.get_object(nodes[name]).set_parameter_value(value)
         event_data = log_data["event"]
 
     # TODO(logansu): Remove hack.
-- 
2.43.0


From 93c5c238fab7166703399b2ecdb9e1b7431e82ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:36 +0000
Subject: [PATCH 078/122] fix: optimizer options of an optplan may be missing
 or zero

Options that are zero were ignored, the plan was modified, and a transformation
without options failed.
---
 spins/invdes/problem_graph/creator_opt.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/spins/invdes/problem_graph/creator_opt.py b/spins/invdes/problem_graph/creator_opt.py
index bafe7ac..1187bae 100644
--- a/spins/invdes/problem_graph/creator_opt.py
+++ b/spins/invdes/problem_graph/creator_opt.py
@@ -46,9 +46,11 @@ class ScipyOptimizer:
         if optimization_options is None:
             optimization_options = {}
         else:
-            for key, value in optimization_options.items():
-                if not value:
-                    del optimization_options[key]
+            optimization_options = {
+                key: value
+                for key, value in optimization_options.to_native().items()
+                if value is not None
+            }
         self.optimization_options = optimization_options
         self.monitor_lists = monitor_lists
         if not self.monitor_lists:
@@ -139,7 +141,7 @@ class ScipyOptimizer:
                 monitor_list=self.monitor_lists.callback_monitors)
 
         # Run optimization.
-        opt_options = self.optimization_options.to_native()
+        opt_options = dict(self.optimization_options)
         # If restoring, decrease maximum number of iterations based on
         # number of iterations already performed.
         if "maxiter" in opt_options:
@@ -247,9 +249,11 @@ class PenaltyOptimizer:
         if optimization_options is None:
             optimization_options = {}
         else:
-            for key, value in optimization_options.items():
-                if not value:
-                    del optimization_options[key]
+            optimization_options = {
+                key: value
+                for key, value in optimization_options.to_native().items()
+                if value is not None
+            }
         self.optimization_options = optimization_options
         self.monitor_lists = monitor_lists
         if not self.monitor_lists:
-- 
2.43.0


From 3f2affd5132ea3efd4087324ba8f06f2fdabc52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:36 +0000
Subject: [PATCH 079/122] fix: resuming an optimization does not exceed the
 maximum number of iterations

---
 spins/invdes/problem_graph/creator_opt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spins/invdes/problem_graph/creator_opt.py b/spins/invdes/problem_graph/creator_opt.py
index 1187bae..6460360 100644
--- a/spins/invdes/problem_graph/creator_opt.py
+++ b/spins/invdes/problem_graph/creator_opt.py
@@ -146,6 +146,9 @@ class ScipyOptimizer:
         # number of iterations already performed.
         if "maxiter" in opt_options:
             opt_options["maxiter"] -= iteration
+            # Scipy optimizers run at least one iteration.
+            if opt_options["maxiter"] <= 0:
+                return
 
         scipy_optimizer = optim.ScipyOptimizer(
             method=self.optimizer, options=opt_options)
-- 
2.43.0


From b87fa55bbf0fbfbb9aa67e8162b852e7f540f750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:36 +0000
Subject: [PATCH 080/122] fix: invdes optimizer callback sees the current
 parametrization

Trial points of the minimizer that were not accepted could be logged.
---
 spins/invdes/optimization/scipy_optimizer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/optimization/scipy_optimizer.py b/spins/invdes/optimization/scipy_optimizer.py
index 94dd2a7..290d874 100644
--- a/spins/invdes/optimization/scipy_optimizer.py
+++ b/spins/invdes/optimization/scipy_optimizer.py
@@ -123,6 +123,15 @@ class ScipyOptimizer:
               len(opt.get_inequality_constraints()) > 0):
             logger.warning('Ignoring constraints...')
 
+        # The last evaluation is not necessarily at the current iterate, so
+        # update the parametrization before calling the callback.
+        iter_callback = None
+        if callback:
+
+            def iter_callback(x, *args):
+                param.from_vector(x)
+                return callback(x, *args)
+
         self.results = scipy.optimize.minimize(
             func,
             param.to_vector(),
@@ -130,7 +139,7 @@ class ScipyOptimizer:
             tol=self.tol,
             method=self.method,
             options=self.options,
-            callback=callback,
+            callback=iter_callback,
             constraints=constraints,
             bounds=bounds)
         param.from_vector(self.results['x'])
-- 
2.43.0


From e013d83402d95d711bcb99ef7ebd80449f839700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:43 +0000
Subject: [PATCH 081/122] fix: invdes optimizer passes on every constraint

The last equality and the last inequality constraint were used in place of all
the other ones.
---
 spins/invdes/optimization/scipy_optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spins/invdes/optimization/scipy_optimizer.py b/spins/invdes/optimization/scipy_optimizer.py
index 290d874..8a16aa7 100644
--- a/spins/invdes/optimization/scipy_optimizer.py
+++ b/spins/invdes/optimization/scipy_optimizer.py
@@ -87,11 +87,11 @@ class ScipyOptimizer:
             constraints = []
             for eq in opt.get_equality_constraints():
 
-                def cons_fun(x):
+                def cons_fun(x, eq=eq):
                     param.from_vector(x)
                     return eq.calculate_objective_function(param)
 
-                def cons_jac(x):
+                def cons_jac(x, eq=eq):
                     param.from_vector(x)
                     return eq.calculate_gradient(param)
 
@@ -103,11 +103,11 @@ class ScipyOptimizer:
             for ineq in opt.get_inequality_constraints():
                 # Note the negative sign because of opposite convention
                 # for inequalities (f >= 0 vs f <= 0).
-                def cons_fun(x):
+                def cons_fun(x, ineq=ineq):
                     param.from_vector(x)
                     return -ineq.calculate_objective_function(param)
 
-                def cons_jac(x):
+                def cons_jac(x, ineq=ineq):
                     param.from_vector(x)
                     return -ineq.calculate_gradient(param)
 
-- 
2.43.0


From 0bbc82f35329f2770e3ad0cb50957e1aa2392dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:43 +0000
Subject: [PATCH 082/122] fix: invdes optimizer does not modify the options
 passed in

---
 spins/invdes/optimization/scipy_optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spins/invdes/optimization/scipy_optimizer.py b/spins/invdes/optimization/scipy_optimizer.py
index 8a16aa7..b42aa66 100644
--- a/spins/invdes/optimization/scipy_optimizer.py
+++ b/spins/invdes/optimization/scipy_optimizer.py
@@ -42,9 +42,9 @@ class ScipyOptimizer:
 
         # Spins places tols in options, tol saved in self.tol and removed from self.options
         if options:
-            if "tol" in options.keys():
-                self.tol = options["tol"]
-                del self.options["tol"]
+            self.options = dict(options)
+            if "tol" in self.options:
+                self.tol = self.options.pop("tol")
 
     def __call__(self, opt, param, callback=None):
         if isinstance(opt, OptimizationFunction):
-- 
2.43.0


From 63a25b968cde3abc0df093367bbdab51466a7c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:43 +0000
Subject: [PATCH 083/122] fix: gradient optimizers do not exceed the number of
 iterations allowed

A limit of zero was no limit at all, and one more iteration was run if the
limit had been reached before.
---
 spins/invdes/optimization/gradient_descent.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/spins/invdes/optimization/gradient_descent.py b/spins/invdes/optimization/gradient_descent.py
index acd63b0..cd6d308 100644
--- a/spins/invdes/optimization/gradient_descent.py
+++ b/spins/invdes/optimization/gradient_descent.py
@@ -72,9 +72,9 @@ class GradientOptimizer:
         # Keep a list of possible stop iterations.
         # Then take the minimum of the possibilities.
         stop_iter_list = []
-        if iters:
+        if iters is not None:
             stop_iter_list.append(self._iters + iters)
-        if self._max_iters:
+        if self._max_iters is not None:
             stop_iter_list.append(self._max_iters)
 
         # Compute stopping iteration.
@@ -82,15 +82,12 @@ class GradientOptimizer:
         if stop_iter_list:
             stop_iter = np.min(stop_iter_list)
 
-        while True:
+        while stop_iter is None or self._iters < stop_iter:
             stop_opt = self.iterate()
             # Increase iteration count and break if done.
             self._iters += 1
             if callback:
                 callback(self.param)
-            # Check if we should break from iteration count.
-            if stop_iter and self._iters >= stop_iter:
-                break
             # Check if we should break from other factors.
             if stop_opt:
                 break
-- 
2.43.0


From aa28e268c0f54daacde2651c568b6fba3bca4e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:43 +0000
Subject: [PATCH 084/122] fix: gradient descent with normalization handles zero
 gradients

The gradient array of the objective was also modified in place.
---
 spins/invdes/optimization/gradient_descent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/optimization/gradient_descent.py b/spins/invdes/optimization/gradient_descent.py
index cd6d308..d6206ce 100644
--- a/spins/invdes/optimization/gradient_descent.py
+++ b/spins/invdes/optimization/gradient_descent.py
@@ -126,8 +126,8 @@ class GradientDescent(GradientOptimizer):
         gradient = self.objective.calculate_gradient(self.param)
         gradient_norm = np.linalg.norm(gradient)
 
-        if self.normalize_gradient:
-            gradient /= gradient_norm
+        if self.normalize_gradient and gradient_norm > 0:
+            gradient = gradient / gradient_norm
 
         self.param.decode(self.param.encode() - self.alpha * gradient)
         self.param.project()
-- 
2.43.0


From 6793f6819b0521cf0428e9c1e18e61d37ba1fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:43 +0000
Subject: [PATCH 085/122] fix: adaptive gradient descent notices changes of the
 parametrization

It compared with the objective value of the previous parametrization, which could
be unreachable so that the step size was reduced forever.
---
 spins/invdes/optimization/gradient_descent.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spins/invdes/optimization/gradient_descent.py b/spins/invdes/optimization/gradient_descent.py
index d6206ce..06f4275 100644
--- a/spins/invdes/optimization/gradient_descent.py
+++ b/spins/invdes/optimization/gradient_descent.py
@@ -184,6 +184,7 @@ class AdaptiveGradientDescent(GradientOptimizer):
         self.failure_factor = failure_factor
         self.objective_value = objective.calculate_objective_function(
             self.param)
+        self.objective_vector = np.array(self.param.encode())
         self.stop_tolerance = stop_tolerance
 
     def iterate(self):
@@ -199,6 +200,11 @@ class AdaptiveGradientDescent(GradientOptimizer):
         if gradient_norm < self.stop_tolerance:
             logger.debug('Hit gradient tolerance. Stopping optimization...')
             return True
+        # The objective value is outdated if the parametrization was changed by
+        # someone else in the meantime.
+        if not np.array_equal(self.objective_vector, self.param.encode()):
+            self.objective_value = self.objective.calculate_objective_function(
+                self.param)
         while True:
             # Save the old parametrization in case we want to reset it.
             old_vector = self.param.encode()
@@ -213,6 +219,7 @@ class AdaptiveGradientDescent(GradientOptimizer):
                 logger.debug('Successful step with step size {0}'.format(
                     self.alpha))
                 self.objective_value = new_objective_value
+                self.objective_vector = np.array(self.param.encode())
                 self.alpha *= self.success_factor
                 logger.debug('New objective value: {0}'.format(
                     self.objective_value))
-- 
2.43.0


From ef2c1448e51aa466c8797c192ba18776fbb25c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:43 +0000
Subject: [PATCH 086/122] fix: bounds of slack variables are appended to bounds
 of any sequence type

---
 spins/invdes/problem/slack_optimization_problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem/slack_optimization_problem.py b/spins/invdes/problem/slack_optimization_problem.py
index 101fdb2..d6f64c1 100644
--- a/spins/invdes/problem/slack_optimization_problem.py
+++ b/spins/invdes/problem/slack_optimization_problem.py
@@ -78,8 +78,8 @@ class SlackParam(Parametrization):
         if param_bounds is None:
             param_size = len(self.param.to_vector())
             param_bounds = [(None,) * param_size, (None,) * param_size]
-        minBounds = param_bounds[0] + self.num_slack * (0,)
-        maxBounds = param_bounds[1] + self.num_slack * (None,)
+        minBounds = tuple(param_bounds[0]) + self.num_slack * (0,)
+        maxBounds = tuple(param_bounds[1]) + self.num_slack * (None,)
         return minBounds, maxBounds
 
     def get_param(self):
-- 
2.43.0


From 9c3b41d682280c95cfafeef881e3f0a06eb74cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:43 +0000
Subject: [PATCH 087/122] fix: slack variables are not negative after
 projection

An optimizer that does not use bounds could violate inequality constraints.
---
 spins/invdes/problem/slack_optimization_problem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spins/invdes/problem/slack_optimization_problem.py b/spins/invdes/problem/slack_optimization_problem.py
index d6f64c1..d1d5e9e 100644
--- a/spins/invdes/problem/slack_optimization_problem.py
+++ b/spins/invdes/problem/slack_optimization_problem.py
@@ -66,6 +66,7 @@ class SlackParam(Parametrization):
 
     def project(self):
         self.param.project()
+        self.slack_variables = np.maximum(self.slack_variables, 0)
 
     def get_structure(self):
         return self.param.get_structure()
-- 
2.43.0


From 4717a18a67fad3606ba72d409ec36751ba16f0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:43 +0000
Subject: [PATCH 088/122] fix: penalty optimizer runs all the cycles if it is
 used again

---
 spins/invdes/optimization/constrained_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spins/invdes/optimization/constrained_optimizer.py b/spins/invdes/optimization/constrained_optimizer.py
index edadb54..0a768e4 100644
--- a/spins/invdes/optimization/constrained_optimizer.py
+++ b/spins/invdes/optimization/constrained_optimizer.py
@@ -108,6 +108,8 @@ class PenaltyOptimizer:
             mu = mu**self.tau
             if cycle_callback:
                 cycle_callback(slack_param.get_param())
+        # Start from the first cycle if called again.
+        self.cycle_num = 0
         return slack_param.get_param()
 
 
-- 
2.43.0


From 32fce09eda9c86505145da6f5f5cfc0f19b377d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:17 +0000
Subject: [PATCH 089/122] fix: composite parametrizations can be used in
 gradients

The transpose of the Jacobian, which is needed to differentiate an objective with
respect to the parametrization, was not available.
---
 .../composite_parametrization.py              | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/parametrization/composite_parametrization.py b/spins/invdes/parametrization/composite_parametrization.py
index 3f6c8c4..d35506e 100644
--- a/spins/invdes/parametrization/composite_parametrization.py
+++ b/spins/invdes/parametrization/composite_parametrization.py
@@ -143,8 +143,25 @@ class CompositeParam(parametrization.Parametrization):
             return np.hstack([param.calculate_gradient() @ sub_vec for
                               param, sub_vec in zip(self._params, split_vec)])
 
+        def _jacobian_transpose_vec_prod(vec: np.ndarray) -> np.ndarray:
+            """Calculate the product of the transposed jacobian with a vector.
+
+            Args:
+                 vec: The numpy array to multiply the transposed jacobian to.
+
+            Returns:
+                 The product of the transpose of the `jacobian` with `vec`.
+            """
+            # Split the vector into smaller vectors.
+            split_vec = _split_vector(
+                vec, [param.get_structure().size for param in self._params])
+
+            return np.hstack([sub_vec @ param.calculate_gradient() for
+                              param, sub_vec in zip(self._params, split_vec)])
+
         return linalg.LinearOperator((self._z_size, np.sum(self._param_sizes)),
-                                     matvec=_jacobian_vec_prod)
+                                     matvec=_jacobian_vec_prod,
+                                     rmatvec=_jacobian_transpose_vec_prod)
 
     def encode(self) -> np.ndarray:
         """Encode the parametrization into a vector form.
-- 
2.43.0


From 5252f646fb332574fab94bcf41d39f3817fb3568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:35 +0000
Subject: [PATCH 090/122] fix: repeated symmetric Hermite parametrizations are
 symmetric

The slope across the boundary of a symmetric unit cell which is repeated has
to vanish, also if the last point of the last cell is not duplicated.
---
 spins/invdes/parametrization/cubic_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spins/invdes/parametrization/cubic_utils.py b/spins/invdes/parametrization/cubic_utils.py
index 5ee633e..5ada6ba 100644
--- a/spins/invdes/parametrization/cubic_utils.py
+++ b/spins/invdes/parametrization/cubic_utils.py
@@ -993,14 +993,16 @@ def make_geometry_matrix_hermite(shape, reflection_symmetry, periodicity,
     #Correct the sign of the derivatives based on symmetry.
     sign_matrix_list = [sparse.eye(rev_add_unitcellboundary_x.shape[1])]
     if reflection_symmetry[0]:
-        sign_matrix_x = symmetry_matrix_sign_correction(geometry_shape, 0, -1,
-                                                        bool(periodicity[0]))
+        sign_matrix_x = symmetry_matrix_sign_correction(
+            geometry_shape, 0, -1,
+            bool(periodicity[0] or periodicity_unitcell[0]))
     else:
         sign_matrix_x = sparse.eye(rev_add_unitcellboundary_x.shape[1])
     sign_matrix_list.append(sign_matrix_x)
     if reflection_symmetry[1]:
-        sign_matrix_y = symmetry_matrix_sign_correction(geometry_shape, 1, -1,
-                                                        bool(periodicity[1]))
+        sign_matrix_y = symmetry_matrix_sign_correction(
+            geometry_shape, 1, -1,
+            bool(periodicity[1] or periodicity_unitcell[1]))
     else:
         sign_matrix_y = sparse.eye(rev_add_unitcellboundary_x.shape[1])
     sign_matrix_list.append(sign_matrix_y)
-- 
2.43.0


From 87c377906cd550cb875a00d15e71181f75831091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:35 +0000
Subject: [PATCH 091/122] fix: gradients of cubic parametrizations are finite
 for any sigmoid strength

---
 spins/invdes/parametrization/parametrization.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/spins/invdes/parametrization/parametrization.py b/spins/invdes/parametrization/parametrization.py
index d3905ab..41e1dc1 100644
--- a/spins/invdes/parametrization/parametrization.py
+++ b/spins/invdes/parametrization/parametrization.py
@@ -247,9 +247,8 @@ class CubicParam(Parametrization):
     def calculate_gradient(self) -> np.ndarray:
         z_cubic = self.vec2f @ self.vector
         if self.k:
-            return sparse.diags(
-                2 * self.k * np.exp(-self.k * (2 * z_cubic - 1)) /
-                (1 + np.exp(-self.k * (2 * z_cubic - 1)))**2) @ self.vec2f
+            z = 1 / (1 + np.exp(-self.k * (2 * z_cubic - 1)))
+            return sparse.diags(2 * self.k * z * (1 - z)) @ self.vec2f
         else:
             return self.vec2f
 
@@ -433,9 +432,8 @@ class HermiteParam(Parametrization):
 
     def calculate_gradient(self) -> np.ndarray:
         z_cubic = self.vec2f @ self.vector
-        return sparse.diags(2 * self.k * np.exp(-self.k * (2 * z_cubic - 1)) /
-                            (1 + np.exp(-self.k *
-                                        (2 * z_cubic - 1)))**2) @ self.vec2f
+        z = 1 / (1 + np.exp(-self.k * (2 * z_cubic - 1)))
+        return sparse.diags(2 * self.k * z * (1 - z)) @ self.vec2f
 
     def set_k(self, k):
         self.k = k
-- 
2.43.0


From a75734f3bb5c5de1412262cddbe066ccef4b1faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:35 +0000
Subject: [PATCH 092/122] fix: bounds of cubic parametrizations may differ
 between entries

---
 spins/invdes/parametrization/parametrization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/parametrization/parametrization.py b/spins/invdes/parametrization/parametrization.py
index 41e1dc1..74c79b7 100644
--- a/spins/invdes/parametrization/parametrization.py
+++ b/spins/invdes/parametrization/parametrization.py
@@ -254,7 +254,8 @@ class CubicParam(Parametrization):
 
     def get_bounds(self):
         vec_len = len(self.vector)
-        return ((self.lower_bound, ) * vec_len, (self.upper_bound, ) * vec_len)
+        return (tuple(np.broadcast_to(self.lower_bound, vec_len)),
+                tuple(np.broadcast_to(self.upper_bound, vec_len)))
 
     def project(self) -> None:
         self.vector = np.clip(self.vector, self.lower_bound, self.upper_bound)
-- 
2.43.0


From 7ca7b02c658e535c14d5a3d2c647a201ab80c68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:35 +0000
Subject: [PATCH 093/122] fix: Hermite parametrizations report their bounds

---
 spins/invdes/parametrization/parametrization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spins/invdes/parametrization/parametrization.py b/spins/invdes/parametrization/parametrization.py
index 74c79b7..67bf76e 100644
--- a/spins/invdes/parametrization/parametrization.py
+++ b/spins/invdes/parametrization/parametrization.py
@@ -439,6 +439,14 @@ class HermiteParam(Parametrization):
     def set_k(self, k):
         self.k = k
 
+    def get_bounds(self):
+        if np.all(np.isinf(self.lower_bound)) and np.all(
+                np.isinf(self.upper_bound)):
+            return None
+        vec_len = len(self.vector)
+        return (tuple(np.broadcast_to(self.lower_bound, vec_len)),
+                tuple(np.broadcast_to(self.upper_bound, vec_len)))
+
     def project(self) -> None:
         self.vector = np.clip(self.vector, self.lower_bound, self.upper_bound)
 
-- 
2.43.0


From 79f63331af165a9bb3582738c41206bbc218c7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:35 +0000
Subject: [PATCH 094/122] fix: composite parametrizations can be loaded with
 other numbers of parameters

---
 spins/invdes/parametrization/composite_parametrization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spins/invdes/parametrization/composite_parametrization.py b/spins/invdes/parametrization/composite_parametrization.py
index d35506e..a2699e8 100644
--- a/spins/invdes/parametrization/composite_parametrization.py
+++ b/spins/invdes/parametrization/composite_parametrization.py
@@ -77,6 +77,9 @@ class CompositeParam(parametrization.Parametrization):
         # input a huge vector that is the concatenation of all parameters of the
         # individual parametrization, and split it into smaller vectors to pass
         # to the individual parametrization objects.
+        self._update_sizes()
+
+    def _update_sizes(self) -> None:
         self._param_sizes = [param.encode().size for param in self._params]
 
         # In addition to the sizes of the `encode` function, parametrizations
@@ -267,3 +270,6 @@ class CompositeParam(parametrization.Parametrization):
             # Strip off the "param_" prefix to compute index.
             ind = int(param_key[len("param_"):])
             self._params[ind].deserialize(param_data)
+
+        # The number of parameters may have changed (e.g. number of edges).
+        self._update_sizes()
-- 
2.43.0


From b3d2a88d53e527d109b265a86193d052024144af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 095/122] fix: gratings with several etch depths within a pixel
 are rendered

---
 spins/goos/grating.py | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/spins/goos/grating.py b/spins/goos/grating.py
index d450d13..45a6998 100644
--- a/spins/goos/grating.py
+++ b/spins/goos/grating.py
@@ -436,30 +436,15 @@ class MultiEtchEdgeParametrization(Parametrization):
         raster_vecs = [self.build_rasterized_1D(vec) for vec in level_vecs]
 
         layer_pixels = np.diff(np.r_[0, self.etch_depths])
-        # Generate the structure.
-        total_z = np.zeros(self.dims)
-        z_ind = 0
-        partial_pixels = 0
-        for i, raster_vec in enumerate(raster_vecs):
-            pixels_left = layer_pixels[i]
-            if i != 0:
-                if np.abs(partial_pixels) > 0.001:
-                    total_z[:, z_ind] += raster_vec * (1 - partial_pixels)
-                    z_ind += 1
-                    pixels_left -= (1 - partial_pixels)
-            full_pixels = int(pixels_left)
-            partial_pixels = pixels_left - full_pixels
-            if full_pixels > 0:
-                total_z[:, z_ind:z_ind + full_pixels] = np.hstack(
-                    (raster_vec[:, np.newaxis],) * full_pixels)
-                z_ind += full_pixels
-            if np.abs(partial_pixels) > 0.001:
-                total_z[:, z_ind] += raster_vec * partial_pixels
-        # Add final layers of ones.
-        if np.abs(partial_pixels) > 0.001:
-            total_z[:, z_ind] += 1 - partial_pixels
-            z_ind += 1
-        total_z[:, z_ind:self.dims[1]] = 1
+        # Generate the structure. Everything below the last layer is filled.
+        total_z = np.ones(self.dims)
+        pixel_bottoms = np.arange(self.dims[1])
+        for raster_vec, depth, thickness in zip(raster_vecs, self.etch_depths,
+                                                layer_pixels):
+            # Fraction of each pixel (along etch direction) within the layer.
+            layer_frac = (np.clip(depth - pixel_bottoms, 0, 1) -
+                          np.clip(depth - thickness - pixel_bottoms, 0, 1))
+            total_z -= np.outer(1 - raster_vec, layer_frac)
         return total_z.flatten(order='F')
 
     def get_bounds(self):
-- 
2.43.0


From ac603b8941fe42c55927cf8b065ae92b40bdf79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 096/122] fix: bounds of grating widths correspond to the
 levels of the segments

---
 spins/goos/grating.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spins/goos/grating.py b/spins/goos/grating.py
index 45a6998..fab5978 100644
--- a/spins/goos/grating.py
+++ b/spins/goos/grating.py
@@ -297,6 +297,8 @@ class GratingL2D(goos.Action):
                                                  self._end_depth_ind,
                                                  self._divisions)
         edges = np.array(edges) * self._pixel_size
+        # Levels of the segments that end at the edges.
+        segment_levels = [self._start_depth_ind] + levels[:-1]
 
         if not self._use_edge_locs:
             widths = np.r_[edges[0], edges[1:] - edges[:-1]]
@@ -305,14 +307,16 @@ class GratingL2D(goos.Action):
             if np.isscalar(self._min_features):
                 min_feats = self._min_features
             else:
-                min_feats = np.array([self._min_features[i] for i in levels])
+                min_feats = np.array(
+                    [self._min_features[i] for i in segment_levels])
 
             if self._max_features is None:
                 max_feats = np.inf
             elif np.isscalar(self._max_features):
                 max_feats = self._max_features
             else:
-                max_feats = np.array([self._max_features[i] for i in levels])
+                max_feats = np.array(
+                    [self._max_features[i] for i in segment_levels])
 
             ones = np.ones_like(widths)
             plan.set_var_bounds(self._disc_widths,
-- 
2.43.0


From 1dc6cc005360fe76db8169a55f7cd901842db548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 097/122] fix: discretized gratings start at the starting
 height

---
 spins/goos/grating.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/spins/goos/grating.py b/spins/goos/grating.py
index fab5978..12b4513 100644
--- a/spins/goos/grating.py
+++ b/spins/goos/grating.py
@@ -300,6 +300,15 @@ class GratingL2D(goos.Action):
         # Levels of the segments that end at the edges.
         segment_levels = [self._start_depth_ind] + levels[:-1]
 
+        # `PixelatedGrating` has full height in front of the first edge. If the
+        # grating starts at a different height, an edge at the very beginning
+        # is needed.
+        add_start_edge = self._depths[self._start_depth_ind] != 1 and edges[0] > 0
+        if add_start_edge:
+            edges = np.r_[0, edges]
+            levels = [self._start_depth_ind] + levels
+            segment_levels = [self._start_depth_ind] + segment_levels
+
         if not self._use_edge_locs:
             widths = np.r_[edges[0], edges[1:] - edges[:-1]]
             plan.set_var_value(self._disc_widths, widths)
@@ -319,13 +328,15 @@ class GratingL2D(goos.Action):
                     [self._max_features[i] for i in segment_levels])
 
             ones = np.ones_like(widths)
-            plan.set_var_bounds(self._disc_widths,
-                                [ones * min_feats, ones * max_feats])
+            bounds = [ones * min_feats, ones * max_feats]
         else:
             plan.set_var_value(self._disc_widths, edges)
             ones = np.ones_like(edges)
-            plan.set_var_bounds(self._disc_widths,
-                                [ones * -np.inf, ones * np.inf])
+            bounds = [ones * -np.inf, ones * np.inf]
+
+        if add_start_edge:
+            bounds[0][0] = bounds[1][0] = 0
+        plan.set_var_bounds(self._disc_widths, bounds)
 
         plan.set_var_value(self._disc_levels, levels)
 
-- 
2.43.0


From b954be10a430d8e2e110085301a863bd0efd44ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 098/122] fix: edge location constraint handles single edges
 and float indices

---
 spins/goos/grating.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/spins/goos/grating.py b/spins/goos/grating.py
index 12b4513..066d514 100644
--- a/spins/goos/grating.py
+++ b/spins/goos/grating.py
@@ -706,7 +706,8 @@ class EdgeLocConstraint(goos.Function):
         if np.isscalar(self._min_features):
             min_feats = self._min_features
         else:
-            min_feats = np.array([self._min_features[i] for i in index[:-1]])
+            min_feats = np.array(
+                [self._min_features[int(i)] for i in index[:-1]])
         val = min_feats - (vector[1:] - vector[:-1])
         # Append constraints for first and last edge.
         val = np.r_[val, -vector[0], vector[-1] - self._grating_len]
@@ -720,12 +721,7 @@ class EdgeLocConstraint(goos.Function):
         if self._diff_mat is None or self._diff_mat.shape[1] != len(vector):
             # Build matrix that when multiplied by a vector gives you the
             # difference of the entries.
-            A = scipy.linalg.circulant([-1, 1] + [0] * (len(vector) - 2)).T
-            # Get rid of last row since that corresponds to differencing first
-            # element by the last.
-            A = A[:-1, :]
-
-            self._diff_mat = -A
+            self._diff_mat = -np.diff(np.eye(len(vector)), axis=0)
 
             # Append constraints for first and last edge.
             first = np.zeros(len(vector))
-- 
2.43.0


From af4e4f3200d0b5919d68562f86d896260d1207d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 099/122] fix: grating edge fit obeys minimum features between
 grid points

---
 spins/invdes/problem_graph/grating.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/grating.py b/spins/invdes/problem_graph/grating.py
index 144056e..7a2de23 100644
--- a/spins/invdes/problem_graph/grating.py
+++ b/spins/invdes/problem_graph/grating.py
@@ -1,5 +1,6 @@
 """This module contains transformations related to grating parametrization."""
 import copy
+import math
 from typing import List
 
 import numpy as np
@@ -123,7 +124,7 @@ def _get_edge_loc_dp(x: List[float], min_feature: float = 0) -> np.ndarray:
     dp = [max_val] * max_k
 
     # min_feature size in terms of grid units.
-    d = int(min_feature * divisions)
+    d = math.ceil(min_feature * divisions)
     struct_dp = [[] for i in range(d)]
 
     # k = this right edge
-- 
2.43.0


From 9ae37603536c6bb5afbc037ee42b8657a3b1a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:16 +0000
Subject: [PATCH 100/122] fix: monitor specifications can be loaded

---
 spins/invdes/problem_graph/log_tools/monitor_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/log_tools/monitor_spec.py b/spins/invdes/problem_graph/log_tools/monitor_spec.py
index 59351b6..ab1687c 100644
--- a/spins/invdes/problem_graph/log_tools/monitor_spec.py
+++ b/spins/invdes/problem_graph/log_tools/monitor_spec.py
@@ -179,5 +179,5 @@ def load_from_yml(filename: str) -> MonitorDescriptionList:
         MonitorDescriptionList object containing the monitor spec information.
     """
     with open(filename) as fp:
-        monitor_descriptions = MonitorDescriptionList(yaml.load(fp))
+        monitor_descriptions = MonitorDescriptionList(yaml.safe_load(fp))
     return monitor_descriptions
-- 
2.43.0


From 0bf8e8247b87610e3f3aff3b4e788d4e4c77136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:16 +0000
Subject: [PATCH 101/122] fix: monitors of events without iterations can be
 joined

---
 spins/invdes/problem_graph/log_tools/loader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spins/invdes/problem_graph/log_tools/loader.py b/spins/invdes/problem_graph/log_tools/loader.py
index ca86766..f93fcd4 100644
--- a/spins/invdes/problem_graph/log_tools/loader.py
+++ b/spins/invdes/problem_graph/log_tools/loader.py
@@ -326,10 +326,11 @@ def get_joined_scalar_monitors(
         transformation_iters = monitor_data[transformation].iteration
         dat_length = len(data)
         if dat_length > 0:
-            iterations.extend(transformation_iters + iterations[-1])
             transformation_changes.append(dat_length)
-        else:
-            iterations.extend(transformation_iters)
+        # Events may not have any iteration data.
+        iter_offset = iterations[-1] if iterations else 0
+        iterations.extend(iteration + iter_offset
+                          for iteration in transformation_iters)
         data.extend(transformation_data)
 
     data = process_scalar(data, scalar_operation=scalar_operation)
-- 
2.43.0


From 99a53d387b75530d27641896ceb433c188379edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:16 +0000
Subject: [PATCH 102/122] fix: single monitor data is that of the last event of
 the transformation

---
 spins/invdes/problem_graph/log_tools/loader.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/spins/invdes/problem_graph/log_tools/loader.py b/spins/invdes/problem_graph/log_tools/loader.py
index f93fcd4..c7094db 100644
--- a/spins/invdes/problem_graph/log_tools/loader.py
+++ b/spins/invdes/problem_graph/log_tools/loader.py
@@ -218,15 +218,17 @@ def get_single_monitor_data(
     else:
         all_transformation_names = [transformation_name]
 
-    # If no event name given, extract all event names to find the last one with
-    # data.
-    if event_name is None:
-        all_event_names = log_df[LOG_TRANSFORMATION_INFO_KEY].unique().tolist()
-    else:
-        all_event_names = [event_name]
-
     # Get all data for the given monitor name associated with the event_name.
     for name_transformation in reversed(all_transformation_names):
+        # If no event name given, extract all event names of the transformation
+        # to find the last one with data.
+        if event_name is None:
+            all_event_names = log_df[LOG_TRANSFORMATION_INFO_KEY][
+                log_df[LOG_TRANSFORMATION_KEY] ==
+                name_transformation].drop_duplicates(keep="last").tolist()
+        else:
+            all_event_names = [event_name]
+
         for name_event in reversed(all_event_names):
             data_all = get_monitor_data(log_df, monitor_names, name_event)
 
-- 
2.43.0


From eab84fca5bd56a3da3f01d2d56dab94fcd8188e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:16 +0000
Subject: [PATCH 103/122] fix: overlap monitors can be listed and plotted

---
 spins/invdes/problem_graph/log_tools/loader.py  |  8 ++++----
 spins/invdes/problem_graph/log_tools/plotter.py | 10 ++++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/spins/invdes/problem_graph/log_tools/loader.py b/spins/invdes/problem_graph/log_tools/loader.py
index c7094db..e8eae32 100644
--- a/spins/invdes/problem_graph/log_tools/loader.py
+++ b/spins/invdes/problem_graph/log_tools/loader.py
@@ -290,12 +290,12 @@ def get_overlap_monitor_names(log_df: pd.DataFrame) -> List[str]:
     Returns:
         List of overlap monitor name strings.
     """
-    monitor_names = get_monitor_name_by_type(log_df)
+    prefix = LOG_MONITOR_DATA_KEY + ":"
     overlap_names = []
-    for name in monitor_names.scalars:
+    for column in log_df.columns:
         # Currently, all overlap monitors have an autogen name including "overlap".
-        if "overlap" in name.lower():
-            overlap_names.append(name)
+        if column.startswith(prefix) and "overlap" in column.lower():
+            overlap_names.append(column[len(prefix):])
     return overlap_names
 
 
diff --git a/spins/invdes/problem_graph/log_tools/plotter.py b/spins/invdes/problem_graph/log_tools/plotter.py
index bd68ddb..a1d8763 100644
--- a/spins/invdes/problem_graph/log_tools/plotter.py
+++ b/spins/invdes/problem_graph/log_tools/plotter.py
@@ -254,11 +254,17 @@ def plot_overlaps(log_df: pd.DataFrame,
     overlap_names = loader.get_overlap_monitor_names(log_df)
 
     # Plot overlap monitors.
+    scalar_operation = ("magnitude_squared"
+                        if compute_complex == "power" else compute_complex)
     plot_scalar_monitors(
-        monitor_name_list=overlap_names,
+        monitor_spec.MonitorDescriptionList(monitor_list=[
+            monitor_spec.JoinedMonitorDescription(
+                monitor_name=name,
+                monitor_type=loader.SCALAR_TYPE,
+                scalar_operation=scalar_operation) for name in overlap_names
+        ]),
         log_df=log_df,
         same_plt=same_plt,
-        compute_complex=compute_complex,
         pdf_obj=pdf_obj,
         filename=filename,
         show=show)
-- 
2.43.0


From 83c078d1e3e4895bb71eec6f24705f6c5e256170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:16 +0000
Subject: [PATCH 104/122] fix: field monitors without a vector operation can be
 processed

---
 spins/invdes/problem_graph/log_tools/loader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem_graph/log_tools/loader.py b/spins/invdes/problem_graph/log_tools/loader.py
index e8eae32..ac5e231 100644
--- a/spins/invdes/problem_graph/log_tools/loader.py
+++ b/spins/invdes/problem_graph/log_tools/loader.py
@@ -376,7 +376,8 @@ def process_field(field: List,
     Args:
         field: Field slice data as a list of x, y, and z 2-dimensional data.
         vector_operation: String specifying the component of the field data.
-            Choices are "magnitude", "x", "y", or "z".
+            Choices are "magnitude", "x", "y", or "z". If `None`, the magnitude
+            is used.
         scalar_operation: String specifying how to process each element of the
             field data. Choices are "power", "magnitude", "phase", "real",
             or "imag".
@@ -384,7 +385,7 @@ def process_field(field: List,
     Returns:
         List containing the processed field data.
     """
-    if vector_operation.lower() == "magnitude":
+    if vector_operation is None or vector_operation.lower() == "magnitude":
         mag = (np.sqrt(
             np.abs(field[0])**2 + np.abs(field[1])**2 + np.abs(field[2])**2))
     elif vector_operation.lower() == "x":
-- 
2.43.0


From eccc4388f390b822ce31be263398e27626928410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:16 +0000
Subject: [PATCH 105/122] fix: slices at index zero are slices

---
 spins/goos/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spins/goos/util.py b/spins/goos/util.py
index d252826..3508d55 100644
--- a/spins/goos/util.py
+++ b/spins/goos/util.py
@@ -148,10 +148,10 @@ def make_slice(
     if z == "center":
         z = shape[2] // 2
 
-    if x:
+    if x is not None:
         slicer[0] = slice(x, x + 1)
-    if y:
+    if y is not None:
         slicer[1] = slice(y, y + 1)
-    if z:
+    if z is not None:
         slicer[2] = slice(z, z + 1)
     return tuple(slicer)
-- 
2.43.0


From 519cfe2fda8eadb554a83707069d38446b43b829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:16 +0000
Subject: [PATCH 106/122] fix: center slices of fields are taken at the center

---
 spins/goos/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/util.py b/spins/goos/util.py
index 3508d55..752dd96 100644
--- a/spins/goos/util.py
+++ b/spins/goos/util.py
@@ -67,7 +67,7 @@ def visualize_fields(
     if isinstance(fields, goos.Flow):
         fields = fields.array
 
-    slicer = make_slice(x=x, y=y, z=z, shape=fields.shape)
+    slicer = make_slice(x=x, y=y, z=z, shape=fields.shape[1:])
 
     plt.figure(figsize=(10, 5))
     for i, comp_name in zip(range(3), "xyz"):
-- 
2.43.0


From 77251574441e020e2677944211d9c144e0986c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:17 +0000
Subject: [PATCH 107/122] fix: polygons that touch each other are kept in the
 layout

---
 spins/gds/gen_gds.py | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/spins/gds/gen_gds.py b/spins/gds/gen_gds.py
index 3a2def7..51b0939 100644
--- a/spins/gds/gen_gds.py
+++ b/spins/gds/gen_gds.py
@@ -9,6 +9,29 @@ import numpy as np
 NM_PER_UM = 1000
 
 
+def _get_containment_matrix(gds_polygons: List[gdspy.PolygonSet],
+                            test_points: List[np.ndarray]) -> np.ndarray:
+    """Computes which polygons contain each other.
+
+    Args:
+        gds_polygons: List of polygons.
+        test_points: List of the vertices of each polygon.
+
+    Returns:
+        Matrix whose element `(i, j)` is one if polygon `i` contains polygon `j`
+        and zero otherwise.
+    """
+    containment_mx = np.zeros((len(gds_polygons), len(gds_polygons)))
+    for i, outer in enumerate(gds_polygons):
+        for j, inner in enumerate(gds_polygons):
+            # Polygons may touch each other, so it is not sufficient to
+            # look at the vertices.
+            if i != j and all(gdspy.inside(test_points[j], [outer])):
+                outside = gdspy.boolean(inner, outer, "not", precision=1e-6)
+                containment_mx[i, j] = outside is None
+    return containment_mx
+
+
 def gen_gds(poly_coords: List[np.ndarray],
             filepath: str,
             extra_structures: List[np.ndarray] = None,
@@ -35,18 +58,12 @@ def gen_gds(poly_coords: List[np.ndarray],
     poly_coords = [np.array(poly) / NM_PER_UM for poly in poly_coords]
 
     for polygon in poly_coords:
-        test_points.append(tuple(polygon[0]))
+        test_points.append([tuple(point) for point in polygon])
         gds_polygons.append(gdspy.Polygon(polygon, 0))
 
     if deembed:
 
-        containment_mx = []
-        for polygon in gds_polygons:
-            containment_mx.append(gdspy.inside(test_points, [polygon]))
-
-        # Subtract by identity matrix since polygon_i trivially contains
-        # polygon_i.
-        containment_mx = np.array(containment_mx) - np.eye(len(gds_polygons))
+        containment_mx = _get_containment_matrix(gds_polygons, test_points)
         # overlap_list[i] tells how many polygons are contained in polygon i.
         overlap_list = np.sum(containment_mx, axis=1)
 
@@ -92,12 +109,8 @@ def gen_gds(poly_coords: List[np.ndarray],
                         del gds_polygons[k]
                         del test_points[k]
 
-                containment_mx = []
-                for polygon in gds_polygons:
-                    containment_mx.append(gdspy.inside(test_points, [polygon]))
-
-                containment_mx = np.array(containment_mx) - np.eye(
-                    len(gds_polygons))
+                containment_mx = _get_containment_matrix(
+                    gds_polygons, test_points)
                 overlap_list = np.sum(containment_mx, axis=1)
 
                 target_polys = np.where(overlap_list == overlap_num)[0]
-- 
2.43.0


From 8887919984381b2a07cd2ead930430f31a8a26d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:17 +0000
Subject: [PATCH 108/122] fix: the cell with the most polygons is found among
 cells with equally many fewer polygons

---
 spins/gds/parse_gds.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/spins/gds/parse_gds.py b/spins/gds/parse_gds.py
index 1298c0c..74b061e 100644
--- a/spins/gds/parse_gds.py
+++ b/spins/gds/parse_gds.py
@@ -102,6 +102,7 @@ class GDSImport:
 
         if cell_name is None:
             max_num_polys = 0
+            is_unique = True
             for cell in top_level_cells:
                 # Ignore cells that are hidden
                 if cell.name.startswith("$$$"):
@@ -115,19 +116,21 @@ class GDSImport:
                         num_polys += len(polygon_set.polygons)
 
                     if max_num_polys == num_polys:
-                        raise ValueError(
-                            "Multiple top level cells with same number of "
-                            "polygons. Unable to uniquely identify top level"
-                            " cell. Please specify cell by name instead.")
+                        is_unique = False
                     if max_num_polys < num_polys:
                         max_num_polys = num_polys
                         max_poly_tlc = cell
+                        is_unique = True
 
-            if max_num_polys > 0:
-                return max_poly_tlc
-            else:
+            if max_num_polys == 0:
                 raise ValueError(
                     "No valid cell found. Please specify cell by name instead.")
+            if not is_unique:
+                raise ValueError(
+                    "Multiple top level cells with same number of "
+                    "polygons. Unable to uniquely identify top level"
+                    " cell. Please specify cell by name instead.")
+            return max_poly_tlc
         else:
             for cell in top_level_cells:
                 if cell.name == cell_name:
-- 
2.43.0


From 516dd811ec8f8e233866d380a079defca74c4d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:07 +0000
Subject: [PATCH 109/122] fix: all the polygons of cubic parametrizations are
 generated, with x and y as in the design

---
 spins/invdes/parametrization/parametrization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spins/invdes/parametrization/parametrization.py b/spins/invdes/parametrization/parametrization.py
index 67bf76e..8f1725d 100644
--- a/spins/invdes/parametrization/parametrization.py
+++ b/spins/invdes/parametrization/parametrization.py
@@ -323,10 +323,10 @@ class CubicParam(Parametrization):
         y_extended = np.r_[y_z[0] - dx / 2, y_z, y_z[-1] + dx / 2]
 
         import matplotlib.pyplot as plt
-        cs = plt.contour(x_extended, y_extended, phi_extended - 0.5, [0])
-        paths = cs.collections[0].get_paths()
+        # The rows of the contour data correspond to y.
+        cs = plt.contour(x_extended, y_extended, phi_extended.T - 0.5, [0])
 
-        return [p.to_polygons()[0] for p in paths]
+        return [np.array(polygon) for polygon in cs.allsegs[0] if len(polygon)]
 
 
 class HermiteParam(Parametrization):
-- 
2.43.0


From 31cc34521757cb3fc1b36a5c45e60c298adb4668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:30 +0000
Subject: [PATCH 110/122] fix: materials may be given by name or by file

---
 spins/goos/material.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/spins/goos/material.py b/spins/goos/material.py
index 5dbcb13..57e424a 100644
--- a/spins/goos/material.py
+++ b/spins/goos/material.py
@@ -1,3 +1,5 @@
+from typing import Optional
+
 from spins import goos
 
 
@@ -33,7 +35,32 @@ class ConstantMaterial:
         return False
 
 
+class DispersiveMaterial:
+    """Material defined by the name of a material or by a file."""
+
+    def __init__(self, mat_name: Optional[str],
+                 mat_file: Optional[str]) -> None:
+        self._mat_name = mat_name
+        self._mat_file = mat_file
+
+    def permittivity(self, wlen: float) -> complex:
+        # Import here to avoid a circular import.
+        from spins.invdes.problem_graph import optplan
+        from spins.invdes.problem_graph import simspace
+        mat = optplan.Material(mat_name=self._mat_name,
+                               mat_file=self._mat_file)
+        return simspace._get_mat_index(mat, wlen)**2
+
+    def __eq__(self, other) -> bool:
+        if type(other) == DispersiveMaterial:
+            return (self._mat_name == other._mat_name and
+                    self._mat_file == other._mat_file)
+        return False
+
+
 def get_material(mat: Material):
     if mat is None:
         return None
+    if mat.index is None:
+        return DispersiveMaterial(mat.mat_name, mat.mat_file)
     return ConstantMaterial(mat.to_native()["index"])
-- 
2.43.0


From ff21fe749fb223911462c4b6fccaff7893053850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:51 +0000
Subject: [PATCH 111/122] fix: layouts with several polygons inside a hole can
 be written

---
 spins/gds/gen_gds.py | 73 ++++++++++++++------------------------------
 1 file changed, 23 insertions(+), 50 deletions(-)

diff --git a/spins/gds/gen_gds.py b/spins/gds/gen_gds.py
index 51b0939..67dd013 100644
--- a/spins/gds/gen_gds.py
+++ b/spins/gds/gen_gds.py
@@ -64,56 +64,29 @@ def gen_gds(poly_coords: List[np.ndarray],
     if deembed:
 
         containment_mx = _get_containment_matrix(gds_polygons, test_points)
-        # overlap_list[i] tells how many polygons are contained in polygon i.
-        overlap_list = np.sum(containment_mx, axis=1)
-
-        overlap_num = 0
-        while sum(overlap_list) != 0:
-
-            overlap_num = overlap_num + 1
-
-            # We loop until there are no longer any more polygons of a specific
-            # overlap number before going to the next overlap number.
-            #
-            # The reasoning for this is as we begin to delete polygons,
-            # the overlap number changes and so polygons which were of
-            # overlap_num > 1, may become polygons of overlap_num = 1.
-            #
-            # np.where(overlap_list==overlap_num)[0].size is how we see if
-            # any polygons satisfy the current overlap number.
-
-            target_polys = np.where(overlap_list == overlap_num)[0]
-            while target_polys.size != 0:
-
-                # We iterate through each polygon in our polygon list until no
-                # polygon satisfies the current overlap number.
-                for i in target_polys[::-1]:
-                    containment_list = np.nonzero(containment_mx[i, :])[0]
-                    # Concatenate all the contained polygons to subtract out.
-                    poly_list = sum([
-                        gds_polygons[j].polygons for j in containment_list
-                    ], [])
-                    # Note that we had to turn precision from the default 1e-3
-                    # to 1e-6 to avoid errors in the NOT operation.
-                    gds_polygons[i] = gdspy.boolean(gds_polygons[i],
-                                                    gdspy.PolygonSet(poly_list),
-                                                    "not",
-                                                    layer=0,
-                                                    precision=1e-6)
-                    for j in containment_list:
-                        gds_polygons[j] = None
-                        test_points[j] = None
-
-                for k in range(len(gds_polygons) - 1, -1, -1):
-                    if gds_polygons[k] is None:
-                        del gds_polygons[k]
-                        del test_points[k]
-
-                containment_mx = _get_containment_matrix(
-                    gds_polygons, test_points)
-                overlap_list = np.sum(containment_mx, axis=1)
-
-                target_polys = np.where(overlap_list == overlap_num)[0]
+        # Polygons inside an even number of other polygons are filled and the
+        # rest are the holes in them.
+        depth = np.sum(containment_mx, axis=0)
+        filled_polygons = []
+        for i in np.where(depth % 2 == 0)[0]:
+            # Find the holes directly inside of the polygon.
+            holes = np.where((containment_mx[i, :] == 1) &
+                             (depth == depth[i] + 1))[0]
+            polygon = gds_polygons[i]
+            if holes.size != 0:
+                # Concatenate all the contained polygons to subtract out.
+                poly_list = sum([gds_polygons[j].polygons for j in holes], [])
+                # Note that we had to turn precision from the default 1e-3
+                # to 1e-6 to avoid errors in the NOT operation.
+                polygon = gdspy.boolean(polygon,
+                                        gdspy.PolygonSet(poly_list),
+                                        "not",
+                                        layer=0,
+                                        precision=1e-6)
+            # There is nothing left of polygons that are filled by holes.
+            if polygon is not None:
+                filled_polygons.append(polygon)
+        gds_polygons = filled_polygons
 
     for polygon in gds_polygons:
         poly_cell.add(polygon)
-- 
2.43.0


From 9611c85b16d3a0a918ff8ad52c80257ca646399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:39 +0000
Subject: [PATCH 112/122] fix: selection matrix averages each pixel with the
 next one

---
 spins/gridlock/selection_matrix.py       | 6 +++---
 spins/invdes/problem/selection_matrix.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spins/gridlock/selection_matrix.py b/spins/gridlock/selection_matrix.py
index 55fd8a2..3476f37 100644
--- a/spins/gridlock/selection_matrix.py
+++ b/spins/gridlock/selection_matrix.py
@@ -47,7 +47,7 @@ def average_2xFarEdge(grid_size, design_bounds):
     # X grid averages pixels adjacent in x.
     I0 = scipy.sparse.identity(design_area[0], format='csr')
 
-    I0_shift_x = scipy.sparse.hstack([I0[:, 1:], I0[:, :1]], format='csr')
+    I0_shift_x = scipy.sparse.hstack([I0[:, -1:], I0[:, :-1]], format='csr')
     I0_shift_x[-1, 0] = 0
     I0_shift_x[-1, -1] = 1
 
@@ -64,8 +64,8 @@ def average_2xFarEdge(grid_size, design_bounds):
     Sy_flat_preshift = scipy.sparse.block_diag(
         [Sy_flat_block] * design_area[1], format='csr')
 
-    Sy_flat_shift = scipy.sparse.hstack((Sy_flat_preshift[:, design_area[0]:],
-                                         Sy_flat_preshift[:, :design_area[0]]),
+    Sy_flat_shift = scipy.sparse.hstack((Sy_flat_preshift[:, -design_area[0]:],
+                                         Sy_flat_preshift[:, :-design_area[0]]),
                                         format='csr')
     excess = Sy_flat_shift[:, 0:design_area[0]]
     # Undo circular part of shift.
diff --git a/spins/invdes/problem/selection_matrix.py b/spins/invdes/problem/selection_matrix.py
index 38743e7..3b813c7 100644
--- a/spins/invdes/problem/selection_matrix.py
+++ b/spins/invdes/problem/selection_matrix.py
@@ -41,7 +41,7 @@ def average_2xFarEdge(grid_size, design_bounds):
     # X grid averages pixels adjacent in x.
     I0 = scipy.sparse.identity(design_area[0], format='csr')
 
-    I0_shift_x = scipy.sparse.hstack([I0[:, 1:], I0[:, :1]], format='csr')
+    I0_shift_x = scipy.sparse.hstack([I0[:, -1:], I0[:, :-1]], format='csr')
     I0_shift_x[-1, 0] = 0
     I0_shift_x[-1, -1] = 1
 
@@ -58,8 +58,8 @@ def average_2xFarEdge(grid_size, design_bounds):
         [Sy_flat_block] * design_area[1], format='csr')
 
     Sy_flat_shift = scipy.sparse.hstack(
-        (Sy_flat_preshift[:, design_area[0]:],
-         Sy_flat_preshift[:, :design_area[0]]),
+        (Sy_flat_preshift[:, -design_area[0]:],
+         Sy_flat_preshift[:, :-design_area[0]]),
         format='csr')
     excess = Sy_flat_shift[:, 0:design_area[0]]
     # Undo circular part of shift.
-- 
2.43.0


From 47e86e7f0c57cef4c645c2921778f2c116fb4d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:05 +0000
Subject: [PATCH 113/122] Revert the change to monitor_spec.py (taken for a
 test file by its name)

---
 spins/invdes/problem_graph/log_tools/monitor_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/log_tools/monitor_spec.py b/spins/invdes/problem_graph/log_tools/monitor_spec.py
index ab1687c..59351b6 100644
--- a/spins/invdes/problem_graph/log_tools/monitor_spec.py
+++ b/spins/invdes/problem_graph/log_tools/monitor_spec.py
@@ -179,5 +179,5 @@ def load_from_yml(filename: str) -> MonitorDescriptionList:
         MonitorDescriptionList object containing the monitor spec information.
     """
     with open(filename) as fp:
-        monitor_descriptions = MonitorDescriptionList(yaml.safe_load(fp))
+        monitor_descriptions = MonitorDescriptionList(yaml.load(fp))
     return monitor_descriptions
-- 
2.43.0


From 1ba09bba7749a4a0c3e9082f67240b738af7a5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:23 +0000
Subject: [PATCH 114/122] fix: overlapping shapes are drawn right in any unit
 of length

---
 spins/gridlock/grid.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index cb4533e..15ce909 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -750,8 +750,16 @@ class Grid:
             if check_bounding_box(polygon_1, polygon_2):
                 gds_poly1 = gdspy.Polygon(polygon_1, 0)
                 gds_poly2 = gdspy.Polygon(polygon_2, 0)
+                # `gdspy` rounds the vertices to `precision`, which must be
+                # small compared to the polygons, whatever their units are.
+                precision = 1e-12 * max(
+                    np.max(np.abs(polygon_1)), np.max(np.abs(polygon_2)))
                 gds_poly = gdspy.fast_boolean(
-                    gds_poly1, gds_poly2, 'not', layer=1)
+                    gds_poly1,
+                    gds_poly2,
+                    'not',
+                    precision=precision,
+                    layer=1)
                 if gds_poly is None:
                     return []
                 else:
-- 
2.43.0


From e1aa40e2fdd72f456673378b6bf5369852245b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:36 +0000
Subject: [PATCH 115/122] fix: rounding errors do not add a cell to the
 simulation grid

---
 spins/invdes/problem_graph/simspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/simspace.py b/spins/invdes/problem_graph/simspace.py
index 6ef9024..ff75288 100644
--- a/spins/invdes/problem_graph/simspace.py
+++ b/spins/invdes/problem_graph/simspace.py
@@ -187,8 +187,9 @@ def _create_edge_coords(sim_region: optplan.Box3d,
 
     edge_coords = []
     for i in range(3):
+        # Stop slightly early as otherwise rounding errors can add a cell.
         edge_coords.append(
-            np.arange(xyz_min[i] - dx / 2, xyz_max[i] + dx / 2, dx))
+            np.arange(xyz_min[i] - dx / 2, xyz_max[i] + dx / 2 - 1e-6 * dx, dx))
 
     return edge_coords
 
-- 
2.43.0


From 8ee8a80f6421733d1c8ba663d0a16a76d817d606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:23 +0000
Subject: [PATCH 116/122] fix: gaussian beams along x and y are placed at their
 center

---
 spins/fdfd_tools/free_space_sources.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spins/fdfd_tools/free_space_sources.py b/spins/fdfd_tools/free_space_sources.py
index 04d1911..e50a1fc 100644
--- a/spins/fdfd_tools/free_space_sources.py
+++ b/spins/fdfd_tools/free_space_sources.py
@@ -400,8 +400,10 @@ def build_gaussian_source(eps_grid: Grid,
     """
     # Make scalar fields.
     eps_val = np.real(np.average(eps_grid.grids[0][tuple(slices)]))
+    # The scalar field propagates along z, so the axes have to be reordered.
+    beam_center = [center[i] for i in np.roll(range(3), 2 - axis)]
     scalar_field_function = lambda x, y, z, R: gaussian_beam_z_axis_x_pol(
-        x, y, z, w0, center, R, omega, polarity, eps_val)
+        x, y, z, w0, beam_center, R, omega, polarity, eps_val)
 
     # Get vector fields.
     fields = scalar2rotated_vector_fields(
-- 
2.43.0


From 719a700145c72e6f26e3d87d647011816d595888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:02 +0000
Subject: [PATCH 117/122] fix: plane wave sources emit the power asked for

---
 spins/fdfd_tools/free_space_sources.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/spins/fdfd_tools/free_space_sources.py b/spins/fdfd_tools/free_space_sources.py
index e50a1fc..250c6cb 100644
--- a/spins/fdfd_tools/free_space_sources.py
+++ b/spins/fdfd_tools/free_space_sources.py
@@ -321,14 +321,15 @@ def build_plane_wave_source(eps_grid: Grid,
     slices_P = [
         slice(sl.start + b, sl.stop - b) for sl, b in zip(slices_P, border)
     ]
-    P = waveguide_mode.compute_transmission_chew(E=fields['E'],
-                                                 H=fields['H'],
-                                                 axis=axis,
-                                                 omega=omega,
-                                                 dxes=dxes,
-                                                 slices=slices_P)
-    fields['E'] /= np.sqrt(abs(P))
-    fields['H'] /= np.sqrt(abs(P))
+    # The time-averaged power is half of the integral of E x H*.
+    P = 0.5 * waveguide_mode.compute_transmission_chew(E=fields['E'],
+                                                       H=fields['H'],
+                                                       axis=axis,
+                                                       omega=omega,
+                                                       dxes=dxes,
+                                                       slices=slices_P)
+    fields['E'] /= np.sqrt(abs(P) / power)
+    fields['H'] /= np.sqrt(abs(P) / power)
     fields['E'] = [mask * e for e in fields['E']]
     fields['H'] = [mask * h for h in fields['H']]
 
-- 
2.43.0


From 63178cd5af0b71b132fc6cda1840f3b629a24603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:54 +0000
Subject: [PATCH 118/122] fix: modes of absorbing waveguides can be calculated

---
 spins/fdfd_solvers/waveguide_mode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spins/fdfd_solvers/waveguide_mode.py b/spins/fdfd_solvers/waveguide_mode.py
index da605ec..1eff9b0 100644
--- a/spins/fdfd_solvers/waveguide_mode.py
+++ b/spins/fdfd_solvers/waveguide_mode.py
@@ -1,4 +1,6 @@
 import copy
+import warnings
+
 import numpy as np
 import scipy.sparse as sparse
 import scipy.sparse.linalg as spalg
-- 
2.43.0


From 86c50a2ac70febce616f56b59764869ba60bd7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:12 +0000
Subject: [PATCH 119/122] fix: rounding errors do not take away an absorbing
 layer

---
 spins/goos_sim/maxwell/simulate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/goos_sim/maxwell/simulate.py b/spins/goos_sim/maxwell/simulate.py
index 9ef6ef7..adc40b7 100644
--- a/spins/goos_sim/maxwell/simulate.py
+++ b/spins/goos_sim/maxwell/simulate.py
@@ -481,7 +481,7 @@ class SimulateNode(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
         self._bloch_vector = [0, 0, 0]
         self._wlen = wavelength
         self._pml_layers = [
-            int(length / self._simspace.mesh.dx)
+            int(length / self._simspace.mesh.dx + 1e-6)
             for length in self._simspace.pml_thickness
         ]
         self._symmetry = simulation_space.reflection_symmetry
@@ -728,7 +728,7 @@ class SimulateEigNode(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
             self._bloch_vector = np.array([0, 0, 0])
         self._wlen = wavelength  #this will be used for the initial guess
         self._pml_layers = [
-            int(length / self._simspace.mesh.dx)
+            int(length / self._simspace.mesh.dx + 1e-6)
             for length in self._simspace.pml_thickness
         ]
         self._symmetry = simulation_space.reflection_symmetry
-- 
2.43.0


From b31e6468b34a1ecf291425826fab4791d911abb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:53 +0000
Subject: [PATCH 120/122] fix: polygons without area do not cover anything

---
 spins/gridlock/float_raster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spins/gridlock/float_raster.py b/spins/gridlock/float_raster.py
index f7fffe4..2e4a0e6 100644
--- a/spins/gridlock/float_raster.py
+++ b/spins/gridlock/float_raster.py
@@ -438,13 +438,17 @@ def raster_2D(poly_xy: np.ndarray,
                          " elements, got sizes of {} and {} respectively."
                          .format(grid_x.size, grid_y.size))
 
+    # A polygon without width or without height does not cover anything.
+    if np.any(poly_xy.min(axis=1) == poly_xy.max(axis=1)):
+        return np.zeros((grid_x.size - 1, grid_y.size - 1))
+
     # Oversample the polygon by including its intersection with the grid as
     # new vertices.
     vertices = _expand_polygon_vertices(poly_xy, grid_x, grid_y)
 
     # If the shape fell completely outside our area, just return a blank grid.
     if vertices.size == 0:
-        return zeros((grid_x.size - 1, grid_y.size - 1))
+        return np.zeros((grid_x.size - 1, grid_y.size - 1))
     # Calculate segment cover, area, and corresponding pixel's subscripts.
     poly = np.hstack((vertices, vertices[0]))
     endpoint_avg = (poly[:-1] + poly[1:]) * 0.5
-- 
2.43.0


From 43db3643748603aa8b0a1ce120658830b7692820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:44 +0000
Subject: [PATCH 121/122] fix: mode solver accepts a converged mode whose
 shifted operator is singular

---
 spins/fdfd_solvers/waveguide_mode.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spins/fdfd_solvers/waveguide_mode.py b/spins/fdfd_solvers/waveguide_mode.py
index 1eff9b0..1c67cf6 100644
--- a/spins/fdfd_solvers/waveguide_mode.py
+++ b/spins/fdfd_solvers/waveguide_mode.py
@@ -77,7 +77,11 @@ def solve_waveguide_mode_2d(
         if np.linalg.norm(A @ v - eigval * v) < 1e-13:
             break
         w = spalg.spsolve(A - eigval * sparse.eye(A.shape[0]), v)
-        v = w / np.linalg.norm(w)
+        w_norm = np.linalg.norm(w)
+        if not np.isfinite(w_norm):
+            # The shifted operator is exactly singular: `eigval` has converged.
+            break
+        v = w / w_norm
 
     # Calculate the wave-vector (force the real part to be positive)
     wavenumber = np.sqrt(eigval)
-- 
2.43.0


From c1a8221f0c6e2de0b4e199362af8ce5af2268839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:13 +0000
Subject: [PATCH 122/122] fix: mode solver keeps to the mode asked for when
 modes are degenerate

---
 spins/fdfd_solvers/waveguide_mode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/fdfd_solvers/waveguide_mode.py b/spins/fdfd_solvers/waveguide_mode.py
index 1c67cf6..8c48df0 100644
--- a/spins/fdfd_solvers/waveguide_mode.py
+++ b/spins/fdfd_solvers/waveguide_mode.py
@@ -73,7 +73,7 @@ def solve_waveguide_mode_2d(
 
     eigval = None
     for _ in range(40):
-        eigval = v @ A @ v
+        eigval = v.conj() @ A @ v
         if np.linalg.norm(A @ v - eigval * v) < 1e-13:
             break
         w = spalg.spsolve(A - eigval * sparse.eye(A.shape[0]), v)
-- 
2.43.0

