From bcbec4a3ec7472fbe26e8f575d3d190cc2f53674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:39 +0000
Subject: [PATCH 01/51] fix: Translate, Scale, Rotate and RotateAxisAngle
 report and use the requested dtype

---
 src/pytorch_kinematics/transforms/transform3d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 51f381e..f77f136 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -489,7 +489,7 @@ class Translate(Transform3d):
                 - A torch scalar
                 - A 1D torch tensor
         """
-        super().__init__(device=device)
+        super().__init__(dtype=dtype, device=device)
         xyz = _handle_input(x, y, z, dtype, device, "Translate")
         N = xyz.shape[0]
 
@@ -526,7 +526,7 @@ class Scale(Transform3d):
                 - torch scalar
                 - 1D torch tensor
         """
-        super().__init__(device=device)
+        super().__init__(dtype=dtype, device=device)
         xyz = _handle_input(x, y, z, dtype, device, "scale", allow_singleton=True)
         N = xyz.shape[0]
 
@@ -561,7 +561,7 @@ class Rotate(Transform3d):
             orthogonal_tol: tolerance for the test of the orthogonality of R
 
         """
-        super().__init__(device=device)
+        super().__init__(dtype=dtype, device=device)
         if not torch.is_tensor(R):
             R = torch.tensor(R, dtype=dtype, device=device)
         R = R.to(dtype=dtype).to(device=device)
@@ -627,7 +627,7 @@ class RotateAxisAngle(Rotate):
         # is for transforming column vectors. Therefore we transpose this matrix.
         # R will always be of shape (N, 3, 3)
         R = _axis_angle_rotation(axis, angle)
-        super().__init__(device=device, R=R)
+        super().__init__(dtype=dtype, device=device, R=R)
 
 
 def _handle_coord(c, dtype, device):
-- 
2.43.0


From 2b6fa177d39a3b2cd26f127b60cdb67a615e52b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:39 +0000
Subject: [PATCH 02/51] fix: build translations, scalings and rotations in the
 dtype of the transform they are composed with

---
 .../transforms/transform3d.py                 | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index f77f136..0593a00 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -409,16 +409,18 @@ class Transform3d:
         return shape_operators_out
 
     def translate(self, *args, **kwargs):
-        return self.compose(Translate(device=self.device, *args, **kwargs))
+        return self.compose(Translate(device=self.device, *args, **_with_dtype(self.dtype, args, kwargs)))
 
     def scale(self, *args, **kwargs):
-        return self.compose(Scale(device=self.device, *args, **kwargs))
+        return self.compose(Scale(device=self.device, *args, **_with_dtype(self.dtype, args, kwargs)))
 
     def rotate(self, *args, **kwargs):
-        return self.compose(Rotate(device=self.device, *args, **kwargs))
+        return self.compose(Rotate(device=self.device, *args, **_with_dtype(self.dtype, args, kwargs)))
 
     def rotate_axis_angle(self, *args, **kwargs):
-        return self.compose(RotateAxisAngle(device=self.device, *args, **kwargs))
+        # the rotation is computed in double precision by default
+        rot = RotateAxisAngle(device=self.device, *args, **kwargs)
+        return self.compose(rot.to(device=self.device, dtype=self.dtype))
 
     def sample_perturbations(self, num_perturbations, radian_sigma, translation_sigma):
         mat = self.get_matrix()
@@ -630,6 +632,16 @@ class RotateAxisAngle(Rotate):
         super().__init__(dtype=dtype, device=device, R=R)
 
 
+def _with_dtype(dtype, args, kwargs):
+    """
+    Helper function for building a transform to compose with another one: unless a dtype
+    is given explicitly, use that of the other transform.
+    """
+    if not any(isinstance(arg, torch.dtype) for arg in args):
+        kwargs.setdefault("dtype", dtype)
+    return kwargs
+
+
 def _handle_coord(c, dtype, device):
     """
     Helper function for _handle_input.
-- 
2.43.0


From 2188d1c7954eaf66f87ca4119097a39d820d13e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:39 +0000
Subject: [PATCH 03/51] fix: transform_points and transform_normals with
 batch_to_batch apply each transform to its own element

---
 src/pytorch_kinematics/transforms/transform3d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 0593a00..015085a 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -331,8 +331,8 @@ class Transform3d:
         points_batch = torch.cat([points_batch, ones], dim=2)
 
         composed_matrix = self.get_matrix().transpose(-1, -2)
-        if batch_to_batch:
-            points_out = linalg.batch_batch_product(points_batch, composed_matrix)
+        if batch_to_batch and points.dim() == 2:
+            points_out = linalg.batch_batch_product(points_batch[0], self.get_matrix())
         else:
             points_out = _broadcast_bmm(points_batch, composed_matrix)
         denom = points_out[..., 3:]  # denominator
@@ -366,8 +366,8 @@ class Transform3d:
             raise ValueError(msg % (normals.shape,))
         mat = self.inverse().get_matrix()[:, :3, :3]
 
-        if batch_to_batch:
-            normals_out = linalg.batch_batch_product(normals, mat)
+        if batch_to_batch and normals.dim() == 2:
+            normals_out = linalg.batch_batch_product(normals, mat.transpose(-1, -2))
         else:
             normals_out = _broadcast_bmm(normals, mat)
 
-- 
2.43.0


From 3a4f82b3e9615751eed35eb2ae5d46f35b86fbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:00 +0000
Subject: [PATCH 04/51] fix: quaternion_slerp and quaternion_angular_distance
 treat each pair on its own and leave their arguments alone

---
 src/pytorch_kinematics/transforms/math.py | 40 ++++++++++++++---------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/math.py b/src/pytorch_kinematics/transforms/math.py
index 9a315b7..d2ae49e 100644
--- a/src/pytorch_kinematics/transforms/math.py
+++ b/src/pytorch_kinematics/transforms/math.py
@@ -25,14 +25,22 @@ def quaternion_angular_distance(q1: torch.Tensor, q2: torch.Tensor) -> torch.Ten
     # we use atan2 instead of acos for better numerical stability
     cos_theta = torch.clamp(cos_theta, -1.0, 1.0)
     abs_dot = torch.abs(cos_theta)
+    # theta for the ones that are close gets 0 and we don't care about them
+    close = _quaternion_close_mask(q1, q2)
     # identity sin^2(theta) = 1 - cos^2(theta)
-    sin_half_theta = torch.sqrt(1.0 - torch.square(abs_dot))
+    sin_half_theta = torch.sqrt(torch.where(close, torch.ones_like(abs_dot), 1.0 - torch.square(abs_dot)))
     theta = 2.0 * torch.atan2(sin_half_theta, abs_dot)
 
-    # theta for the ones that are close gets 0 and we don't care about them
-    close = quaternion_close(q1, q2)
-    theta[close] = 0
-    return theta
+    return torch.where(close, torch.zeros_like(theta), theta)
+
+
+def _quaternion_close_mask(q1: torch.Tensor, q2: torch.Tensor, eps: float = 1e-4):
+    """
+    Returns, for each pair, whether the two quaternions are close to each other.
+    Based on: https://math.stackexchange.com/a/90098/516340
+    """
+    dist = 1 - torch.square(torch.sum(q1 * q2, dim=-1))
+    return dist < eps
 
 
 def quaternion_close(q1: torch.Tensor, q2: torch.Tensor, eps: float = 1e-4):
@@ -41,8 +49,7 @@ def quaternion_close(q1: torch.Tensor, q2: torch.Tensor, eps: float = 1e-4):
     Based on: https://math.stackexchange.com/a/90098/516340
 
     """
-    dist = 1 - torch.square(torch.sum(q1 * q2, dim=-1))
-    return torch.all(dist < eps)
+    return torch.all(_quaternion_close_mask(q1, q2, eps))
 
 
 def quaternion_slerp(q1: torch.Tensor, q2: torch.Tensor, t: Union[float, torch.tensor]) -> torch.Tensor:
@@ -56,25 +63,26 @@ def quaternion_slerp(q1: torch.Tensor, q2: torch.Tensor, t: Union[float, torch.t
         Interpolated quaternion.
     """
     # Compute the cosine of the angle between the two quaternions
-    cos_theta = torch.sum(q1 * q2, dim=-1)
+    cos_theta = torch.sum(q1 * q2, dim=-1, keepdim=True)
 
     # reverse the direction of q2 if q1 and q2 are not in the same hemisphere
-    to_invert = cos_theta < 0
-    q2[to_invert] = -q2[to_invert]
-    cos_theta[to_invert] = -cos_theta[to_invert]
+    q2 = torch.where(cos_theta < 0, -q2, q2)
+    cos_theta = torch.abs(cos_theta)
+
+    if torch.is_tensor(t) and t.dim() > 0:
+        t = t.unsqueeze(-1)
 
     # If the quaternions are close, perform a linear interpolation
-    if torch.all(cos_theta > 1.0 - 1e-6):
-        return q1 + t * (q2 - q1)
+    close = cos_theta > 1.0 - 1e-6
 
-    # Ensure the angle is between 0 and pi
-    theta = torch.acos(cos_theta)
+    # Ensure the angle is between 0 and pi, and away from 0 where sin_theta would vanish
+    theta = torch.acos(torch.where(close, torch.zeros_like(cos_theta), cos_theta))
     sin_theta = torch.sin(theta)
 
     # Perform the interpolation
     w1 = torch.sin((1.0 - t) * theta) / sin_theta
     w2 = torch.sin(t * theta) / sin_theta
-    return w1[:, None] * q1 + w2[:, None] * q2
+    return torch.where(close, q1 + t * (q2 - q1), w1 * q1 + w2 * q2)
 
 
 def acos_linear_extrapolation(
-- 
2.43.0


From 23c36871d7ff9f01dab882bbcc6b39a7b201aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 05/51] fix: quaternion_from_euler does not halve the caller's
 angles in place

---
 src/pytorch_kinematics/transforms/rotation_conversions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index 9d3b613..f6b428a 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -746,9 +746,9 @@ def quaternion_from_euler(rpy, axes='sxyz'):
     if parity:
         aj = -aj
 
-    ai /= 2.0
-    aj /= 2.0
-    ak /= 2.0
+    ai = ai / 2.0
+    aj = aj / 2.0
+    ak = ak / 2.0
     ci = torch.cos(ai)
     si = torch.sin(ai)
     cj = torch.cos(aj)
-- 
2.43.0


From 1949d942e7e1e69dd2bf813817874c83b39c6062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 06/51] fix: finite gradients of the axis-angle and quaternion
 conversions at zero rotation

---
 .../transforms/rotation_conversions.py               | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/rotation_conversions.py b/src/pytorch_kinematics/transforms/rotation_conversions.py
index f6b428a..dbbb728 100644
--- a/src/pytorch_kinematics/transforms/rotation_conversions.py
+++ b/src/pytorch_kinematics/transforms/rotation_conversions.py
@@ -579,8 +579,10 @@ def axis_angle_to_quaternion(axis_angle):
     # for x small, sin(x/2) is about x/2 - (x/2)^3/6
     # so sin(x/2)/x is about 1/2 - (x*x)/48
     small_theta = 0.5 - (angles * angles) / 48
-    large_theta = torch.sin(half_angles) / angles
-    sin_half_angles_over_angles = torch.where(angles.abs() < eps, small_theta, large_theta)
+    is_small = angles.abs() < eps
+    # keep the unselected branch finite, otherwise its gradient would be NaN at zero rotation
+    large_theta = torch.sin(half_angles) / torch.where(is_small, torch.ones_like(angles), angles)
+    sin_half_angles_over_angles = torch.where(is_small, small_theta, large_theta)
     quaternions = torch.cat(
         [torch.cos(half_angles), axis_angle * sin_half_angles_over_angles], dim=-1
     )
@@ -608,8 +610,10 @@ def quaternion_to_axis_angle(quaternions):
     # for x small, sin(x/2) is about x/2 - (x/2)^3/6
     # so sin(x/2)/x is about 1/2 - (x*x)/48
     small_theta = 0.5 - (angles * angles) / 48
-    large_theta = torch.sin(half_angles) / angles
-    sin_half_angles_over_angles = torch.where(angles.abs() < eps, small_theta, large_theta)
+    is_small = angles.abs() < eps
+    # keep the unselected branch finite, otherwise its gradient would be NaN at zero rotation
+    large_theta = torch.sin(half_angles) / torch.where(is_small, torch.ones_like(angles), angles)
+    sin_half_angles_over_angles = torch.where(is_small, small_theta, large_theta)
     return quaternions[..., 1:] / sin_half_angles_over_angles
 
 
-- 
2.43.0


From 56b720fb1ec23dfe130257d94884ced0efce38cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 07/51] fix: Frame keeps the children it is constructed with

---
 src/pytorch_kinematics/frame.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/frame.py b/src/pytorch_kinematics/frame.py
index 0c35d84..35af508 100644
--- a/src/pytorch_kinematics/frame.py
+++ b/src/pytorch_kinematics/frame.py
@@ -100,8 +100,7 @@ class Frame(object):
         self.name = 'None' if name is None else name
         self.link = link if link is not None else Link()
         self.joint = joint if joint is not None else Joint()
-        if children is None:
-            self.children = []
+        self.children = [] if children is None else list(children)
 
     def __str__(self, prefix='', root=True):
         pointers = [tee] * (len(self.children) - 1) + [last]
-- 
2.43.0


From 6d507dd1d76838c1910d9c1fafa8b78c2777bf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 08/51] fix: get_joints and get_joint_parameter_names include
 fixed joints when asked to

---
 src/pytorch_kinematics/chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index d14d008..47e2901 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -407,10 +407,10 @@ class Chain:
     @staticmethod
     def _get_joints(frame, exclude_fixed=True):
         joints = []
-        if exclude_fixed and frame.joint.joint_type != "fixed":
+        if not (exclude_fixed and frame.joint.joint_type == "fixed"):
             joints.append(frame.joint)
         for child in frame.children:
-            joints.extend(Chain._get_joints(child))
+            joints.extend(Chain._get_joints(child, exclude_fixed))
         return joints
 
     def get_joints(self, exclude_fixed=True):
-- 
2.43.0


From ed48b4954cb72bf2f91915080ad60bb2f5ae83d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 09/51] fix: SerialChain.forward_kinematics accepts a dict of
 scalar joint values

---
 src/pytorch_kinematics/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 47e2901..187ae92 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -191,7 +191,7 @@ def get_batch_size(th):
         return th.shape[0]
     elif isinstance(th, dict):
         elem_shape = get_dict_elem_shape(th)
-        return elem_shape[0]
+        return elem_shape[0] if len(elem_shape) > 0 else 1
     elif isinstance(th, list):
         # Lists cannot be batched. We don't allow lists of lists.
         return 1
-- 
2.43.0


From c3b63004d89c99d3a0f2ec5d38732229a77df366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 10/51] fix: SerialChain.jacobian accepts a dict of joint
 values as documented

---
 src/pytorch_kinematics/chain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 187ae92..ba539fc 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -769,7 +769,9 @@ class SerialChain(Chain):
 
         Returns: (B, 6, ndof) Jacobian, and optionally (B, 4, 4) EEF pose
         """
-        if not torch.is_tensor(th):
+        if isinstance(th, dict):
+            th = self.ensure_tensor(th)
+        elif not torch.is_tensor(th):
             th = torch.tensor(th, dtype=self.dtype, device=self.device)
         if len(th.shape) <= 1:
             th = th.reshape(1, -1)
-- 
2.43.0


From 39fbb4e3cf6431cad0397237eb877535c8001897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 11/51] fix: forward kinematics refuses an input with the wrong
 number of joints

---
 src/pytorch_kinematics/chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index ba539fc..d392f7b 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -521,6 +521,9 @@ class Chain:
 
         Returns: (num_frames, B, 4, 4) tensor of all frame transforms
         """
+        if th.shape[-1] != self.n_joints:
+            # a single column would otherwise broadcast and drive every joint
+            raise ValueError(f'Expected {self.n_joints} joint values, got {th.shape[-1]}.')
         if th.requires_grad and analytical_grad:
             # Compute FK on detached th (no autograd graph needed for forward)
             T_world_link = _fk_impl(
-- 
2.43.0


From 69bacfd79281ad801785ef68c183d9eee800caa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 12/51] fix: a SerialChain takes the dtype and device of the
 chain it is cut from

---
 src/pytorch_kinematics/chain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index d392f7b..9266e44 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -660,6 +660,8 @@ class SerialChain(Chain):
         root_frame = chain._root if root_frame_name == "" else chain.find_frame(root_frame_name)
         if root_frame is None:
             raise ValueError("Invalid root frame name %s." % root_frame_name)
+        kwargs.setdefault('dtype', chain.dtype)
+        kwargs.setdefault('device', chain.device)
         chain = Chain(root_frame, **kwargs)
 
         # make a copy of those frames that includes only the chain up to the end effector
-- 
2.43.0


From 8821e44b33bc9d6301e655b605ab7b79ba7def50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 13/51] fix: a Chain creates all its tensors in its own dtype
 and device

---
 src/pytorch_kinematics/chain.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 9266e44..415489b 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -274,12 +274,12 @@ class Chain:
             if root.link.offset is None:
                 self.link_offsets.append(None)
             else:
-                self.link_offsets.append(root.link.offset.get_matrix())
+                self.link_offsets.append(root.link.offset.get_matrix().to(dtype=self.dtype, device=self.device))
 
             if root.joint.offset is None:
                 self.joint_offsets.append(None)
             else:
-                self.joint_offsets.append(root.joint.offset.get_matrix())
+                self.joint_offsets.append(root.joint.offset.get_matrix().to(dtype=self.dtype, device=self.device))
 
             if is_fixed:
                 self.joint_indices.append(-1)
@@ -296,8 +296,8 @@ class Chain:
                 queue.append((child, idx, depth + 1))
 
             idx += 1
-        self.joint_type_indices = torch.tensor(self.joint_type_indices)
-        self.joint_indices = torch.tensor(self.joint_indices)
+        self.joint_type_indices = torch.tensor(self.joint_type_indices, dtype=torch.long, device=self.device)
+        self.joint_indices = torch.tensor(self.joint_indices, dtype=torch.long, device=self.device)
         # We need to use a dict because torch.compile doesn't list lists of tensors
         self.parents_indices = [torch.tensor(p, dtype=torch.long, device=self.device) for p in self.parents_indices]
 
-- 
2.43.0


From eab5d7f260e1424bb11518680494dd64f2f2363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 14/51] fix: get_frame_indices returns indices on the current
 device after the chain is moved

---
 src/pytorch_kinematics/chain.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 415489b..4aec7fc 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -494,7 +494,6 @@ class Chain:
         names = self._get_link_names(self._root)
         return sorted(set(names), key=names.index)
 
-    @lru_cache
     def get_frame_indices(self, *frame_names):
         return torch.tensor([self.frame_to_idx[n] for n in frame_names], dtype=torch.long, device=self.device)
 
-- 
2.43.0


From 88232f47a799aa5c1e4e2298ae35d9f07be4200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 15/51] fix: moving a link moves the offsets of its visuals too

---
 src/pytorch_kinematics/frame.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/frame.py b/src/pytorch_kinematics/frame.py
index 35af508..e417f02 100644
--- a/src/pytorch_kinematics/frame.py
+++ b/src/pytorch_kinematics/frame.py
@@ -33,6 +33,9 @@ class Link(object):
     def to(self, *args, **kwargs):
         if self.offset is not None:
             self.offset = self.offset.to(*args, **kwargs)
+        for visual in self.visuals:
+            if visual.offset is not None:
+                visual.offset = visual.offset.to(*args, **kwargs)
         return self
 
     def __repr__(self):
-- 
2.43.0


From 48985bec6addf8d9befcde8eb026b5f7f4e9650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 16/51] fix: inverse kinematics samples initial configurations
 in the chain's dtype

---
 src/pytorch_kinematics/ik.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 66962cd..01a81f9 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -376,10 +376,10 @@ class InverseKinematics:
             # bound by joint_limits
             if self.joint_limits is None:
                 raise ValueError("joint_limits must be specified if config_sampling_method is uniform")
-            return torch.rand(num_configs, self.dof, device=self.device) * (
+            return torch.rand(num_configs, self.dof, device=self.device, dtype=self.dtype) * (
                     self.joint_limits[:, 1] - self.joint_limits[:, 0]) + self.joint_limits[:, 0]
         elif self.config_sampling_method == "gaussian":
-            return torch.randn(num_configs, self.dof, device=self.device)
+            return torch.randn(num_configs, self.dof, device=self.device, dtype=self.dtype)
         elif callable(self.config_sampling_method):
             return self.config_sampling_method(num_configs)
         else:
-- 
2.43.0


From 6b7f464f5856406946251090b22e96b28db7c19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 17/51] fix: wrapping revolute joints leaves joints without
 finite limits finite

---
 src/pytorch_kinematics/ik.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 01a81f9..7fadcd0 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -601,6 +601,8 @@ class PseudoInverseIK(InverseKinematics):
         center = (low + high) / 2
         # compute the number of 2*pi shifts needed to bring q closest to the center of the limits
         n = torch.round((center - q) / (2 * math.pi))
+        # without two finite limits there is no center to wrap to
+        n = torch.where(torch.isfinite(n), n, torch.zeros_like(n))
         # only apply to revolute joints
         q_wrapped = q.clone()
         q_wrapped[..., self._revolute_mask] = q[..., self._revolute_mask] + n[..., self._revolute_mask] * 2 * math.pi
-- 
2.43.0


From bb66fd9d4f00779568ee852a00d50632103ffcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 18/51] fix: inverse kinematics accepts initial configurations
 given per problem

---
 src/pytorch_kinematics/ik.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 7fadcd0..cec5034 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -360,7 +360,7 @@ class InverseKinematics:
         if retry_configs is None:
             self.initial_config = self.sample_configs(num_retries)
         else:
-            if retry_configs.shape[1] != self.dof:
+            if retry_configs.shape[-1] != self.dof:
                 raise ValueError("initial_configs must have shape (N, %d)" % self.dof)
         # could give a batch of initial configs
         self.num_retries = self.initial_config.shape[-2]
-- 
2.43.0


From 035cd63830c3e5a62a1b5bab24e56e09c2ecc01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 19/51] fix: clamp_to_limits also applies when only upper
 limits are finite

---
 src/pytorch_kinematics/ik.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index cec5034..55f6cc6 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -323,7 +323,8 @@ class InverseKinematics:
         self.debug = debug
         self.enforce_joint_limits = enforce_joint_limits
         self.num_limit_refinement_iterations = num_limit_refinement_iterations
-        self.clamp_to_limits = clamp_to_limits and torch.isfinite(serial_chain.low).any()
+        self.clamp_to_limits = clamp_to_limits and bool(
+            torch.isfinite(serial_chain.low).any() or torch.isfinite(serial_chain.high).any())
         # precompute which joints are revolute (for 2*pi wrapping)
         joints = self.chain.get_joints(exclude_fixed=True)
         self._revolute_mask = torch.tensor([j.joint_type == 'revolute' for j in joints],
-- 
2.43.0


From b09491ffc9593b6e17a2116c600a1cd3d8098e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:34 +0000
Subject: [PATCH 20/51] fix: the position and rotation flags of an IK solution
 describe the stored configuration

---
 src/pytorch_kinematics/ik.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 55f6cc6..563ad8c 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -190,8 +190,10 @@ class IKSolution:
         self.solutions = torch.where(not_converged_dof, qq, self.solutions)
         self.err_pos = torch.where(not_converged, err_pos, self.err_pos)
         self.err_rot = torch.where(not_converged, err_rot, self.err_rot)
-        self.converged_pos = self.converged_pos | converged_pos
-        self.converged_rot = self.converged_rot | converged_rot
+        self.converged_pos = torch.where(not_converged, converged_pos, self.converged_pos)
+        self.converged_rot = torch.where(not_converged, converged_rot, self.converged_rot)
+        self.converged_pos_any = self.converged_pos.any(dim=1)
+        self.converged_rot_any = self.converged_rot.any(dim=1)
         self.converged = self.converged | converged
         self.converged_any = self.converged_any | converged_any
 
-- 
2.43.0


From 2ba342cc31eb059b2df977a9cc1773976f28db3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:31 +0000
Subject: [PATCH 21/51] fix: a frame, link or joint with an offset can be moved
 to a dtype alone

---
 src/pytorch_kinematics/transforms/transform3d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 015085a..63e7a54 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -444,7 +444,7 @@ class Transform3d:
         other._matrix = self._matrix.clone()
         return other
 
-    def to(self, device, copy: bool = False, dtype=None):
+    def to(self, device=None, copy: bool = False, dtype=None):
         """
         Match functionality of torch.Tensor.to()
         If copy = True or the self Tensor is on a different device, the
@@ -453,7 +453,7 @@ class Transform3d:
         then self is returned.
 
         Args:
-          device: Device id for the new tensor.
+          device: Device id for the new tensor. If None, the device is kept.
           copy: Boolean indicator whether or not to clone self. Default False.
           dtype: If not None, casts the internal tensor variables
               to a given torch.dtype.
@@ -461,6 +461,8 @@ class Transform3d:
         Returns:
           Transform3d object.
         """
+        if device is None:
+            device = self.device
         if not copy and (dtype is None or self.dtype == dtype) and self.device == device:
             return self
         other = self.clone()
-- 
2.43.0


From 5c71fb84fc5f541a2ac171a5d27ef19898e387e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:21 +0000
Subject: [PATCH 22/51] fix: an empty dictionary of joint values is accepted
 for a robot without moving joints

---
 src/pytorch_kinematics/chain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 4aec7fc..103f80c 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -211,6 +211,8 @@ def ensure_2d_tensor(th, dtype, device):
 
 
 def get_dict_elem_shape(th_dict):
+    if len(th_dict) == 0:
+        return ()
     elem = th_dict[list(th_dict.keys())[0]]
     if isinstance(elem, np.ndarray):
         return elem.shape
-- 
2.43.0


From 93e1ac80beced10aa4cff33638e010e7f0753744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 23/51] fix: a dictionary of joint values may hold arrays

---
 src/pytorch_kinematics/chain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index 103f80c..e2901eb 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -584,6 +584,8 @@ class Chain:
             joint_names = self.get_joint_parameter_names()
             for joint_name, joint_position in th_dict.items():
                 jnt_idx = joint_names.index(joint_name)
+                if isinstance(joint_position, np.ndarray):
+                    joint_position = torch.tensor(joint_position, device=self.device, dtype=self.dtype)
                 th[..., jnt_idx] = joint_position
             if torch.any(torch.isnan(th)):
                 msg = "Missing values for the following joints:\n"
-- 
2.43.0


From d9dcde57b1130023ccbee836922ec0b7cea7d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:49 +0000
Subject: [PATCH 24/51] fix: the SVD step works for chains with fewer than six
 joints

---
 src/pytorch_kinematics/ik.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/ik.py b/src/pytorch_kinematics/ik.py
index 563ad8c..f8e109b 100644
--- a/src/pytorch_kinematics/ik.py
+++ b/src/pytorch_kinematics/ik.py
@@ -118,7 +118,7 @@ def _ik_step_kernel_svd(m_flat: torch.Tensor, target_pos: torch.Tensor, target_w
     if lm_damping > 0.0:
         mu = lm_damping * (dx_w * dx_w).sum(dim=1, keepdim=True).squeeze(2)  # (NM, 1)
         regularization = regularization + mu
-    U, D, Vh = torch.linalg.svd(J_w)
+    U, D, Vh = torch.linalg.svd(J_w, full_matrices=False)
     m_sv = D.shape[1]
     denom = D ** 2 + regularization
     prod = D / denom
-- 
2.43.0


From 068af00aa364ef82aaeb205ffae19896ad947c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:35 +0000
Subject: [PATCH 25/51] fix: the root joint of a SerialChain is created in the
 chain's dtype and device

---
 src/pytorch_kinematics/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index e2901eb..cb4e1da 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -686,7 +686,7 @@ class SerialChain(Chain):
         # The root frame's joint and link offset describe the transform from its parent
         # to itself, which is outside this serial chain. Reset them so the root acts as
         # the origin of the new coordinate system.
-        frames[0].joint = Joint()
+        frames[0].joint = Joint(dtype=chain.dtype, device=chain.device)
         frames[0].link.offset = None
 
         self._serial_frames = frames
-- 
2.43.0


From 74b966b10c558a8027eda916823a9fbde65417fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:35 +0000
Subject: [PATCH 26/51] fix: tool locations for the Jacobian may be tensors on
 the chain's device

---
 src/pytorch_kinematics/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/chain.py b/src/pytorch_kinematics/chain.py
index cb4e1da..c82ec16 100644
--- a/src/pytorch_kinematics/chain.py
+++ b/src/pytorch_kinematics/chain.py
@@ -796,7 +796,8 @@ class SerialChain(Chain):
             if isinstance(locations, tf.Transform3d):
                 tool = locations
             else:
-                tool = tf.Transform3d(pos=locations)
+                locations = torch.as_tensor(locations, dtype=self.dtype, device=self.device)
+                tool = tf.Transform3d(pos=locations, dtype=self.dtype, device=self.device)
             if tool.dtype != self.dtype or tool.device != self.device:
                 tool = tool.to(device=self.device, copy=True, dtype=self.dtype)
             tool_matrix = tool.get_matrix()
-- 
2.43.0


From 08701d2f695033f7756dd8876e9b0d4ae27f09b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:36 +0000
Subject: [PATCH 27/51] fix: Transform3d.to(copy=True) returns a copy when
 dtype and device already match

---
 src/pytorch_kinematics/transforms/transform3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 63e7a54..1004d94 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -468,7 +468,7 @@ class Transform3d:
         other = self.clone()
         other.device = device
         other.dtype = dtype if dtype is not None else other.dtype
-        other._matrix = self._matrix.to(device=device, dtype=dtype)
+        other._matrix = other._matrix.to(device=device, dtype=dtype)
         return other
 
     def cpu(self):
-- 
2.43.0


From 22fa70aad80e33c2bd59b6a56d36c90e8cab6e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:50 +0000
Subject: [PATCH 28/51] fix: URDF continuous joints have no position limits

A <limit effort velocity/> of a continuous joint was read as the position limits (0, 0).
---
 src/pytorch_kinematics/urdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 85d99fa..abdb98f 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -49,6 +49,9 @@ def _build_chain_recurse(root_frame, lmap, joints):
                 limits = (j.limit.lower, j.limit.upper)
             except AttributeError:
                 limits = None
+            if j.type == 'continuous':
+                # a continuous joint has no position limits, even when its <limit> gives effort and velocity
+                limits = None
             # URDF assumes symmetric velocity and effort limits
             try:
                 velocity_limits = (-j.limit.velocity, j.limit.velocity)
-- 
2.43.0


From af41b0127d61aee367fb82aef6d8a2725f94456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:50 +0000
Subject: [PATCH 29/51] fix: load URDF robots made of a single link

root_link was unbound when the document has no joints.
---
 src/pytorch_kinematics/urdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index abdb98f..15b87a6 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -115,6 +115,8 @@ def build_chain_from_urdf(data):
                 has_root[i] = False
             elif joints[j].parent == joints[i].child:
                 has_root[j] = False
+    if n_joints == 0:
+        root_link = lmap[robot.get_root()]
     for i in range(n_joints):
         if has_root[i]:
             root_link = lmap[joints[i].parent]
-- 
2.43.0


From 8524bf0f6560cfde310b10f13c485d673175a70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:50 +0000
Subject: [PATCH 30/51] fix: keep the type and size of URDF capsule visuals

---
 src/pytorch_kinematics/urdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 15b87a6..821389b 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -1,4 +1,4 @@
-from .urdf_parser_py.urdf import URDF, Mesh, Cylinder, Box, Sphere
+from .urdf_parser_py.urdf import URDF, Mesh, Cylinder, Capsule, Box, Sphere
 from . import frame
 from . import chain
 import torch
@@ -35,6 +35,9 @@ def _convert_visual(visual):
         elif isinstance(visual.geometry, Sphere):
             g_type = "sphere"
             g_param = visual.geometry.radius
+        elif isinstance(visual.geometry, Capsule):
+            g_type = "capsule"
+            g_param = (visual.geometry.radius, visual.geometry.length)
         else:
             g_type = None
             g_param = None
-- 
2.43.0


From 98004cabb868682d49a69573d3753f01cd7ee028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:50 +0000
Subject: [PATCH 31/51] fix: keep every visual of a URDF link

Only the first one was loaded.
---
 src/pytorch_kinematics/urdf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/urdf.py b/src/pytorch_kinematics/urdf.py
index 821389b..76f452f 100644
--- a/src/pytorch_kinematics/urdf.py
+++ b/src/pytorch_kinematics/urdf.py
@@ -44,6 +44,11 @@ def _convert_visual(visual):
         return frame.Visual(v_tf, g_type, g_param)
 
 
+def _convert_visuals(visuals):
+    # links without visuals keep a single empty one
+    return [_convert_visual(v) for v in visuals] or [_convert_visual(None)]
+
+
 def _build_chain_recurse(root_frame, lmap, joints):
     children = []
     for j in joints:
@@ -70,7 +75,7 @@ def _build_chain_recurse(root_frame, lmap, joints):
                                             velocity_limits=velocity_limits, effort_limits=effort_limits)
             link = lmap[j.child]
             child_frame.link = frame.Link(link.name, offset=_convert_transform(link.origin),
-                                          visuals=[_convert_visual(link.visual)])
+                                          visuals=_convert_visuals(link.visuals))
             child_frame.children = _build_chain_recurse(child_frame, lmap, joints)
             children.append(child_frame)
     return children
@@ -127,7 +132,7 @@ def build_chain_from_urdf(data):
     root_frame = frame.Frame(root_link.name)
     root_frame.joint = frame.Joint()
     root_frame.link = frame.Link(root_link.name, _convert_transform(root_link.origin),
-                                 [_convert_visual(root_link.visual)])
+                                 _convert_visuals(root_link.visuals))
     root_frame.children = _build_chain_recurse(root_frame, lmap, joints)
     return chain.Chain(root_frame)
 
-- 
2.43.0


From 906df79fc38b8e9bb07aa0f402d9351076e7a2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:19 +0000
Subject: [PATCH 32/51] fix: SDF poses are roll, pitch, yaw about fixed axes

The three angles were used in reverse, as yaw, pitch, roll.
---
 src/pytorch_kinematics/sdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 32ac177..cbfe688 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -14,7 +14,8 @@ def _convert_transform(pose):
     if pose is None:
         return tf.Transform3d()
     else:
-        return tf.Transform3d(rot=tf.euler_angles_to_matrix(torch.tensor(pose[3:]), "ZYX"), pos=pose[:3])
+        rpy = torch.tensor(pose[3:], dtype=torch.float32, device="cpu")
+        return tf.Transform3d(rot=tf.quaternion_from_euler(rpy, "sxyz"), pos=pose[:3])
 
 
 def _convert_visuals(visuals):
-- 
2.43.0


From cea42698a11d2e4118e8ef70afb0533d1fdb4e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:19 +0000
Subject: [PATCH 33/51] fix: SDF cylinder visuals keep their stated pose

---
 src/pytorch_kinematics/sdf.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index cbfe688..733fbfe 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -1,5 +1,4 @@
 import torch
-import math
 from .urdf_parser_py.sdf import SDF, Mesh, Cylinder, Box, Sphere
 from . import frame
 from . import chain
@@ -27,8 +26,6 @@ def _convert_visuals(visuals):
             g_param = v.geometry.filename
         elif isinstance(v.geometry, Cylinder):
             g_type = "cylinder"
-            v_tf = v_tf.compose(
-                tf.Transform3d(rot=tf.euler_angles_to_matrix(torch.tensor([0.5 * math.pi, 0, 0]), "ZYX")))
             g_param = (v.geometry.radius, v.geometry.length)
         elif isinstance(v.geometry, Box):
             g_type = "box"
-- 
2.43.0


From 3029ff03a6e2192006344e32f5493485bd788819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:19 +0000
Subject: [PATCH 34/51] fix: SDF limits given on one side only or not at all

The missing side was kept as None, which no limit can be computed from.
---
 src/pytorch_kinematics/sdf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 733fbfe..a25ac0b 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -53,6 +53,12 @@ def _build_chain_recurse(root_frame, lmap, joints):
                 limits = (j.axis.limit.lower, j.axis.limit.upper)
             except AttributeError:
                 limits = None
+            if limits == (None, None):
+                limits = None
+            elif limits is not None:
+                # a side that is not given is unlimited
+                limits = (float('-inf') if limits[0] is None else limits[0],
+                          float('inf') if limits[1] is None else limits[1])
             child_frame.joint = frame.Joint(j.name, offset=t_p.inverse().compose(t_c),
                                             joint_type=JOINT_TYPE_MAP[j.type], axis=j.axis.xyz, limits=limits)
             child_frame.link = frame.Link(link_c.name, offset=tf.Transform3d(),
-- 
2.43.0


From e02991d220eecc588acdedcfe90966cc37428975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:19 +0000
Subject: [PATCH 35/51] fix: SDF joints need no axis

Fixed joints have none; elsewhere it defaults to z, as in frame.Joint.
---
 src/pytorch_kinematics/sdf.py                | 2 +-
 src/pytorch_kinematics/urdf_parser_py/sdf.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index a25ac0b..09cd09a 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -60,7 +60,7 @@ def _build_chain_recurse(root_frame, lmap, joints):
                 limits = (float('-inf') if limits[0] is None else limits[0],
                           float('inf') if limits[1] is None else limits[1])
             child_frame.joint = frame.Joint(j.name, offset=t_p.inverse().compose(t_c),
-                                            joint_type=JOINT_TYPE_MAP[j.type], axis=j.axis.xyz, limits=limits)
+                                            joint_type=JOINT_TYPE_MAP[j.type], axis=j.axis.xyz if j.axis is not None else None, limits=limits)
             child_frame.link = frame.Link(link_c.name, offset=tf.Transform3d(),
                                           visuals=_convert_visuals(link_c.visuals))
             child_frame.children = _build_chain_recurse(child_frame, lmap, joints)
diff --git a/src/pytorch_kinematics/urdf_parser_py/sdf.py b/src/pytorch_kinematics/urdf_parser_py/sdf.py
index 74d8fc7..ee45c3a 100644
--- a/src/pytorch_kinematics/urdf_parser_py/sdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/sdf.py
@@ -235,7 +235,7 @@ class Joint(xmlr.Object):
 xmlr.reflect(Joint, tag='joint', params=[
     name_attribute,
     xmlr.Attribute('type', str, False),
-    xmlr.Element('axis', Axis),
+    xmlr.Element('axis', Axis, False),
     xmlr.Element('parent', str),
     xmlr.Element('child', str),
     pose_element
-- 
2.43.0


From b47fa65029548460ec72b75725fcddf077ef449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:19 +0000
Subject: [PATCH 36/51] fix: SDF links need no inertial element

---
 src/pytorch_kinematics/urdf_parser_py/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/sdf.py b/src/pytorch_kinematics/urdf_parser_py/sdf.py
index ee45c3a..a80ab34 100644
--- a/src/pytorch_kinematics/urdf_parser_py/sdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/sdf.py
@@ -255,7 +255,7 @@ class Link(xmlr.Object):
 
 xmlr.reflect(Link, tag='link', params=[
     name_attribute,
-    xmlr.Element('inertial', Inertial),
+    xmlr.Element('inertial', Inertial, False),
     xmlr.Attribute('kinematic', bool, False),
     xmlr.AggregateElement('visual', Visual, var='visuals'),
     xmlr.AggregateElement('collision', Collision, var='collisions'),
-- 
2.43.0


From 734b4b24c250bd4ea4e9fccf1dbab8d1a7602f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:19 +0000
Subject: [PATCH 37/51] fix: load SDF models made of a single link

---
 src/pytorch_kinematics/sdf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pytorch_kinematics/sdf.py b/src/pytorch_kinematics/sdf.py
index 09cd09a..b76fbd7 100644
--- a/src/pytorch_kinematics/sdf.py
+++ b/src/pytorch_kinematics/sdf.py
@@ -94,6 +94,10 @@ def build_chain_from_sdf(data):
                 has_root[i] = False
             elif joints[j].parent == joints[i].child:
                 has_root[j] = False
+    if n_joints == 0:
+        if len(lmap) != 1:
+            raise ValueError("a model without joints must have exactly one link")
+        root_link = next(iter(lmap.values()))
     for i in range(n_joints):
         if has_root[i]:
             root_link = lmap[joints[i].parent]
-- 
2.43.0


From 7225cd15d7f6585e750fe78560d0139de6e06da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:19 +0000
Subject: [PATCH 38/51] fix: MJCF joints that are not limited have no limits

They were loaded with the limits (0, 0).
---
 src/pytorch_kinematics/mjcf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/mjcf.py b/src/pytorch_kinematics/mjcf.py
index 3dc1857..ed14d02 100644
--- a/src/pytorch_kinematics/mjcf.py
+++ b/src/pytorch_kinematics/mjcf.py
@@ -37,10 +37,11 @@ def _build_chain_recurse(m, parent_frame, parent_body):
             if n_joints == 1:
                 # Find the joint for this body, again assuming there's only one joint per body.
                 joint = m.joint(body.jntadr[0])
+                limits = (joint.range[0], joint.range[1]) if joint.limited[0] else None
                 joint_offset = tf.Transform3d(pos=joint.pos)
                 child_joint = frame.Joint(joint.name, offset=joint_offset, axis=joint.axis,
                                           joint_type=JOINT_TYPE_MAP[joint.type[0]],
-                                          limits=(joint.range[0], joint.range[1]))
+                                          limits=limits)
             else:
                 child_joint = frame.Joint(body.name + "_fixed_joint")
             child_link = frame.Link(body.name, offset=tf.Transform3d(rot=body.quat, pos=body.pos))
-- 
2.43.0


From d6f12930d9a82ee05fa00f7a348bf95ba953ae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:19 +0000
Subject: [PATCH 39/51] fix: booleans in robot descriptions keep their value

bool('false') and bool('0') are True.
---
 .../urdf_parser_py/xml_reflection/core.py                  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 8659bde..694bf94 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -153,6 +153,13 @@ class BasicType(ValueType):
         return str(value)
 
     def from_string(self, value):
+        if self.type is bool:
+            # bool('false') and bool('0') are True
+            if value.strip().lower() in ('true', '1'):
+                return True
+            if value.strip().lower() in ('false', '0'):
+                return False
+            raise ValueError("Invalid boolean: {}".format(value))
         return self.type(value)
 
 
-- 
2.43.0


From 6a57e31eca70bdaf05439ef5127d17260214a4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:19 +0000
Subject: [PATCH 40/51] fix: refuse elements whose only attribute is missing

<parent/> without a link attribute was read as a link named 'None'.
---
 src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 694bf94..5d5def3 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -223,6 +223,8 @@ class SimpleElementType(ValueType):
 
     def from_xml(self, node, path):
         text = node.get(self.attribute)
+        if text is None:
+            raise Exception("Required attribute not set in XML: {}".format(self.attribute))
         return self.value_type.from_string(text)
 
     def write_xml(self, node, value):
-- 
2.43.0


From 20734cb2cb168856979da2d21e88dc49f9daa332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:19 +0000
Subject: [PATCH 41/51] fix: empty text elements are read as empty strings

They were read as the string 'None'.
---
 src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 5d5def3..0085614 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -130,7 +130,7 @@ class ValueType(object):
     """ Primitive value type """
 
     def from_xml(self, node, path):
-        return self.from_string(node.text)
+        return self.from_string(node.text or '')
 
     def write_xml(self, node, value):
         """
-- 
2.43.0


From 88217f4304a056ebd46c4533ae11894dd90e677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:19 +0000
Subject: [PATCH 42/51] fix: refuse documents of another root type

An SDF document given as URDF was read as an empty robot.
---
 .../urdf_parser_py/xml_reflection/core.py                 | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 0085614..2731322 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -614,6 +614,12 @@ class Object(YamlReflection):
         except Exception as e:
             raise ParseError(e, path)
 
+    @classmethod
+    def check_root(cls, node):
+        tag = cls.XML_REFL.tag
+        if tag is not None and node.tag != tag:
+            raise ParseError(Exception("Expected a document of type {}, got {}".format(tag, node.tag)), Path(node.tag))
+
     @classmethod
     def from_xml(cls, node, path):
         cur_type = get_type(cls)
@@ -622,6 +628,7 @@ class Object(YamlReflection):
     @classmethod
     def from_xml_string(cls, xml_string):
         node = etree.fromstring(xml_string)
+        cls.check_root(node)
         path = Path(cls.XML_REFL.tag, tree=etree.ElementTree(node))
         return cls.from_xml(node, path)
 
@@ -675,6 +682,7 @@ class Object(YamlReflection):
 
     def parse(self, xml_string):
         node = etree.fromstring(xml_string)
+        self.check_root(node)
         path = Path(self.XML_REFL.tag, tree=etree.ElementTree(node))
         self.read_xml(node, path)
         return self
-- 
2.43.0


From c9a524ce4ee870c595c5be14dad71e7d45800dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:58 +0000
Subject: [PATCH 43/51] fix: writing raw elements to XML must not empty the
 elements of the object

---
 src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 2731322..002b4e0 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -204,8 +204,9 @@ class RawType(ValueType):
     def write_xml(self, node, value):
         # @todo rying to insert an element at root level seems to screw up
         # pretty printing
+        # Append copies: lxml moves an element which is appended elsewhere
         children = xml_children(value)
-        list(map(node.append, children))
+        list(map(node.append, map(copy.deepcopy, children)))
         # Copy attributes
         for (attrib_key, attrib_value) in value.attrib.items():
             node.set(attrib_key, attrib_value)
-- 
2.43.0


From ca3e17ac96d51785b2683a871d2e30a65a6fc834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:58 +0000
Subject: [PATCH 44/51] fix: lump_aggregates orders the aggregates instead of
 appending them to themselves

---
 src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 002b4e0..7a9f5de 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -677,7 +677,8 @@ class Object(YamlReflection):
         self.aggregate_init()
         for param in self.XML_REFL.aggregates:
             for obj in self.get_aggregate_list(param.xml_var):
-                self.add_aggregate(param.var, obj)
+                self.aggregate_order.append(obj)
+                self.aggregate_type[obj] = param.xml_var
 
     """ Compatibility """
 
-- 
2.43.0


From 2a9c8804c56eceb201e96f50ccd9d76516452167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:58 +0000
Subject: [PATCH 45/51] fix: Actuator keeps the mechanicalReduction it is
 constructed with

---
 src/pytorch_kinematics/urdf_parser_py/urdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/urdf.py b/src/pytorch_kinematics/urdf_parser_py/urdf.py
index 65a7046..a9d7698 100644
--- a/src/pytorch_kinematics/urdf_parser_py/urdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/urdf.py
@@ -430,7 +430,7 @@ xmlr.reflect(PR2Transmission, tag='pr2_transmission', params=[
 class Actuator(xmlr.Object):
     def __init__(self, name=None, mechanicalReduction=1):
         self.name = name
-        self.mechanicalReduction = None
+        self.mechanicalReduction = mechanicalReduction
 
 
 xmlr.reflect(Actuator, tag='actuator', params=[
-- 
2.43.0


From 888fa2bcdc0fd07d9ef51035c73f533438a17d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:58 +0000
Subject: [PATCH 46/51] fix: URDF links keep and write the visual and collision
 they are given

---
 src/pytorch_kinematics/urdf_parser_py/urdf.py | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/urdf.py b/src/pytorch_kinematics/urdf_parser_py/urdf.py
index a9d7698..a81f31e 100644
--- a/src/pytorch_kinematics/urdf_parser_py/urdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/urdf.py
@@ -369,6 +369,23 @@ class Link(xmlr.Object):
         self.inertial = inertial
         self.collisions = []
         self.origin = origin
+        self.visual = visual
+        self.collision = collision
+
+    def __set_first(self, xml_var, obj):
+        """Set the first element of a kind, also for writing to XML."""
+        values = self.get_aggregate_list(xml_var)
+        if obj is None:
+            if values:
+                self.remove_aggregate(values[0])
+        elif values:
+            old = values[0]
+            values[0] = obj
+            self.aggregate_order[self.aggregate_order.index(old)] = obj
+            del self.aggregate_type[old]
+            self.aggregate_type[obj] = xml_var
+        else:
+            self.add_aggregate(xml_var, obj)
 
     def __get_visual(self):
         """Return the first visual or None."""
@@ -377,10 +394,7 @@ class Link(xmlr.Object):
 
     def __set_visual(self, visual):
         """Set the first visual."""
-        if self.visuals:
-            self.visuals[0] = visual
-        else:
-            self.visuals.append(visual)
+        self.__set_first('visual', visual)
 
     def __get_collision(self):
         """Return the first collision or None."""
@@ -389,10 +403,7 @@ class Link(xmlr.Object):
 
     def __set_collision(self, collision):
         """Set the first collision."""
-        if self.collisions:
-            self.collisions[0] = collision
-        else:
-            self.collisions.append(collision)
+        self.__set_first('collision', collision)
 
     # Properties for backwards compatibility
     visual = property(__get_visual, __set_visual)
-- 
2.43.0


From 384ea8bd5fe3536688ac9abaae94b5dfe62dd066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:14 +0000
Subject: [PATCH 47/51] fix: elements parsed without a value do not share one
 default list

---
 src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
index 7a9f5de..8998fc4 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/core.py
@@ -325,7 +325,7 @@ class Param(object):
         if self.required:
             raise Exception("Required {} not set in XML: {}".format(self.type, self.xml_var))  # noqa
         elif not skip_default:
-            setattr(obj, self.var, self.default)
+            setattr(obj, self.var, copy.copy(self.default))
 
 
 class Attribute(Param):
-- 
2.43.0


From 2a1b984fee6a54b217cee8ae42a782e03d712938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:29 +0000
Subject: [PATCH 48/51] fix: Color of three numbers, and without changing the
 caller's list

---
 src/pytorch_kinematics/urdf_parser_py/urdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/urdf.py b/src/pytorch_kinematics/urdf_parser_py/urdf.py
index a81f31e..d55f852 100644
--- a/src/pytorch_kinematics/urdf_parser_py/urdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/urdf.py
@@ -51,9 +51,9 @@ class Color(xmlr.Object):
         # What about named colors?
         count = len(args)
         if count == 4 or count == 3:
-            self.rgba = args
+            self.rgba = list(args)
         elif count == 1:
-            self.rgba = args[0]
+            self.rgba = None if args[0] is None else list(args[0])
         elif count == 0:
             self.rgba = None
         if self.rgba is not None:
-- 
2.43.0


From 932f27832e6fc94eaf207e25f807830db9245d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:46 +0000
Subject: [PATCH 49/51] fix: description objects that are constructed have all
 their fields

---
 src/pytorch_kinematics/urdf_parser_py/sdf.py  | 2 ++
 src/pytorch_kinematics/urdf_parser_py/urdf.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/pytorch_kinematics/urdf_parser_py/sdf.py b/src/pytorch_kinematics/urdf_parser_py/sdf.py
index a80ab34..e933900 100644
--- a/src/pytorch_kinematics/urdf_parser_py/sdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/sdf.py
@@ -144,6 +144,7 @@ class Visual(xmlr.Object):
     def __init__(self, name=None, geometry=None, pose=None):
         self.name = name
         self.geometry = geometry
+        self.material = None
         self.pose = pose
 
 
@@ -309,6 +310,7 @@ xmlr.reflect(Model, tag='model', params=[
 class SDF(xmlr.Object):
     def __init__(self, version=None):
         self.version = version
+        self.model = None
 
 
 xmlr.reflect(SDF, tag='sdf', params=[
diff --git a/src/pytorch_kinematics/urdf_parser_py/urdf.py b/src/pytorch_kinematics/urdf_parser_py/urdf.py
index d55f852..8a5dbd3 100644
--- a/src/pytorch_kinematics/urdf_parser_py/urdf.py
+++ b/src/pytorch_kinematics/urdf_parser_py/urdf.py
@@ -472,6 +472,7 @@ class Transmission(xmlr.Object):
     def __init__(self, name=None):
         self.aggregate_init()
         self.name = name
+        self.type = None
         self.joints = []
         self.actuators = []
 
-- 
2.43.0


From 5ec37a72bdc33a6d5864270dc0a2c4f7a07d6dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:32 +0000
Subject: [PATCH 50/51] fix: printing a robot description with lists
 (collections.Iterable is gone)

---
 .../urdf_parser_py/xml_reflection/basics.py                   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py
index 60a0d44..1de428c 100644
--- a/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py
+++ b/src/pytorch_kinematics/urdf_parser_py/xml_reflection/basics.py
@@ -1,6 +1,6 @@
 import string
 import yaml
-import collections
+import collections.abc
 from lxml import etree
 
 
@@ -68,7 +68,7 @@ def to_yaml(obj):
     elif hasattr(obj, 'tolist'):
         # For numpy objects
         out = to_yaml(obj.tolist())
-    elif isinstance(obj, collections.Iterable):
+    elif isinstance(obj, collections.abc.Iterable):
         out = [to_yaml(item) for item in obj]
     else:
         out = str(obj)
-- 
2.43.0


From 8d4e53262571a904c813f875a2ee7005dc37a9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:15 +0000
Subject: [PATCH 51/51] fix: transform_shape_operator applies every transform
 to every operator

A batch of operators (N, P, 3, 3), which the docstring accepts, raised, and N transforms
were paired with the operators one by one or rejected instead of giving (N, P, 3, 3).
---
 src/pytorch_kinematics/transforms/transform3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pytorch_kinematics/transforms/transform3d.py b/src/pytorch_kinematics/transforms/transform3d.py
index 1004d94..d16974b 100644
--- a/src/pytorch_kinematics/transforms/transform3d.py
+++ b/src/pytorch_kinematics/transforms/transform3d.py
@@ -398,8 +398,8 @@ class Transform3d:
         if shape_operators.dim() not in [3, 4]:
             msg = "Expected shape_operators to have dim = 3 or dim = 4: got shape %r"
             raise ValueError(msg % (shape_operators.shape,))
-        mat = self.inverse().get_matrix()[:, :3, :3]
-        shape_operators_out = _broadcast_bmm(mat.permute(0, 2, 1), _broadcast_bmm(shape_operators, mat))
+        mat = self.inverse().get_matrix()[:, None, :3, :3]  # (N, 1, 3, 3), against (P, 3, 3) or (N, P, 3, 3)
+        shape_operators_out = mat.transpose(-1, -2) @ shape_operators @ mat
 
         # When transform is (1, 4, 4) and shape_operator is (P, 3, 3) return
         # shape_operators_out of shape (P, 3, 3)
-- 
2.43.0

