From f9a2b2685fc6b3d4afc6279893fbbe960fd82b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 001/108] fix: horizon shift of splines with few or repeated
 internal knots

---
 omgtools/basics/spline_extra.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index dbf2e1e..fbe18bb 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -171,24 +171,14 @@ def shiftoverknot_T(basis):
     m = 1  # number of repeating internal knots
     while knots[-deg-2-m] >= knots[-deg-2]:
         m += 1
-    t_shift = knots[deg+1] - knots[0]
-    T = np.diag(np.ones(len(basis)-m), m)
-    _T = np.eye(deg+1)
-    for k in range(deg):
-        _t = np.zeros((deg+1+k+1, deg+1+k))
-        for j in range(deg+1+k+1):
-            if j >= deg+1:
-                _t[j, j-1] = 1.
-            elif j <= k:
-                _t[j, j] = 1.
-            else:
-                _t[j, j-1] = (knots[j+deg-k]-t_shift)/(knots[j+deg-k]-knots[j])
-                _t[j, j] = (t_shift-knots[j])/(knots[j+deg-k]-knots[j])
-        _T = _t.dot(_T)
-    T[:deg, :deg+1] = _T[deg+1:, :]
+    # first extrapolate over the last knot interval, then move the first knots
+    # of the extended spline onto the first internal knot: both steps can act
+    # on the same coefficients when there are only few knot intervals
     T_extr = extrapolate_T(basis, knots[-1] - knots[-deg-2])
-    T[-(deg+1):, -(deg+1):] = T_extr[-(deg+1):, -(deg+1):]
-    return T
+    knots2 = np.r_[knots[:-deg-1], knots[-deg-1]*np.ones(m),
+                   (2*knots[-1]-knots[-deg-2])*np.ones(deg+1)]
+    T_first = shiftfirstknot_T(BSplineBasis(knots2, deg), knots[deg+1])
+    return T_first[m:, :].dot(T_extr)
 
 
 def shift_knot1_fwd(cfs, basis, t_shift):
-- 
2.43.0


From e42c98d99701a03dd218ea40676a66637012917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 002/108] fix: integral of a spline with symbolic coefficients

---
 omgtools/basics/spline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omgtools/basics/spline.py b/omgtools/basics/spline.py
index ce8ac4d..a31a8c1 100644
--- a/omgtools/basics/spline.py
+++ b/omgtools/basics/spline.py
@@ -484,7 +484,10 @@ class BSpline(Spline):
         coeffs = self.coeffs
         d = self.basis.degree
         K = csr_matrix_alt(np.diag((knots[d + 1:] - knots[:-(d + 1)]) / (d + 1)))
-        return sum(K.dot(coeffs))
+        terms = K.dot(coeffs)
+        if isinstance(terms, (cas.MX, cas.SX)):
+            return cas.sum1(terms)  # symbolic matrices are not iterable
+        return sum(terms)
         # try:
         #     return sum(coeffs * (knots[d + 1:] - knots[:-(d + 1)])) / (d + 1)
 
-- 
2.43.0


From 277b2dbc483695d91159fccf1b42a62806a64946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 003/108] fix: Greville abscissae outside the domain through
 rounding

---
 omgtools/basics/spline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omgtools/basics/spline.py b/omgtools/basics/spline.py
index a31a8c1..412cc96 100644
--- a/omgtools/basics/spline.py
+++ b/omgtools/basics/spline.py
@@ -195,7 +195,9 @@ class Basis(object):
 
     def greville(self):
         """Return the Greville abscissae of the basis"""
-        return [1. / self.degree * sum(self.knots[k + 1:k + self.degree + 1])
+        # rounding may not push the average outside the domain
+        return [min(max(1. / self.degree * sum(self.knots[k + 1:k + self.degree + 1]),
+                        self.knots[0]), self.knots[-1])
                 for k in range(len(self))]
 
     def scale(self, factor, shift=0):
-- 
2.43.0


From 94e1a8fbe9534c6e819532080d34dbd101017984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 004/108] fix: concatenating splines with mixed continuity,
 negative values or a junction on a Greville point

---
 omgtools/basics/spline_extra.py | 55 ++++++++++-----------------------
 1 file changed, 16 insertions(+), 39 deletions(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index fbe18bb..b836fda 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -311,10 +311,10 @@ def concat_splines(segments, segment_times, n_insert=None):
             if s.basis.degree != degree[l]:
                 # all concatenated splines should be of the same degree
                 raise ValueError(
-                    'Splines at index ' + l + 'should have same degree.')
+                    'Splines at index ' + str(l) + ' should have same degree.')
             if n_insert is None:
-                # check continuity, n_insert can be different for each l
-                n_insert = degree[l]+1  # starts at max value
+                # check continuity, can be different for each segment k and each l
+                n_ins = degree[l]+1  # starts at max value
                 for d in range(degree[l]+1):
                     # use ipopt default tolerance as a treshold for check (1e-3)
                     # give dimensions, to compare using the same time scale
@@ -325,15 +325,16 @@ def concat_splines(segments, segment_times, n_insert=None):
                     # this seems due to the finite tolerance of ipopt? and due to the fact that these are floating point numbers
                     val1 = segments[k][l].scale(segment_times[k], shift = prev_time).derivative(d)(prev_time)
                     val2 = prev_segment[l].derivative(d)(prev_time)
-                    if ( abs(val1 - val2)*0.5/(val1 + val2) <= 1e-3):
+                    if (abs(val1 - val2)*0.5 <= 1e-3*(abs(val1) + abs(val2))):
                         # more continuity = insert less knots
-                        n_insert -= 1
+                        n_ins -= 1
                     else:
-                        # spline values were not equal, stop comparing and use latest n_insert value
+                        # spline values were not equal, stop comparing and use latest n_ins value
                         break
-            # else:  # keep n_insert from input
+            else:  # use n_insert from input
+                n_ins = n_insert
 
-            if n_insert!= degree[l]+1:
+            if n_ins != degree[l]+1:
                 # concatenation requires re-computing the coefficients and/or adding extra knots
                 # here we make the knot vector and coeffs of the total spline (the final output),
                 # but we also compute the knot vector and coeffs for concatenating just two splines,
@@ -342,41 +343,17 @@ def concat_splines(segments, segment_times, n_insert=None):
                 # and afterwards segments 2 and 3, this happens due to the main for loop
 
                 # make total knot vector
-                end_idx = len(knots[l])-(degree[l]+1)+n_insert
+                end_idx = len(knots[l])-(degree[l]+1)+n_ins
                 knots[l] = np.r_[
                     knots[l][:end_idx], s.basis.knots[degree[l]+1:]*segment_times[k] + knots[l][-1]]  # last term = time shift
 
-                # make knot vector for two segments to concatenate
-                end_idx_concat = len(prev_segment[l].basis.knots)-(degree[l]+1)+n_insert
-                knots1 = prev_segment[l].basis.knots[:end_idx_concat]
-                knots2 = s.basis.knots[degree[l]+1:]*segment_times[k] + knots1[-1]  # last term = time shift
-                knots_concat = np.r_[knots1, knots2]
-
                 # make union basis for two segments to concatenate
-                basis_concat = BSplineBasis(knots_concat, degree[l])
-                grev_bc = basis_concat.greville()
-                # shift first and last greville point inwards, to avoid numerical problems,
-                # in which the spline evaluates to 0 because the evaluation lies just outside the domain
-                grev_bc[0] = grev_bc[0] + (grev_bc[1]-grev_bc[0])*0.01
-                grev_bc[-1] = grev_bc[-1] - (grev_bc[-1]-grev_bc[-2])*0.01
-                # evaluate basis on its greville points
-                eval_bc = basis_concat(grev_bc).toarray()
-
-                # only the last degree coeffs of segment1 and the first degree coeffs
-                # of segment2 will change --> we can reduce the size of the system to solve
-                # Todo: implement this reduction
-
-                # first give the segment dimensions, by scaling it and shifting it appropriatly
-                # this is necessary, since by default the domain is [0,1]
-                # then evaluate the splines that you want to concatenate on greville points
-                # of union basis, will give 0 outside their domain
-                s_1 = prev_segment[l](grev_bc)
-                s_2 = segments[k][l].scale(segment_times[k], shift = prev_time)(grev_bc)
-                # sum to get total evaluation
-                eval_sc = s_1 + s_2
-
-                # solve system to find new coeffs
-                coeffs_concat = la.solve(eval_bc, eval_sc)
+                basis_concat = BSplineBasis(knots[l], degree[l])
+                # inserting the missing knots in the union basis gives both segments side by side,
+                # solve this relation for the coefficients in the union basis
+                T, _ = knot_insertion_T(basis_concat, [prev_segment[l].basis.knots[-1]]*(degree[l]+1-n_ins))
+                coeffs_both = np.r_[prev_segment[l].coeffs, s.coeffs]
+                coeffs_concat = la.lstsq(T, coeffs_both)[0]
                 # save new coefficients
                 coeffs[l] = coeffs_concat
             else:
-- 
2.43.0


From bb9da85583fbea67f2c14024088466951bdb149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 005/108] fix: define_constraint with skip=[0, 0] dropped every
 coefficient constraint

---
 omgtools/basics/optilayer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/omgtools/basics/optilayer.py b/omgtools/basics/optilayer.py
index 75a23aa..4abfa21 100644
--- a/omgtools/basics/optilayer.py
+++ b/omgtools/basics/optilayer.py
@@ -647,10 +647,7 @@ class OptiChild(object):
                 self._splines_dual[name] = {'basis': expr.basis}
             else:
                 new_coeffs = expr.coeffs
-                if skip[0] == 0:
-                    # don't skip anything at the beginning
-                    new_coeffs = new_coeffs[:-skip[1]]
-                elif skip[1] == 0:
+                if skip[1] == 0:
                     # don't skip anything at the end
                     new_coeffs = new_coeffs[skip[0]:]
                 else:
-- 
2.43.0


From c4aa7b202c114ebe67eca3d8f626580febe996a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 006/108] fix: constraint shutdown conditions raised a
 NameError on Python 3

---
 omgtools/basics/optilayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/basics/optilayer.py b/omgtools/basics/optilayer.py
index 4abfa21..bd9f8e6 100644
--- a/omgtools/basics/optilayer.py
+++ b/omgtools/basics/optilayer.py
@@ -313,7 +313,7 @@ class OptiFather(object):
     def update_bounds(self, current_time):
         lb, ub = copy.deepcopy(self._lb), copy.deepcopy(self._ub)
         for name, shutdown in self._constraint_shutdown.items():
-            exec('shutdown_fun = lambda t: %s' % shutdown)
+            shutdown_fun = eval('lambda t: %s' % shutdown)
             if shutdown_fun(current_time):
                 lb[name], ub[name] = -inf, +inf
         return lb, ub
-- 
2.43.0


From 1eb059f70e59ca3951b42c16ee53a2fe9817d351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 007/108] fix: transforming dual splines looked them up under a
 key that does not exist

---
 omgtools/basics/optilayer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/omgtools/basics/optilayer.py b/omgtools/basics/optilayer.py
index bd9f8e6..b0d2ff4 100644
--- a/omgtools/basics/optilayer.py
+++ b/omgtools/basics/optilayer.py
@@ -494,13 +494,14 @@ class OptiFather(object):
             for name, spl in child._splines_dual.items():
                 basis = spl['basis']
                 init = spl['init']
+                con = child._add_label(name)
                 if init is not None:
                     init = spl['init']
-                    self._dual_var_result[label, name] = transform_fun(
-                        self._dual_var_result[label, name], basis, init)
+                    self._dual_var_result[con] = transform_fun(
+                        self._dual_var_result[con], basis, init)
                 else:
-                    self._dual_var_result[label, name] = transform_fun(
-                        self._dual_var_result[label, name], basis)
+                    self._dual_var_result[con] = transform_fun(
+                        self._dual_var_result[con], basis)
 
 
 class OptiChild(object):
-- 
2.43.0


From 219bec95b49ab10ad5a2a45c4a079cf46f34f70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 008/108] fix: circle/polyhedron intersection missed sides with
 a negative slope and all but two vertices

---
 omgtools/basics/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/basics/geometry.py b/omgtools/basics/geometry.py
index 8ae0717..1bfe36a 100644
--- a/omgtools/basics/geometry.py
+++ b/omgtools/basics/geometry.py
@@ -144,7 +144,7 @@ def circle_polyhedron_intersection(circle, polyhedron_shape, polyhedron_position
     vertices[1] +=  polyhedron_position[1]
 
     center = circle.signals['position'][:,-1]
-    for i in range(len(vertices)):
+    for i in range(vertices.shape[1]):
         # first quickly check if any vertex is inside the circle
         dist = distance_between_points(center, [vertices[0][i], vertices[1][i]])
         if dist <= circle.shape.radius:
@@ -161,7 +161,7 @@ def circle_polyhedron_intersection(circle, polyhedron_shape, polyhedron_position
         # see if intersection point is within the two end points of line
         # and check distance between intersection point and circle center
         line1 = [[x1,y1],[x2,y2]]  # side of polyhedron
-        if (((x1-eps<=x4<=x2+eps and y1-eps<=y4<=y2+eps) or (x1+eps>=x4>=x2-eps and y1+eps>=y4>=y2-eps)) and
+        if (min(x1,x2)-eps <= x4 <= max(x1,x2)+eps and min(y1,y2)-eps <= y4 <= max(y1,y2)+eps and
            (distance_between_points(center, [x4,y4]) <= circle.shape.radius)):
             return True
     return False
-- 
2.43.0


From f9876924d31c1cb67ea9c64a6b617b644fabd594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 009/108] fix: full rings could not be built and limits of
 rings ignored the inner side

---
 omgtools/basics/shape.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/omgtools/basics/shape.py b/omgtools/basics/shape.py
index c394bc3..defa2a6 100644
--- a/omgtools/basics/shape.py
+++ b/omgtools/basics/shape.py
@@ -88,7 +88,7 @@ class Ring(Shape2D):
     def get_surfaces(self):
         if (self.start == self.end).all():
             # full ring, placed in the origin
-            s = linspace(0, 2*np.pi, 1000)
+            s = np.linspace(0, 2*np.pi, 1000)
         else:
             # part of a ring, placed in the origin
             self.start_angle = np.arctan2(self.start[1], self.start[0])
@@ -113,12 +113,9 @@ class Ring(Shape2D):
         return [points]
 
     def get_canvas_limits(self):
-        # take into account the ring-shape in computation, by computing points on
-        # outer side of the ring
-        s = np.linspace(self.start_angle, self.end_angle, 1000)
-        points_out = np.vstack((
-            (self.radius_out*np.cos(s), self.radius_out*np.sin(s)), 0*s))
-        points = np.c_[self.start, self.end, points_out]
+        # take into account the ring-shape in computation, by using the points on
+        # the inner and outer side of the ring
+        points = self.surfaces[0]
         max_xy = np.amax(points, axis=1)
         min_xy = np.amin(points, axis=1)
         return [np.array([min_xy[0], max_xy[0]]),
-- 
2.43.0


From fccd658c68ba0ba5c08be0bf6c1f7d8c90dd34e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 010/108] fix: half-planes of polyhedra with counterclockwise
 vertices pointed inwards

---
 omgtools/basics/shape.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omgtools/basics/shape.py b/omgtools/basics/shape.py
index defa2a6..deb7bd6 100644
--- a/omgtools/basics/shape.py
+++ b/omgtools/basics/shape.py
@@ -158,11 +158,15 @@ class Polyhedron(Shape2D):
             pos = kwargs['position']
         vertices = np.hstack(
             (self.vertices, np.vstack(self.vertices[:, 0])))  # gives e.g. a (2, 4)
+        area = np.sum(vertices[0, :-1]*vertices[1, 1:] - vertices[0, 1:]*vertices[1, :-1])
         hyperplanes = {}
         for k in range(vertices.shape[1]-1):
             vector = [vertices[0][k+1]-vertices[0][k],
                       vertices[1][k+1]-vertices[1][k]]
             normal = [-vector[1], vector[0]]/np.sqrt(vector[0]**2+vector[1]**2)
+            if area > 0:
+                # vertices in counterclockwise order, normal must point outwards
+                normal = -normal
             b = normal[0]*(vertices[0][k+1]+pos[0]) + normal[1]*(vertices[1][k+1]+pos[1])
             hyperplanes[k] = {'a': normal, 'b': b}
         return hyperplanes
-- 
2.43.0


From 83b43f83fdb82d44d3d4f0b395d1cad3c653fd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 011/108] fix: limits of a beam ignored its rounded ends

---
 omgtools/basics/shape.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omgtools/basics/shape.py b/omgtools/basics/shape.py
index deb7bd6..2f7872b 100644
--- a/omgtools/basics/shape.py
+++ b/omgtools/basics/shape.py
@@ -180,6 +180,11 @@ class Beam(Polyhedron):
         Polyhedron.__init__(self, np.c_[[0.5*width, 0.], [-0.5*width, 0.]],
                             orientation=orientation, radius=0.5*height)
 
+    def get_canvas_limits(self):
+        # take the rounded ends into account
+        limits = Polyhedron.get_canvas_limits(self)
+        return [lim + np.array([-self.radius, self.radius]) for lim in limits]
+
     def get_surfaces(self, vertices):
         s = np.linspace(0, 1-1./24, 24)
         a = [vertices[0, 0]+0.5*self.height*np.cos(s*np.pi - 0.5*np.pi),
-- 
2.43.0


From 8cc7c282b72a2c113e528b56c252c4156988cc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 012/108] fix: simulation of obstacles stepped over programmed
 changes

---
 omgtools/environment/obstacle.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/omgtools/environment/obstacle.py b/omgtools/environment/obstacle.py
index c34a5de..1b66472 100644
--- a/omgtools/environment/obstacle.py
+++ b/omgtools/environment/obstacle.py
@@ -232,9 +232,8 @@ class ObstaclexD(OptiChild):
             else:
                 self.signals[key] = np.zeros((self.n_dim, 1))
 
-    def _ode(self, state, time):
+    def _ode(self, state, time, state_incr):
         input = self.input_interp(time)
-        state_incr = self.state_incr_interp(time)
         return self.ode(state, input) + np.r_[state_incr[self.n_dim:],
                                               np.zeros(self.n_dim)]
 
@@ -252,7 +251,20 @@ class ObstaclexD(OptiChild):
                        self.signals['acceleration'][:, -1]].T
         if time0 != 0.0:
             state0 -= self.state_incr_interp(time0)
-        state = odeint(self._ode, state0, time_axis).T
+        # integrate from one programmed change to the next one: they would be
+        # stepped over when integrating the whole time axis at once
+        eps = 1e-9
+        changes = np.union1d(self.state_incr_interp.x, self.input_interp.x)
+        changes = changes[(changes > time0+eps) & (changes < time_axis[-1]-eps)]
+        state = np.c_[state0]
+        for start, end in zip(np.r_[time0, changes], np.r_[changes, time_axis[-1]]):
+            samples = time_axis[(time_axis > start+eps) & (time_axis < end+eps)]
+            time = np.r_[start, samples]
+            if end > time[-1]+eps:
+                time = np.r_[time, end]
+            piece = odeint(self._ode, state0, time, args=(self.state_incr_interp(0.5*(start+end)),)).T
+            state = np.c_[state, piece[:, 1:len(samples)+1]]
+            state0 = piece[:, -1]
         state += self.state_incr_interp(time_axis)
         self.signals['position'] = np.c_[self.signals['position'],
                                          state[:self.n_dim, 1:n_samp+1]]
-- 
2.43.0


From 1c5f50e8eaef44bb51a98e23c8f8b630428f4407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 013/108] fix: constructing an obstacle changed the initial
 conditions passed by the user

---
 omgtools/environment/obstacle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omgtools/environment/obstacle.py b/omgtools/environment/obstacle.py
index 1b66472..f8e0a75 100644
--- a/omgtools/environment/obstacle.py
+++ b/omgtools/environment/obstacle.py
@@ -47,12 +47,14 @@ class ObstaclexD(OptiChild):
     def __init__(self, initial, shape, simulation, options):
         OptiChild.__init__(self, 'obstacle')
         self.simulation = simulation
+        initial = dict(initial)  # don't change the argument of the user
         if 'trajectories' in simulation:
             for key in simulation['trajectories']:
                 # user specified a value at time 0
-                if 0 in simulation['trajectories'][key]['time']:
+                times = list(simulation['trajectories'][key]['time'])
+                if 0 in times:
                     # this value should be added to initial
-                    initial[key] = simulation['trajectories'][key]['values'][0]
+                    initial[key] = simulation['trajectories'][key]['values'][times.index(0)]
         self.set_default_options()
         self.set_options(options)
         self.shape = shape
-- 
2.43.0


From bcfe30b296d8fc4959dc123aef2ca069c4e97438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 014/108] fix: drawing an environment with an undrawn 2D
 obstacle failed

---
 omgtools/environment/obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/environment/obstacle.py b/omgtools/environment/obstacle.py
index f8e0a75..470d250 100644
--- a/omgtools/environment/obstacle.py
+++ b/omgtools/environment/obstacle.py
@@ -523,7 +523,7 @@ class Obstacle2D(ObstaclexD):
 
     def draw(self, t=-1):
         if not self.options['draw']:
-            return []
+            return [], []
         pose = np.zeros(2*self.n_dim)
         pose[:self.n_dim] = self.signals['position'][:, t]
         pose[2] = self.signals['orientation'][:, t]
-- 
2.43.0


From 4a7ae9ede617b2dc9a752fc895031e5c25a93da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 015/108] fix: predicted motion of accelerating obstacles over
 later segments

---
 omgtools/environment/obstacle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omgtools/environment/obstacle.py b/omgtools/environment/obstacle.py
index 470d250..0c314cf 100644
--- a/omgtools/environment/obstacle.py
+++ b/omgtools/environment/obstacle.py
@@ -106,6 +106,8 @@ class ObstaclexD(OptiChild):
                         self.pos_spline[k] = BSpline(self.basis, vertcat(pos0[k], 0.5*v0[k]*horizon_time + pos0[k], pos0[k] + v0[k]*horizon_time + 0.5*a0[k]*(horizon_time**2)))
                     # update start position for next segment
                     pos0 = [self.pos_spline[k](1) for k in range(self.n_dim)]
+                    # and the start velocity
+                    v0 = v0 + horizon_time*a0
             else:
                 # horizon_times was None
                 # pos spline over time horizon
-- 
2.43.0


From 55d16e94f9100d28632f7644bc85a1e9b99189b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 016/108] fix: singular basis transformation when a knot
 interval is shorter than the sampling distance

---
 omgtools/basics/spline.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omgtools/basics/spline.py b/omgtools/basics/spline.py
index 412cc96..6975894 100644
--- a/omgtools/basics/spline.py
+++ b/omgtools/basics/spline.py
@@ -121,6 +121,11 @@ class Basis(object):
         self.knots = np.array(knots)
         self.degree = degree
         self._x = np.linspace(knots[0], knots[-1], NO_POINTS)
+        # equidistant points could miss the basis functions on short knot intervals
+        dx = (knots[-1] - knots[0])*(degree + 2.)/NO_POINTS
+        short = [np.linspace(a, b, degree + 2) for a, b in zip(knots[:-1], knots[1:]) if 0 < b - a < dx]
+        if short:
+            self._x = np.unique(np.hstack([self._x] + short))
 
     def __len__(self):
         return len(self.knots) - self.degree - 1
-- 
2.43.0


From 344c67e53739f0519ced8a181b1a6716556f7ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 017/108] fix: grid planner could cut occupied corners when
 moving down left

---
 omgtools/problems/globalplanner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index e376a6b..87dd134 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -346,7 +346,7 @@ class Grid(object):
                     accessible = True
             # diagonal down left
             elif (point1[0] - 1 == point2[0] and point1[1] - 1 == point2[1]):
-                if (self.free([point1[0], point1[1] - self.cell_height]) and self.free([point1[0] - 1,point1[1]])):
+                if (self.free([point1[0], point1[1] - 1]) and self.free([point1[0] - 1,point1[1]])):
                     accessible = True
 
         return accessible
-- 
2.43.0


From 1f3902fe42bc252de10de7d6819f98243823c0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 018/108] fix: grid planner rejected a goal that was the last
 open node

---
 omgtools/problems/globalplanner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index 87dd134..d84bf28 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -198,7 +198,7 @@ class AStarPlanner(GlobalPlanner):
             self.remove_from_open_list(self.current_node)
             self.closed_list.append(self.current_node)
 
-            if not self.open_list:
+            if not self.open_list and self.current_node.pos != self.goal:
                 # current node is not the goal, and open list is empty
                 # check if there are neigbors left which you can reach and are not yet visited
                 neighbors = self.grid.get_neighbors(self.current_node.pos)
-- 
2.43.0


From 2ac88cdfb94514f4bc5f8bc6757a06e22951e99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 019/108] fix: grid planner did not move an occupied point to
 the closest free cell

---
 omgtools/problems/globalplanner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index d84bf28..e27347d 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -394,8 +394,9 @@ class Grid(object):
                 # use an upper bound on this to avoid taking sqrt a lot to
                 # initialize d_min
                 d_min = 2*max(self.cell_height, self.cell_width)
+                occupied_point = moved_point
                 for p in points_to_check:
-                    distance = self.distance_between_cells(p, moved_point)
+                    distance = self.distance_between_cells(p, occupied_point)
                     if distance < d_min:
                         d_min = distance
                         moved_point = p
-- 
2.43.0


From 8ef950176d22bef2113b95a5f79cba13f052a6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 020/108] fix: grid planner missed thin obstacles crossing a
 cell

---
 omgtools/problems/globalplanner.py | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index e27347d..ffbb848 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -478,8 +478,8 @@ class Grid(object):
                 vertices = np.round(vertices, 4)  # rounding off vertex positions, for easier comparison below
 
                 occ_cells = []
+                eps = 1e-6  # cells touching the bounding box are free
                 for cell in cells:
-                    blocked = False  # boolean to indicate if cell is blocked
                     # calculate cell vertices
                     cell_vertices = []
                     cell_vertices.append([cell['pos'][0] - 0.5*self.cell_width, cell['pos'][1] - 0.5*self.cell_height])
@@ -487,29 +487,11 @@ class Grid(object):
                     cell_vertices.append([cell['pos'][0] - 0.5*self.cell_width, cell['pos'][1] + 0.5*self.cell_height])
                     cell_vertices.append([cell['pos'][0] + 0.5*self.cell_width, cell['pos'][1] + 0.5*self.cell_height])
                     cell_vertices = np.array(cell_vertices)
-                    # cell center is inside the convex hull of the vertices of an obstacle
-                    if (min(vertices[:,0]) < cell['pos'][0] < max(vertices[:,0]) and
-                        min(vertices[:,1]) < cell['pos'][1] < max(vertices[:,1])):
+                    # cell is blocked if it overlaps with the bounding box of the obstacle vertices, also
+                    # when no vertex of the one lies inside the other (e.g. a thin wall crossing the cell)
+                    if (min(vertices[:,0]) + eps < max(cell_vertices[:,0]) and max(vertices[:,0]) - eps > min(cell_vertices[:,0]) and
+                        min(vertices[:,1]) + eps < max(cell_vertices[:,1]) and max(vertices[:,1]) - eps > min(cell_vertices[:,1])):
                         occ_cells.append(cell)
-                    else:
-                        # check if any of the cell vertices are inside the convex hull of the obstacle vertices
-                        for cell_v in cell_vertices:
-                            if (min(vertices[:,0]) < cell_v[0] < max(vertices[:,0]) and
-                                min(vertices[:,1]) < cell_v[1] < max(vertices[:,1])):
-                                    # avoid adding the same cell multiple times
-                                    if cell not in occ_cells:
-                                        occ_cells.append(cell)
-                                    blocked = True  # cell is blocked, go to next cell
-                                    break
-                        # check if any of the obstacle vertices are inside the convex hull of the cell vertices
-                        if not blocked:  # cell was not detected as blocked yet
-                            for v in vertices:
-                                if (min(cell_vertices[:,0]) < v[0] < max(cell_vertices[:,0]) and
-                                    min(cell_vertices[:,1]) < v[1] < max(cell_vertices[:,1])):
-                                        # avoid adding the same cell multiple times
-                                        if cell not in occ_cells:
-                                            occ_cells.append(cell)
-                                        break  # one obstacle vertex is inside the cell, go to next cell
                 # if cell is found to be occupied, remove it, i.e. don't check again for next obstacle
                 for cell in occ_cells:
                     cells.remove(cell)
-- 
2.43.0


From 71684a26752a2fbd8e278dc6053ac5e4e9de4061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 021/108] fix: grid planner ignored the orientation of
 obstacles and failed on other shapes than rectangles and circles

---
 omgtools/problems/globalplanner.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index ffbb848..12588dd 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -449,8 +449,8 @@ class Grid(object):
                 pos = obstacle.signals['position'][:,-1]
                 if isinstance(obstacle.shape, (Rectangle, Square)):
                     vertices = []
-                    vertex_x = obstacle.shape.vertices[0]
-                    vertex_y = obstacle.shape.vertices[1]
+                    vertex_x, vertex_y = obstacle.shape.rotate(
+                        obstacle.signals['orientation'][:,-1], obstacle.shape.vertices)
                     for k in range(len(vertex_x)):
                         if vertex_x[k] == min(vertex_x):
                             # take into account offset to avoid waypoints which are so close
@@ -465,6 +465,14 @@ class Grid(object):
                         else:
                             v_y = vertex_y[k] + pos[1] + self.offset[1]
                         vertices.append([v_x, v_y])
+                elif not isinstance(obstacle.shape, Circle):
+                    # other polyhedra: use the bounding box, including the radius of its vertices
+                    v = obstacle.shape.rotate(obstacle.signals['orientation'][:,-1], obstacle.shape.vertices)
+                    r = obstacle.shape.radius
+                    vertices = [[pos[0] + max(v[0]) + r + self.offset[0], pos[1] + max(v[1]) + r + self.offset[1]],
+                                [pos[0] + max(v[0]) + r + self.offset[0], pos[1] + min(v[1]) - r - self.offset[1]],
+                                [pos[0] + min(v[0]) - r - self.offset[0], pos[1] + max(v[1]) + r + self.offset[1]],
+                                [pos[0] + min(v[0]) - r - self.offset[0], pos[1] + min(v[1]) - r - self.offset[1]]]
                 if isinstance(obstacle.shape, Circle):
                     r = obstacle.shape.radius
                     # approximate circle by a square and add these vertices
-- 
2.43.0


From 9b35826f8c0d92b9517b26e11ae5e352b457c38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 022/108] fix: simulation and prediction lost a sample when the
 duration is not exactly divisible in floating point

---
 omgtools/problems/schedulerproblem.py | 2 +-
 omgtools/vehicles/vehicle.py          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 0225a76..5fc24a9 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -225,7 +225,7 @@ class SchedulerProblem(Problem):
         if simulation_time == np.inf:
             # using simulator.run_once()
             simulation_time = sum(self.motion_times)
-        repeat = int(simulation_time/sample_time)
+        repeat = int(np.round(simulation_time/sample_time, 6))
         # copy frames, to avoid problems when removing elements from self.frames
         frames_to_save = self.frames[:]
         for k in range(repeat):
diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 56333cc..98fd1f8 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -393,7 +393,7 @@ class Vehicle(OptiChild, PlotLayer):
             self.traj_storage = {}
             self.traj_storage_kn = {}
             self.pred_storage = {}
-        repeat = int(simulation_time/sample_time)
+        repeat = int(np.round(simulation_time/sample_time, 6))
         self._add_to_memory(self.traj_storage, self.trajectories, repeat)
         self._add_to_memory(self.traj_storage_kn, self.trajectories_kn, repeat)
         self._add_to_memory(self.pred_storage, self.prediction, repeat)
@@ -412,7 +412,7 @@ class Vehicle(OptiChild, PlotLayer):
     def integrate_ode(self, state0, input, integration_time, sample_time, ode=None):
         if ode is None:
             ode = self._ode
-        n_samp = int(integration_time/sample_time)+1
+        n_samp = int(np.round(integration_time/sample_time, 6))+1
         time_axis = np.linspace(0., (n_samp-1)*sample_time, n_samp)
         # make interpolation function which returns the input at a certain time
         time_interp = np.linspace(
-- 
2.43.0


From af478affd2c4d1aac737643eb8fc2c6b811558ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 023/108] fix: trailer without a given leading vehicle could
 not be constructed

---
 omgtools/vehicles/trailer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/vehicles/trailer.py b/omgtools/vehicles/trailer.py
index fc0648b..7bc5dd5 100644
--- a/omgtools/vehicles/trailer.py
+++ b/omgtools/vehicles/trailer.py
@@ -29,11 +29,12 @@ class Trailer(Vehicle):
 
     def __init__(self, lead_veh=None, shapes=Circle(0.2), l_hitch=0.2, options=None, bounds=None):
         bounds = bounds or {}
+        lead_veh = Dubins(Circle(0.2)) if (lead_veh is None) else lead_veh
         Vehicle.__init__(
             self, n_spl=1 + lead_veh.n_spl, degree=3, shapes=shapes, options=options)
         # n_spl contains all splines of lead_veh and trailer
         # being: tg_ha_trailer, v_til_veh, tg_ha_veh
-        self.lead_veh = Dubins(Circle(0.2)) if (lead_veh is None) else lead_veh  # vehicle which pulls the trailer
+        self.lead_veh = lead_veh  # vehicle which pulls the trailer
         self.l_hitch = l_hitch  # distance between rear axle of trailer and connection point on the car
         self.tmax = bounds['tmax'] if 'tmax' in bounds else np.pi/4.  # limit angle between trailer and vehicle
         self.tmin = bounds['tmin'] if 'tmin' in bounds else -np.pi/4.
-- 
2.43.0


From 06903e2bea53a9f0280b5bee43884e17a64061fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 024/108] fix: steering angle flipped by half a turn when
 coming to a standstill

---
 omgtools/vehicles/agv.py     | 4 +++-
 omgtools/vehicles/bicycle.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/omgtools/vehicles/agv.py b/omgtools/vehicles/agv.py
index 4c2efa5..144fe79 100644
--- a/omgtools/vehicles/agv.py
+++ b/omgtools/vehicles/agv.py
@@ -276,7 +276,9 @@ class AGV(Vehicle):
                 if (ddtg_ha[0, k] <= 1e-4 and dv_til[0, k] <= 1e-4):  # l'Hopital won't work
                     delta[0, k] = delta[0, k-1]  # choose previous steering angle
                 else:
-                    delta[0, k] = np.arctan2(-2*ddtg_ha[0, k]*self.length , (dv_til[0, k]*(1+tg_ha[0, k]**2)**2))
+                    # the ratio determines the steering angle: keep it on the same branch when slowing down
+                    sgn = np.copysign(1., dv_til[0, k])
+                    delta[0, k] = np.arctan2(-2*sgn*ddtg_ha[0, k]*self.length , (sgn*dv_til[0, k]*(1+tg_ha[0, k]**2)**2))
                 ddelta[0, k] = ddelta[0, k-1]  # choose previous input
         # end
         if (v_til[0, -1] <= 1e-4 and dtg_ha[0, -1] <= 1e-4):  # correct at end point
diff --git a/omgtools/vehicles/bicycle.py b/omgtools/vehicles/bicycle.py
index cec332b..a85406d 100644
--- a/omgtools/vehicles/bicycle.py
+++ b/omgtools/vehicles/bicycle.py
@@ -326,7 +326,9 @@ class Bicycle(Vehicle):
                 if (ddtg_ha[0, k] <= 1e-4 and dv_til[0, k] <= 1e-4):  # l'Hopital won't work
                     delta[0, k] = delta[0, k-1]  # choose previous steering angle
                 else:
-                    delta[0, k] = np.arctan2(2*ddtg_ha[0, k]*self.length , (dv_til[0, k]*(1+tg_ha[0, k]**2)**2))
+                    # the ratio determines the steering angle: keep it on the same branch when slowing down
+                    sgn = np.copysign(1., dv_til[0, k])
+                    delta[0, k] = np.arctan2(2*sgn*ddtg_ha[0, k]*self.length , (sgn*dv_til[0, k]*(1+tg_ha[0, k]**2)**2))
                 ddelta[0, k] = ddelta[0, k-1]  # choose previous input
         # end
         if (v_til[0, -1] <= 1e-4 and dtg_ha[0, -1] <= 1e-4):  # correct at end point
-- 
2.43.0


From fbb48a736b9b79d6fbf85b76e0db9c1b01e10e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 025/108] fix: vehicles of one fixed time problem shared the
 slack on their end conditions

---
 omgtools/problems/point2point.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 2381500..923ca4f 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -151,7 +151,7 @@ class FixedTPoint2point(Point2pointProblem):
     def define_terminal_constraints(self):
         objective = 0.
         self.term_con_len = []
-        for vehicle in self.vehicles:
+        for l, vehicle in enumerate(self.vehicles):
             term_con, term_con_der = vehicle.get_terminal_constraints(
                 vehicle.splines[0])
             if ('no_term_con_der' in self.options and self.options['no_term_con_der']):
@@ -160,7 +160,7 @@ class FixedTPoint2point(Point2pointProblem):
             for k, con in enumerate(term_con):
                 spline, condition = con[0], con[1]
                 g = self.define_spline_variable(
-                    'g'+str(k), 1, basis=spline.basis)[0]
+                    'g'+str(l)+'_'+str(k), 1, basis=spline.basis)[0]
                 objective += definite_integral(g, self.t0, 1.)
                 self.define_constraint(spline - condition - g, -inf, 0.)
                 self.define_constraint(-spline + condition - g, -inf, 0.)
@@ -251,7 +251,7 @@ class FixedTPoint2point(Point2pointProblem):
         part_objective = 0.
         for v, vehicle in enumerate(self.vehicles):
             for k in range(self.term_con_len[v]):
-                g = self.father.get_variables(self, 'g'+str(k))[0]
+                g = self.father.get_variables(self, 'g'+str(v)+'_'+str(k))[0]
                 part_objective += horizon_time*definite_integral(g, t0, t1)
         self.objective += part_objective
 
@@ -260,7 +260,7 @@ class FixedTPoint2point(Point2pointProblem):
             obj = 0.
             for v, vehicle in enumerate(self.vehicles):
                 for k in range(self.term_con_len[v]):
-                    g = self.father.get_variables(self, 'g'+str(k))[0]
+                    g = self.father.get_variables(self, 'g'+str(v)+'_'+str(k))[0]
                     obj += self.options['horizon_time']*g.integral()
             return obj
         return self.objective
@@ -409,7 +409,7 @@ class FreeEndPoint2point(FixedTPoint2point):
                 else:
                     spline, condition = con[0], con[1]
                 g = self.define_spline_variable(
-                    'g'+str(k), 1, basis=spline.basis)[0]
+                    'g'+str(l)+'_'+str(k), 1, basis=spline.basis)[0]
                 objective += definite_integral(g, self.t0, 1.)
                 self.define_constraint(spline - condition - g, -inf, 0.)
                 self.define_constraint(-spline + condition - g, -inf, 0.)
-- 
2.43.0


From 6cf131e1a2cf02b0125dc90cc661b2fec60b45c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 026/108] fix: free end problem did not bring the motion to
 rest and failed without given free components

---
 omgtools/problems/point2point.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 923ca4f..d6628b7 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -384,20 +384,16 @@ class FreeEndPoint2point(FixedTPoint2point):
     # Optimization modelling related functions
     # ========================================================================
 
-    def construct(self):
-        if self.free_ind is None:
-            self.free_ind = {}
-            for vehicle in self.vehicles:
-                term_con = vehicle.get_terminal_constraints(vehicle.splines[0])
-                self.free_ind[vehicle] = list(range(len(term_con)))
-        FixedTPoint2point.construct(self)
-
     def define_terminal_constraints(self):
         objective = 0.
         self.term_con_len = []
         for l, vehicle in enumerate(self.vehicles):
             term_con, term_con_der = vehicle.get_terminal_constraints(
                 vehicle.splines[0])
+            if self.free_ind is None:
+                self.free_ind = {}
+            if vehicle not in self.free_ind:
+                self.free_ind[vehicle] = list(range(len(term_con)))
             conditions = self.define_variable(
                 'conT'+str(l), len(self.free_ind[vehicle]))
             cnt = 0
@@ -414,5 +410,6 @@ class FreeEndPoint2point(FixedTPoint2point):
                 self.define_constraint(spline - condition - g, -inf, 0.)
                 self.define_constraint(-spline + condition - g, -inf, 0.)
             for con in term_con_der:
+                spline, condition = con[0], con[1]
                 self.define_constraint(spline(1.) - condition, 0., 0.)
         self.define_objective(objective)
-- 
2.43.0


From cdf59a73ece4ab74182504e29463749a0799fc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 027/108] fix: steering angle wrong at low speed in right turns

---
 omgtools/vehicles/agv.py     | 8 ++++----
 omgtools/vehicles/bicycle.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/omgtools/vehicles/agv.py b/omgtools/vehicles/agv.py
index 144fe79..926028a 100644
--- a/omgtools/vehicles/agv.py
+++ b/omgtools/vehicles/agv.py
@@ -267,13 +267,13 @@ class AGV(Vehicle):
         ddelta = -(2*ddtg_ha*self.length*(v_til*(1+tg_ha**2)**2)-2*dtg_ha*self.length*(dv_til*(1+tg_ha**2)**2 + v_til*(4*tg_ha+4*tg_ha**3)*dtg_ha))/(v_til**2*(1+tg_ha**2)**4+(2*dtg_ha*self.length)**2)
         # check if you needed to use l'Hopital's rule to find delta and ddelta above, if so adapt signals
         # start
-        if (v_til[0, 0] <= 1e-4 and dtg_ha[0, 0] <= 1e-4):
+        if (v_til[0, 0] <= 1e-4 and abs(dtg_ha[0, 0]) <= 1e-4):
             delta[0, 0] = np.arctan2(-2*ddtg_ha[0, 0]*self.length , (dv_til[0, 0]*(1+tg_ha[0, 0]**2)**2))
             ddelta[0, 0] = ddelta[0, 1]  # choose next input
         # middle
         for k in range(1,len(time)-1):
-            if (v_til[0, k] <= 1e-3 and dtg_ha[0, k] <= 1e-3):
-                if (ddtg_ha[0, k] <= 1e-4 and dv_til[0, k] <= 1e-4):  # l'Hopital won't work
+            if (v_til[0, k] <= 1e-3 and abs(dtg_ha[0, k]) <= 1e-3):
+                if (abs(ddtg_ha[0, k]) <= 1e-4 and abs(dv_til[0, k]) <= 1e-4):  # l'Hopital won't work
                     delta[0, k] = delta[0, k-1]  # choose previous steering angle
                 else:
                     # the ratio determines the steering angle: keep it on the same branch when slowing down
@@ -281,7 +281,7 @@ class AGV(Vehicle):
                     delta[0, k] = np.arctan2(-2*sgn*ddtg_ha[0, k]*self.length , (sgn*dv_til[0, k]*(1+tg_ha[0, k]**2)**2))
                 ddelta[0, k] = ddelta[0, k-1]  # choose previous input
         # end
-        if (v_til[0, -1] <= 1e-4 and dtg_ha[0, -1] <= 1e-4):  # correct at end point
+        if (v_til[0, -1] <= 1e-4 and abs(dtg_ha[0, -1]) <= 1e-4):  # correct at end point
             delta[0, -1] = delta[0, -2]
             ddelta[0, -1] = ddelta[0, -2]
         input = np.c_[v_til*(1+tg_ha**2)]  # V
diff --git a/omgtools/vehicles/bicycle.py b/omgtools/vehicles/bicycle.py
index a85406d..0f8b52d 100644
--- a/omgtools/vehicles/bicycle.py
+++ b/omgtools/vehicles/bicycle.py
@@ -317,13 +317,13 @@ class Bicycle(Vehicle):
         ddelta = (2*ddtg_ha*self.length*(v_til*(1+tg_ha**2)**2)-2*dtg_ha*self.length*(dv_til*(1+tg_ha**2)**2 + v_til*(4*tg_ha+4*tg_ha**3)*dtg_ha))/(v_til**2*(1+tg_ha**2)**4+(2*dtg_ha*self.length)**2)
         # check if you needed to use l'Hopital's rule to find delta and ddelta above, if so adapt signals
         # start
-        if (v_til[0, 0] <= 1e-4 and dtg_ha[0, 0] <= 1e-4):
+        if (v_til[0, 0] <= 1e-4 and abs(dtg_ha[0, 0]) <= 1e-4):
             delta[0, 0] = np.arctan2(2*ddtg_ha[0, 0]*self.length , (dv_til[0, 0]*(1+tg_ha[0, 0]**2)**2))
             ddelta[0, 0] = ddelta[0, 1]  # choose next input
         # middle
         for k in range(1,len(time)-1):
-            if (v_til[0, k] <= 1e-3 and dtg_ha[0, k] <= 1e-3):
-                if (ddtg_ha[0, k] <= 1e-4 and dv_til[0, k] <= 1e-4):  # l'Hopital won't work
+            if (v_til[0, k] <= 1e-3 and abs(dtg_ha[0, k]) <= 1e-3):
+                if (abs(ddtg_ha[0, k]) <= 1e-4 and abs(dv_til[0, k]) <= 1e-4):  # l'Hopital won't work
                     delta[0, k] = delta[0, k-1]  # choose previous steering angle
                 else:
                     # the ratio determines the steering angle: keep it on the same branch when slowing down
@@ -331,7 +331,7 @@ class Bicycle(Vehicle):
                     delta[0, k] = np.arctan2(2*sgn*ddtg_ha[0, k]*self.length , (sgn*dv_til[0, k]*(1+tg_ha[0, k]**2)**2))
                 ddelta[0, k] = ddelta[0, k-1]  # choose previous input
         # end
-        if (v_til[0, -1] <= 1e-4 and dtg_ha[0, -1] <= 1e-4):  # correct at end point
+        if (v_til[0, -1] <= 1e-4 and abs(dtg_ha[0, -1]) <= 1e-4):  # correct at end point
             delta[0, -1] = delta[0, -2]
             ddelta[0, -1] = ddelta[0, -2]
         input = np.c_[v_til*(1+tg_ha**2)]  # V
-- 
2.43.0


From e9127125856e60db7fea57eca6010d89e8535c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 028/108] fix: angle between trailer and vehicle exceeded its
 limit away from straight ahead

---
 omgtools/vehicles/trailer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omgtools/vehicles/trailer.py b/omgtools/vehicles/trailer.py
index 7bc5dd5..5cb7729 100644
--- a/omgtools/vehicles/trailer.py
+++ b/omgtools/vehicles/trailer.py
@@ -61,8 +61,9 @@ class Trailer(Vehicle):
                                horizon_time*v_til_veh*(2*tg_ha_veh*(1-tg_ha_tr**2)-(1-tg_ha_veh**2)*2*tg_ha_tr) - horizon_time*eps,
                                -inf, 0.)
         # limit angle between vehicle and trailer
-        self.define_constraint(tg_ha_veh - tg_ha_tr - np.tan(self.tmax/2.), -inf, 0.)
-        self.define_constraint(-tg_ha_veh + tg_ha_tr + np.tan(self.tmin/2.), -inf, 0.)
+        # tan((theta_veh-theta_tr)/2) = (tg_ha_veh-tg_ha_tr)/(1+tg_ha_veh*tg_ha_tr)
+        self.define_constraint(tg_ha_veh - tg_ha_tr - np.tan(self.tmax/2.)*(1+tg_ha_veh*tg_ha_tr), -inf, 0.)
+        self.define_constraint(-tg_ha_veh + tg_ha_tr + np.tan(self.tmin/2.)*(1+tg_ha_veh*tg_ha_tr), -inf, 0.)
         # call lead_veh trajectory constraints
         self.lead_veh.define_trajectory_constraints(splines[1: ])
 
-- 
2.43.0


From d23afc16646d3dea66ed5e186d4bc879ce43a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 029/108] fix: option values compared by identity instead of
 equality

---
 omgtools/problems/schedulerproblem.py | 8 ++++----
 omgtools/vehicles/agv.py              | 4 ++--
 omgtools/vehicles/bicycle.py          | 4 ++--
 omgtools/vehicles/holonomic.py        | 8 ++++----
 omgtools/vehicles/holonomic3d.py      | 4 ++--
 omgtools/vehicles/holonomicorient.py  | 4 ++--
 omgtools/vehicles/tool.py             | 4 ++--
 7 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 5fc24a9..37edcf5 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -81,12 +81,12 @@ class SchedulerProblem(Problem):
         self._n_frames = self.n_frames  # save original value
         self.frame_type = options['frame_type'] if 'frame_type' in options else 'shift'
         # set frame size for frame_type shift
-        if self.frame_type is 'shift':
+        if self.frame_type == 'shift':
             # by default frame size is set to 1/5 of total environment width
             self.frame_size = options['frame_size'] if 'frame_size' in options else environment.room[0]['shape'].width*0.2
             # by default move limit is set to 1/4 of frame size
             self.move_limit = options['move_limit'] if 'move_limit' in options else self.frame_size*0.25
-        if self.frame_type is 'corridor':
+        if self.frame_type == 'corridor':
             # scale up frame with small steps or not
             self.scale_up_fine = options['scale_up_fine'] if 'scale_up_fine' in options else True
             self.l_shape = options['l_shape'] if 'l_shape' in options else False
@@ -391,10 +391,10 @@ class SchedulerProblem(Problem):
         if not frame.endpoint == self.goal_state[:2]:  # remove orientation info
             start = time.time()
             start_position = frame.endpoint  # start at end of current frame
-            if frame.type is 'shift':
+            if frame.type == 'shift':
                 next_frame = ShiftFrame(self.environment, start_position, self.frame_size, self.move_limit,
                                    self.global_path, self.options)
-            elif frame.type is 'corridor':
+            elif frame.type == 'corridor':
                 next_frame = CorridorFrame(self.environment, start_position, self.global_path,
                                    self.veh_size, self.margin, self.options)
 
diff --git a/omgtools/vehicles/agv.py b/omgtools/vehicles/agv.py
index 926028a..6a00df8 100644
--- a/omgtools/vehicles/agv.py
+++ b/omgtools/vehicles/agv.py
@@ -307,7 +307,7 @@ class AGV(Vehicle):
 
     def draw(self, t=-1):
         surfaces = []
-        if self.options['plot_type'] is 'car':
+        if self.options['plot_type'] == 'car':
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(width=self.length/8., height=self.length/10.)
             surfaces += car.draw(self.signals['pose'][:3, t])[0]  # vehicle
@@ -326,7 +326,7 @@ class AGV(Vehicle):
             surfaces += wheel.draw(np.r_[pos_back_l, orient_back])[0]  # back wheel left
             surfaces += wheel.draw(np.r_[pos_back_r, orient_back])[0]  # back wheel right
 
-        if self.options['plot_type'] is 'agv':
+        if self.options['plot_type'] == 'agv':
             # plot approximation of vehicle
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(width=self.length/10., height=self.length/14.)
diff --git a/omgtools/vehicles/bicycle.py b/omgtools/vehicles/bicycle.py
index 0f8b52d..df68a53 100644
--- a/omgtools/vehicles/bicycle.py
+++ b/omgtools/vehicles/bicycle.py
@@ -378,7 +378,7 @@ class Bicycle(Vehicle):
 
     def draw(self, t=-1):
         surfaces = []
-        if self.options['plot_type'] is 'car':
+        if self.options['plot_type'] == 'car':
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(self.length/8., self.length/10.)
             surfaces += car.draw(self.signals['pose'][:3, t])[0]  # vehicle
@@ -397,7 +397,7 @@ class Bicycle(Vehicle):
             surfaces += wheel.draw(np.r_[pos_back_l, orient_back])[0]  # back wheel left
             surfaces += wheel.draw(np.r_[pos_back_r, orient_back])[0]  # back wheel right
 
-        if self.options['plot_type'] is 'bicycle':
+        if self.options['plot_type'] == 'bicycle':
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(self.length/2., self.length/6.)
             surfaces += car.draw(self.signals['pose'][:3, t])[0]  # vehicle
diff --git a/omgtools/vehicles/holonomic.py b/omgtools/vehicles/holonomic.py
index aef5c59..d84bfa1 100644
--- a/omgtools/vehicles/holonomic.py
+++ b/omgtools/vehicles/holonomic.py
@@ -32,7 +32,7 @@ class Holonomic(Vehicle):
             self, n_spl=2, degree=3, shapes=shapes, options=options)
 
         if ((not 'syslimit' in self.options) or  # default choose norm_inf
-                (self.options['syslimit'] is 'norm_inf')):
+                (self.options['syslimit'] == 'norm_inf')):
             # user specified separate velocities for x and y
             self.vxmin = bounds['vxmin'] if 'vxmin' in bounds else -0.5
             self.vymin = bounds['vymin'] if 'vymin' in bounds else -0.5
@@ -51,7 +51,7 @@ class Holonomic(Vehicle):
                 self.axmin = self.aymin = bounds['amin']
             if 'amax' in bounds:
                 self.axmax = self.aymax = bounds['amax']
-        elif self.options['syslimit'] is 'norm_2':
+        elif self.options['syslimit'] == 'norm_2':
             self.vmax = bounds['vmax'] if 'vmax' in bounds else 0.5
             self.amax = bounds['amax'] if 'amax' in bounds else 1.
 
@@ -64,13 +64,13 @@ class Holonomic(Vehicle):
         dx, dy = x.derivative(), y.derivative()
         ddx, ddy = x.derivative(2), y.derivative(2)
         # constrain total velocity
-        if self.options['syslimit'] is 'norm_2':
+        if self.options['syslimit'] == 'norm_2':
             self.define_constraint(
                 (dx**2+dy**2) - (horizon_time**2)*self.vmax**2, -inf, 0.)
             self.define_constraint(
                 (ddx**2+ddy**2) - (horizon_time**4)*self.amax**2, -inf, 0.)
         # constrain local velocity
-        elif self.options['syslimit'] is 'norm_inf':
+        elif self.options['syslimit'] == 'norm_inf':
             self.define_constraint(-dx + horizon_time*self.vxmin, -inf, 0.)
             self.define_constraint(-dy + horizon_time*self.vymin, -inf, 0.)
             self.define_constraint(dx - horizon_time*self.vxmax, -inf, 0.)
diff --git a/omgtools/vehicles/holonomic3d.py b/omgtools/vehicles/holonomic3d.py
index 7ced526..3c76411 100644
--- a/omgtools/vehicles/holonomic3d.py
+++ b/omgtools/vehicles/holonomic3d.py
@@ -47,12 +47,12 @@ class Holonomic3D(Vehicle):
         x, y, z = splines
         dx, dy, dz = x.derivative(), y.derivative(), z.derivative()
         ddx, ddy, ddz = x.derivative(2), y.derivative(2), z.derivative(2)
-        if self.options['syslimit'] is 'norm_2':
+        if self.options['syslimit'] == 'norm_2':
             self.define_constraint(
                 (dx**2+dy**2+dz**2) - (horizon_time**2)*self.vmax**2, -inf, 0.)
             self.define_constraint(
                 (ddx**2+ddy**2+ddz**2) - (horizon_time**4)*self.amax**2, -inf, 0.)
-        elif self.options['syslimit'] is 'norm_inf':
+        elif self.options['syslimit'] == 'norm_inf':
             self.define_constraint(-dx + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(-dy + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(-dz + horizon_time*self.vmin, -inf, 0.)
diff --git a/omgtools/vehicles/holonomicorient.py b/omgtools/vehicles/holonomicorient.py
index 90c7ff1..9a8bc0f 100644
--- a/omgtools/vehicles/holonomicorient.py
+++ b/omgtools/vehicles/holonomicorient.py
@@ -52,12 +52,12 @@ class HolonomicOrient(Vehicle):
         x, y, tg_ha = splines
         dx, dy, dtg_ha = x.derivative(), y.derivative(), tg_ha.derivative()
         ddx, ddy = x.derivative(2), y.derivative(2)
-        if self.options['syslimit'] is 'norm_2':
+        if self.options['syslimit'] == 'norm_2':
             self.define_constraint(
                 (dx**2+dy**2) - (horizon_time**2)*self.vmax**2, -inf, 0.)
             self.define_constraint(
                 (ddx**2+ddy**2) - (horizon_time**4)*self.amax**2, -inf, 0.)
-        elif self.options['syslimit'] is 'norm_inf':
+        elif self.options['syslimit'] == 'norm_inf':
             self.define_constraint(-dx + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(-dy + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(dx - horizon_time*self.vmax, -inf, 0.)
diff --git a/omgtools/vehicles/tool.py b/omgtools/vehicles/tool.py
index 89da6a3..a7760a0 100644
--- a/omgtools/vehicles/tool.py
+++ b/omgtools/vehicles/tool.py
@@ -87,7 +87,7 @@ class Tool(Vehicle):
         dddx, dddy, dddz = x.derivative(3), y.derivative(3), z.derivative(3)  # jerk
 
         # constrain local velocity
-        if self.options['vel_limit'] is 'machining':
+        if self.options['vel_limit'] == 'machining':
             # the machining process is the limiting factor, so limit the total velocity
             # in x- and y-axis combined
             if self.vxmax != 0.:
@@ -99,7 +99,7 @@ class Tool(Vehicle):
                 self.define_constraint(
                     (dz**2) - (horizon_time**2)*self.vzmax**2, -inf, 0., skip=skip)
 
-        elif self.options['vel_limit'] is 'axes':
+        elif self.options['vel_limit'] == 'axes':
             # the axes themselves are the limiting factor, so limit the x- and y- axis separately
             self.define_constraint(-dx + horizon_time*self.vxmin, -inf, 0., skip=skip)
             self.define_constraint(-dy + horizon_time*self.vymin, -inf, 0., skip=skip)
-- 
2.43.0


From d6baa3109006ccf91eabf22bf9c771e495a9dd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 030/108] fix: product with a symbolic spline of one
 coefficient raised NameError

---
 omgtools/basics/spline.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/omgtools/basics/spline.py b/omgtools/basics/spline.py
index 6975894..7d8bd25 100644
--- a/omgtools/basics/spline.py
+++ b/omgtools/basics/spline.py
@@ -432,8 +432,14 @@ class BSpline(Spline):
             basis_product = b_self[:, pairs[0]].multiply(b_other[:, pairs[1]])
             T = basis.transform(lambda y: basis_product.toarray()[y, :])
             try:
-                coeffs_product = (self.coeffs[pairs[0].tolist()] *
-                                  other.coeffs[pairs[1].tolist()])
+                c_self = self.coeffs[pairs[0].tolist()]
+                c_other = other.coeffs[pairs[1].tolist()]
+                # casadi gives a row instead of a column when indexing a scalar
+                if isinstance(c_self, (cas.MX, cas.SX)):
+                    c_self = cas.vec(c_self)
+                if isinstance(c_other, (cas.MX, cas.SX)):
+                    c_other = cas.vec(c_other)
+                coeffs_product = c_self*c_other
             except:  # cvxopt, cvxpy, assuming other.coeffs is not a variable
                 S = np.zeros((len(pairs[0]), len(self)))
                 S[[list(range(len(pairs[0]))), pairs[0]]] = 1.
-- 
2.43.0


From 4800867583b6993ecc3008a3774bdfde5924a7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 031/108] fix: 3D vehicles could stick out of the room by their
 radius

---
 omgtools/vehicles/vehicle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 98fd1f8..e797b5f 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -224,12 +224,12 @@ class Vehicle(OptiChild, PlotLayer):
                 lims = room['shape'].get_canvas_limits()
                 room_limits = []
                 room_limits += [lims[k]+room['position'][k] for k in range(self.n_dim)]
-                for chck in checkpoints:
+                for l, chck in enumerate(checkpoints):
                     for k in range(3):
                         self.define_constraint(-
-                                               (chck[k]+position[k]) + room_limits[k][0], -inf, 0.)
+                                               (chck[k]+position[k]) + room_limits[k][0] + rad[l], -inf, 0.)
                         self.define_constraint(
-                            (chck[k]+position[k]) - room_limits[k][1], -inf, 0.)
+                            (chck[k]+position[k]) - room_limits[k][1] + rad[l], -inf, 0.)
 
     def get_fleet_center(self, splines, rel_pos, substitute=True):
         rel_pos = rel_pos if isinstance(rel_pos,list) else vertsplit(rel_pos)
-- 
2.43.0


From 8c51b3a41f9e57afbb47b9f6a3ad946b3d4e69e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 032/108] fix: several bicycles or AGVs in one problem could
 not be set up

---
 omgtools/vehicles/agv.py     | 3 +--
 omgtools/vehicles/bicycle.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/omgtools/vehicles/agv.py b/omgtools/vehicles/agv.py
index 6a00df8..bf96734 100644
--- a/omgtools/vehicles/agv.py
+++ b/omgtools/vehicles/agv.py
@@ -69,7 +69,7 @@ class AGV(Vehicle):
 
     def init(self):
         self.t = self.define_symbol('t')  # current time of first knot
-        self.pos0 = self.define_symbol('pos0', 2)  # current position
+        self.pos0 = self.define_parameter('pos0', 2)  # current position
 
     def define_trajectory_constraints(self, splines, horizon_time=None):
         if horizon_time is None:
@@ -153,7 +153,6 @@ class AGV(Vehicle):
         tg_haT = self.define_parameter('tg_haT', 1)
         dtg_haT = self.define_parameter('dtg_haT', 1)
         ddtg_haT = self.define_parameter('ddtg_haT', 1)
-        self.define_parameter('pos0', 2)  # starting position for integration
         v_til, tg_ha = splines
         dv_til, dtg_ha = v_til.derivative(), tg_ha.derivative()
         ddtg_ha = tg_ha.derivative(2)
diff --git a/omgtools/vehicles/bicycle.py b/omgtools/vehicles/bicycle.py
index df68a53..47bed97 100644
--- a/omgtools/vehicles/bicycle.py
+++ b/omgtools/vehicles/bicycle.py
@@ -72,7 +72,7 @@ class Bicycle(Vehicle):
 
     def init(self):
         self.t = self.define_symbol('t')  # current time of first knot
-        self.pos0 = self.define_symbol('pos0', 2)  # current position
+        self.pos0 = self.define_parameter('pos0', 2)  # current position
 
     def define_trajectory_constraints(self, splines, horizon_time=None):
         if horizon_time is None:
@@ -181,7 +181,6 @@ class Bicycle(Vehicle):
         tg_haT = self.define_parameter('tg_haT', 1)
         dtg_haT = self.define_parameter('dtg_haT', 1)
         ddtg_haT = self.define_parameter('ddtg_haT', 1)
-        self.define_parameter('pos0', 2)  # starting position for integration
         v_til, tg_ha = splines
         dv_til, dtg_ha = v_til.derivative(), tg_ha.derivative()
         ddtg_ha = tg_ha.derivative(2)
-- 
2.43.0


From 9d7fcfabe912db8ee4b0259bc1bd10d44660fd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 033/108] fix: room limits of 3D polyhedra are reached by their
 vertices (only spheres have a radius)

---
 omgtools/vehicles/vehicle.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index e797b5f..54e2d3b 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -20,7 +20,7 @@
 from ..basics.optilayer import OptiChild
 from ..basics.spline import BSplineBasis
 from ..basics.spline_extra import concat_splines, definite_integral, sample_splines
-from ..basics.shape import Rectangle, Square, Circle
+from ..basics.shape import Rectangle, Square, Circle, Sphere
 from ..execution.plotlayer import PlotLayer
 from casadi import inf, vertsplit
 from scipy.signal import filtfilt, butter
@@ -224,12 +224,15 @@ class Vehicle(OptiChild, PlotLayer):
                 lims = room['shape'].get_canvas_limits()
                 room_limits = []
                 room_limits += [lims[k]+room['position'][k] for k in range(self.n_dim)]
+                # extent of a checkpoint: a sphere has its radius in all
+                # directions, while the vertices of a polyhedron are its extent
+                extent = rad if isinstance(shape, Sphere) else [0.]*len(rad)
                 for l, chck in enumerate(checkpoints):
                     for k in range(3):
                         self.define_constraint(-
-                                               (chck[k]+position[k]) + room_limits[k][0] + rad[l], -inf, 0.)
+                                               (chck[k]+position[k]) + room_limits[k][0] + extent[l], -inf, 0.)
                         self.define_constraint(
-                            (chck[k]+position[k]) - room_limits[k][1] + rad[l], -inf, 0.)
+                            (chck[k]+position[k]) - room_limits[k][1] + extent[l], -inf, 0.)
 
     def get_fleet_center(self, splines, rel_pos, substitute=True):
         rel_pos = rel_pos if isinstance(rel_pos,list) else vertsplit(rel_pos)
-- 
2.43.0


From 643d63177925a5a8e8417f6f1e578ab1cb48210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:54 +0000
Subject: [PATCH 034/108] fix: delay of a late update was one sample short by
 rounding

---
 omgtools/execution/deployer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/execution/deployer.py b/omgtools/execution/deployer.py
index 4d8fd64..8f2ea9a 100644
--- a/omgtools/execution/deployer.py
+++ b/omgtools/execution/deployer.py
@@ -58,7 +58,7 @@ class Deployer:
             self.problem.initialize(current_time)
             delay = 0
         else:
-            delay = int((current_time - self.current_time - update_time)/self.sample_time)
+            delay = int(np.round((current_time - self.current_time - update_time)/self.sample_time, 6))
 
         # if the update time + delay is more than the time which is left, leave out the delay
         if hasattr(self.problem.vehicles[0], 'trajectories'):
-- 
2.43.0


From 30fba4439b6b942a68524fc3d06facb666352b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:54 +0000
Subject: [PATCH 035/108] fix: simulator time ran one sample behind the
 recorded signals after a task

---
 omgtools/execution/simulator.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/omgtools/execution/simulator.py b/omgtools/execution/simulator.py
index 565daa3..a937613 100644
--- a/omgtools/execution/simulator.py
+++ b/omgtools/execution/simulator.py
@@ -41,12 +41,11 @@ class Simulator:
         stop = False
         while not stop:
             stop = self.update()
-            ### adapted ###
-            if (stop or self.update_time - float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)) > self.sample_time:
-                update_time = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
-                 # correcting for first time
-                 # avoid negative update times
-                self.update_timing(max(0,update_time-self.sample_time))
+            # the last update of a motion can be shorter than the update time
+            executed = float(self.problem.vehicles[0].signals['time'][0, -1] - self.current_time)
+            if stop or (self.update_time - executed) > 0.5*self.sample_time:
+                # avoid negative update times
+                self.update_timing(max(0., executed))
             else:
                 self.update_timing()
 
@@ -103,7 +102,7 @@ class Simulator:
         self.time = np.r_[0.]
 
     def update_timing(self, update_time=None):
-        update_time = self.update_time if not update_time else update_time
+        update_time = self.update_time if update_time is None else update_time
         self.current_time += update_time
         n_samp = int(np.round(update_time/self.sample_time, 6))
         # n_samp = max(0, int(np.round(update_time/self.sample_time, 6)))
-- 
2.43.0


From f50b41873d0da25c54575b9d7ae3aa81d4c1b29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:54 +0000
Subject: [PATCH 036/108] fix: fixed time problem with a single knot interval
 failed on passing a knot

---
 omgtools/basics/spline_extra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index b836fda..fb1e358 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -169,7 +169,7 @@ def shiftoverknot_T(basis):
     knots = basis.knots
     deg = basis.degree
     m = 1  # number of repeating internal knots
-    while knots[-deg-2-m] >= knots[-deg-2]:
+    while m < len(knots)-2*deg-2 and knots[-deg-2-m] >= knots[-deg-2]:
         m += 1
     # first extrapolate over the last knot interval, then move the first knots
     # of the extended spline onto the first internal knot: both steps can act
-- 
2.43.0


From a0660534f15a4d7cd25e0ebf335df5ffa9b24ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 037/108] fix: knot period of a fixed time problem was
 truncated and ignored a horizon time set via set_options

---
 omgtools/problems/point2point.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index d6628b7..f1230c1 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -131,8 +131,11 @@ class FixedTPoint2point(Point2pointProblem):
         if self.vehicles[0].knot_intervals is None:
             raise ValueError('A constant knot interval should be used for ' +
                              'a fixed T point2point problem.')
-        self.knot_time = (int(self.options['horizon_time']*1000.) /
-                          self.vehicles[0].knot_intervals) / 1000.
+
+    @property
+    def knot_time(self):
+        # follows the horizon time, which can still be set after construction
+        return float(self.options['horizon_time'])/self.vehicles[0].knot_intervals
 
     def set_default_options(self):
         Point2pointProblem.set_default_options(self)
-- 
2.43.0


From c96fc0b7913a266140c14999ebf414d66cbd1f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 038/108] fix: updates near a knot or passing several knots
 used the wrong part of the plan

---
 omgtools/problems/point2point.py | 35 ++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index f1230c1..92565be 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -174,10 +174,27 @@ class FixedTPoint2point(Point2pointProblem):
                 self.define_constraint(spline(1.) - condition, 0., 0.)
         self.define_objective(objective)
 
+    def get_knot_interval(self, time):
+        # index of the knot interval containing the given time, which is
+        # measured from the start of the motion
+        return int(np.floor(np.round(time/self.knot_time, 6)))
+
+    def get_time_in_interval(self, time):
+        # time elapsed since the last knot (np.round(time, 6) % knot_time can
+        # end up at the wrong side of a knot, e.g. 0.3 % 0.1)
+        return max(0., np.round(time - self.get_knot_interval(time)*self.knot_time, 6))
+
+    def get_passed_knots(self, current_time):
+        # number of knots passed since the previous update
+        if not hasattr(self, 'current_time_prev'):
+            return self.get_knot_interval(current_time)
+        return max(0, self.get_knot_interval(current_time) -
+                   self.get_knot_interval(self.current_time_prev))
+
     def set_parameters(self, current_time):
         parameters = Point2pointProblem.set_parameters(self, current_time)
         if self.init_time is None:
-            parameters[self]['t'] = np.round(current_time, 6) % self.knot_time
+            parameters[self]['t'] = self.get_time_in_interval(current_time)
         else:
             parameters[self]['t'] = self.init_time
         parameters[self]['T'] = self.options['horizon_time']
@@ -188,12 +205,8 @@ class FixedTPoint2point(Point2pointProblem):
     # ========================================================================
 
     def init_step(self, current_time, update_time):
-        # transform spline variables
-        if not hasattr(self, 'current_time_prev'):
-            self.current_time_prev = 0
-        interval_prev = int(np.round(self.current_time_prev/self.knot_time, 6))
-        interval_now = int(np.round(current_time/self.knot_time, 6))
-        if (interval_prev < interval_now): # passed a knot
+        # transform spline variables: several knots can be passed at once
+        for _ in range(self.get_passed_knots(current_time)):
             self.father.transform_primal_splines(lambda coeffs, basis, T:
                                                  T.dot(coeffs))
             # self.father.transform_dual_splines(lambda coeffs, basis, T:
@@ -211,7 +224,7 @@ class FixedTPoint2point(Point2pointProblem):
 
     def initialize(self, current_time):
         Point2pointProblem.initialize(self, current_time)
-        self.current_time_prev = current_time
+        self.current_time_prev = 0.
 
     def store(self, current_time, update_time, sample_time):
         horizon_time = self.options['horizon_time']
@@ -220,7 +233,7 @@ class FixedTPoint2point(Point2pointProblem):
             # its time horizon lies in the past. Therefore, we need to pass the
             # current time relatively to the begin of this time horizon. In this
             # way, only the future, relevant, part will be saved/plotted.
-            rel_current_time = np.round(current_time-self.start_time, 6) % self.knot_time
+            rel_current_time = self.get_time_in_interval(current_time-self.start_time)
         else:
             rel_current_time = self.init_time
         # store trajectories in vehicles
@@ -238,7 +251,7 @@ class FixedTPoint2point(Point2pointProblem):
     def simulate(self, current_time, simulation_time, sample_time):
         horizon_time = self.options['horizon_time']
         if self.init_time is None:
-            rel_current_time = np.round(current_time-self.start_time, 6) % self.knot_time
+            rel_current_time = self.get_time_in_interval(current_time-self.start_time)
         else:
             rel_current_time = self.init_time
         if horizon_time - rel_current_time < simulation_time:
@@ -247,7 +260,7 @@ class FixedTPoint2point(Point2pointProblem):
         Problem.simulate(self, current_time, simulation_time, sample_time)
 
     def compute_partial_objective(self, current_time, update_time):
-        rel_current_time = np.round(current_time-self.start_time, 6) % self.knot_time
+        rel_current_time = self.get_time_in_interval(current_time-self.start_time)
         horizon_time = self.options['horizon_time']
         t0 = rel_current_time/horizon_time
         t1 = t0 + update_time/horizon_time
-- 
2.43.0


From e942c8abc038091615ae7219b383f5468971364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 039/108] fix: distributed updates between knots did not move
 the exchanged splines over the passed knots

---
 omgtools/problems/admm.py              | 12 ++++++------
 omgtools/problems/dualdecomposition.py | 10 +++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/omgtools/problems/admm.py b/omgtools/problems/admm.py
index 20b2c3f..2b57b54 100644
--- a/omgtools/problems/admm.py
+++ b/omgtools/problems/admm.py
@@ -409,7 +409,7 @@ class ADMM(DualUpdater):
         t0 = time.time()
         self.var_admm['z_i_p'] = self.var_admm['z_i']
         self.var_admm['z_ij_p'] = self.var_admm['z_ij']
-        current_time = np.round(current_time, 6) % self.problem.knot_time
+        current_time = self.problem.get_time_in_interval(current_time)
         horizon_time = self.problem.options['horizon_time']
         rho = self.options['rho']
         if self._lineq_updz:
@@ -456,7 +456,7 @@ class ADMM(DualUpdater):
         l_i = self.var_admm['l_i']
         l_ij = self.var_admm['l_ij']
         x_j = self.var_admm['x_j']
-        t = np.round(current_time, 6) % self.problem.knot_time
+        t = self.problem.get_time_in_interval(current_time)
         T = self.problem.options['horizon_time']
         rho = self.options['rho']
         out = self.problem_upd_l(x_i, z_i, z_ij, l_i, l_ij, x_j, rho)
@@ -475,11 +475,11 @@ class ADMM(DualUpdater):
             self.var_admm['x_j'][str(nghb)] = x_j
 
     def init_step(self, current_time, update_time):
+        passed_knots = self.problem.get_passed_knots(current_time)
         self.problem.init_step(current_time, update_time)
         # transform spline variables
-        if ((current_time > 0. and
-             np.round(current_time, 6) % self.problem.knot_time == 0)):
-            tf = shift_over_knot
+        tf = shift_over_knot
+        for _ in range(passed_knots):
             for key in ['x_i', 'z_i', 'z_i_p', 'l_i', 'l_i_p']:
                 self.var_admm[key] = self._transform_spline(
                     self.var_admm[key], tf, self.q_i)
@@ -499,7 +499,7 @@ class ADMM(DualUpdater):
         z_ij = self.var_admm['z_ij']
         z_ij_p = self.var_admm['z_ij_p']
         x_j = self.var_admm['x_j']
-        t = np.round(current_time, 6) % self.problem.knot_time
+        t = self.problem.get_time_in_interval(current_time)
         T = self.problem.options['horizon_time']
         rho = self.options['rho']
         out = self.problem_upd_res(x_i, z_i, z_i_p, z_ij, z_ij_p, x_j, t, T, rho)
diff --git a/omgtools/problems/dualdecomposition.py b/omgtools/problems/dualdecomposition.py
index 0dd2ac7..0a2a961 100644
--- a/omgtools/problems/dualdecomposition.py
+++ b/omgtools/problems/dualdecomposition.py
@@ -214,7 +214,7 @@ class DDUpdater(DualUpdater):
         x_j = self.var_dd['x_j']
         z_ij = self.var_dd['z_ij']
         l_ij = self.var_dd['l_ij']
-        t = np.round(current_time, 6) % self.problem.knot_time
+        t = self.problem.get_time_in_interval(current_time)
         T = self.problem.options['horizon_time']
         rho = self.options['rho']
         out = self.problem_upd_l(x_j, z_ij, l_ij, t, T, rho)
@@ -230,11 +230,11 @@ class DDUpdater(DualUpdater):
             self.var_dd['x_j'][str(nghb)] = x_j
 
     def init_step(self, current_time, update_time):
+        passed_knots = self.problem.get_passed_knots(current_time)
         self.problem.init_step(current_time, update_time)
         # transform spline variables
-        if ((current_time > 0. and
-             np.round(current_time, 6) % self.problem.knot_time == 0)):
-            tf = shift_over_knot
+        tf = shift_over_knot
+        for _ in range(passed_knots):
             for key in ['x_i']:
                 self.var_dd[key] = self._transform_spline(
                     self.var_dd[key], tf, self.q_i)
@@ -247,7 +247,7 @@ class DDUpdater(DualUpdater):
 
     def get_residuals(self, current_time):
         t0 = time.time()
-        current_time = np.round(current_time, 6) % self.problem.knot_time
+        current_time = self.problem.get_time_in_interval(current_time)
         horizon_time = self.problem.options['horizon_time']
         tf = lambda cfs, basis: shift_knot1_fwd(
             cfs, basis, current_time/horizon_time)
-- 
2.43.0


From b45de120199ee7a0ce094b40100e69c2d3341180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:38 +0000
Subject: [PATCH 040/108] fix: extrapolating a spline with a single knot
 interval failed

---
 omgtools/basics/spline_extra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index fb1e358..bf99e6b 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -111,7 +111,7 @@ def extrapolate_T(basis, t_extra):
     deg = basis.degree
     N = len(basis)
     m = 1  # number of repeating internal knots
-    while knots[-deg-2-m] >= knots[-deg-2]:
+    while m < len(knots)-2*deg-2 and knots[-deg-2-m] >= knots[-deg-2]:
         m += 1
     knots2 = np.r_[knots[:-deg-1], knots[-deg-1]*np.ones(m),
                    (knots[-1]+t_extra)*np.ones(deg+1)]
-- 
2.43.0


From 7b688e4d34c6368f90b1addd3a03676770385ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 041/108] fix: trajectories of deployed dubins, bicycle and AGV
 vehicles always started at the initial pose

---
 omgtools/vehicles/agv.py     | 4 ++--
 omgtools/vehicles/bicycle.py | 8 ++++----
 omgtools/vehicles/dubins.py  | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/omgtools/vehicles/agv.py b/omgtools/vehicles/agv.py
index bf96734..c1b4685 100644
--- a/omgtools/vehicles/agv.py
+++ b/omgtools/vehicles/agv.py
@@ -249,8 +249,8 @@ class AGV(Vehicle):
         dy = v_til*(2*tg_ha)
         if not hasattr(self, 'signals'):  # first iteration
             dx_int, dy_int = running_integral(dx), running_integral(dy)
-            x = dx_int - dx_int(time[0]) + self.pose0[0]
-            y = dy_int - dy_int(time[0]) + self.pose0[1]
+            x = dx_int - dx_int(time[0]) + self.prediction['state'][0]
+            y = dy_int - dy_int(time[0]) + self.prediction['state'][1]
         else:
             dx_int, dy_int = running_integral(dx), running_integral(dy)  # current state
             x = dx_int - dx_int(time[0]) + self.signals['state'][0, -1]
diff --git a/omgtools/vehicles/bicycle.py b/omgtools/vehicles/bicycle.py
index 47bed97..07d2262 100644
--- a/omgtools/vehicles/bicycle.py
+++ b/omgtools/vehicles/bicycle.py
@@ -294,8 +294,8 @@ class Bicycle(Vehicle):
         dx = v_til*(1-tg_ha**2)
         dy = v_til*(2*tg_ha)
         if not hasattr(self, 'signals'):  # first iteration
-            x = self.integrate_once(dx, self.pose0[0], time[0])
-            y = self.integrate_once(dy, self.pose0[1], time[0])
+            x = self.integrate_once(dx, self.prediction['state'][0], time[0])
+            y = self.integrate_once(dy, self.prediction['state'][1], time[0])
             # dx_int, dy_int = running_integral(dx), running_integral(dy)
             # x = dx_int - dx_int(time[0]) + self.pose0[0]
             # y = dy_int - dy_int(time[0]) + self.pose0[1]
@@ -352,8 +352,8 @@ class Bicycle(Vehicle):
             dx2 = concat_splines([dx2], [horizon_time])[0]
             dy2 = concat_splines([dy2], [horizon_time])[0]
             if not hasattr(self, 'signals'): # first iteration
-                x2 = self.integrate_once(dx2, self.pose0[0], time[0])
-                y2 = self.integrate_once(dy2, self.pose0[1], time[0])
+                x2 = self.integrate_once(dx2, self.prediction['state'][0], time[0])
+                y2 = self.integrate_once(dy2, self.prediction['state'][1], time[0])
             else:
                 x2 = self.integrate_once(dx2, self.signals['state'][0, -1], time[0])
                 y2 = self.integrate_once(dy2, self.signals['state'][1, -1], time[0])
diff --git a/omgtools/vehicles/dubins.py b/omgtools/vehicles/dubins.py
index f7aaacc..83bbcb6 100644
--- a/omgtools/vehicles/dubins.py
+++ b/omgtools/vehicles/dubins.py
@@ -276,8 +276,8 @@ class Dubins(Vehicle):
         dx = v_til*(1-tg_ha**2)
         dy = v_til*(2*tg_ha)
         if not hasattr(self, 'signals'):  # first iteration
-            x = self.integrate_once(dx, self.pose0[0], time[0])
-            y = self.integrate_once(dy, self.pose0[1], time[0])
+            x = self.integrate_once(dx, self.prediction['state'][0], time[0])
+            y = self.integrate_once(dy, self.prediction['state'][1], time[0])
         else:
             x = self.integrate_once(dx, self.signals['state'][0, -1], time[0])
             y = self.integrate_once(dy, self.signals['state'][1, -1], time[0])
@@ -308,8 +308,8 @@ class Dubins(Vehicle):
             dx2 = concat_splines([dx2], [horizon_time])[0]
             dy2 = concat_splines([dy2], [horizon_time])[0]
             if not hasattr(self, 'signals'): # first iteration
-                x2 = self.integrate_once(dx2, self.pose0[0], time[0])
-                y2 = self.integrate_once(dy2, self.pose0[1], time[0])
+                x2 = self.integrate_once(dx2, self.prediction['state'][0], time[0])
+                y2 = self.integrate_once(dy2, self.prediction['state'][1], time[0])
             else:
                 x2 = self.integrate_once(dx2, self.signals['state'][0, -1], time[0])
                 y2 = self.integrate_once(dy2, self.signals['state'][1, -1], time[0])
-- 
2.43.0


From d22bbe390cbdd176dc3540b05d906c779a50d2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 042/108] fix: a trailer could not start a second motion from
 its current state

---
 omgtools/vehicles/trailer.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/omgtools/vehicles/trailer.py b/omgtools/vehicles/trailer.py
index 5cb7729..9e35f50 100644
--- a/omgtools/vehicles/trailer.py
+++ b/omgtools/vehicles/trailer.py
@@ -98,15 +98,16 @@ class Trailer(Vehicle):
     def set_initial_conditions(self, state, input=None):
         if input is None:
             input = np.zeros(2)
-        theta = state
-        # add complete state(6 elements) and input(2 elements)
+        # complete state(6 elements) and input(2 elements)
         # [x_tr, y_tr, theta_tr, x_veh, y_veh, theta_veh]
-        state = np.zeros(6)
-        state[2] = theta  # theta, imposed on trailer by the user
-        # Build up prediction of complete system.
-        # Note that this requires initializing the vehicle before the trailer
-        state[3:] = self.lead_veh.prediction['state']
-        input = self.lead_veh.prediction['input']
+        if np.size(state) == 1:
+            theta = np.ravel(state)[0]
+            state = np.zeros(6)
+            state[2] = theta  # theta, imposed on trailer by the user
+            # Build up prediction of complete system.
+            # Note that this requires initializing the vehicle before the trailer
+            state[3:] = self.lead_veh.prediction['state']
+            input = self.lead_veh.prediction['input']
         self.prediction['state'] = state
         self.prediction['input'] = input  # lead_veh inputs [V_veh, dtheta_veh]. You also need theta_veh,
         # so this is also an input to the trailer, but it is already a state.
-- 
2.43.0


From 588d91142533b6c87ddc4d337db6eda46289178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 043/108] fix: initial guess of a free time problem was moved
 too far in time

---
 omgtools/problems/point2point.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 92565be..61cbe09 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -378,9 +378,10 @@ class FreeTPoint2point(Point2pointProblem):
                 target_time = T - update_time
             # create spline which starts from the position at update_time and goes
             # to goal position at target_time. Approximate/Represent this spline in
-            # a new basis with new equidistant knots.
+            # a new basis with new equidistant knots. The previous spline is
+            # defined over [0, T].
             self.father.transform_primal_splines(
-                lambda coeffs, basis: shift_spline(coeffs, update_time/target_time, basis))
+                lambda coeffs, basis: shift_spline(coeffs, update_time/T, basis))
             self.father.set_variables(target_time, self, 'T')
 
     def compute_partial_objective(self, current_time):
-- 
2.43.0


From 121300f41a221a65c2e13bec75952cf492cf9810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 044/108] fix: second motion of a free time problem did not
 move its initial guess in time

---
 omgtools/problems/point2point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 61cbe09..77b4ac1 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -368,7 +368,7 @@ class FreeTPoint2point(Point2pointProblem):
         return Point2pointProblem.stop_criterium(self, current_time, update_time)
 
     def init_step(self, current_time, update_time):
-        if (current_time - self.start_time) > 0:
+        if current_time > 0:  # measured from the start of the motion
             T = self.father.get_variables(self, 'T')[0][0]
             # check if almost arrived, if so lower the update time
             if T < 2*update_time:
-- 
2.43.0


From 98968364d54a06f9fb0718b6a9f22deaf26cd363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 045/108] fix: stepping beyond the planned horizon let
 simulator time run ahead of the recorded signals

---
 omgtools/execution/simulator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/omgtools/execution/simulator.py b/omgtools/execution/simulator.py
index a937613..84f3c3d 100644
--- a/omgtools/execution/simulator.py
+++ b/omgtools/execution/simulator.py
@@ -62,12 +62,14 @@ class Simulator:
 
     def step(self, update_time=0.1):
         stop = self.update()
-        if stop:
-            update_time = float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
-            self.update_timing(update_time)
-            self.problem.final()
+        # the last update of a motion can be shorter than the update time
+        executed = float(self.problem.vehicles[0].signals['time'][0, -1] - self.current_time)
+        if stop or (update_time - executed) > 0.5*self.sample_time:
+            self.update_timing(max(0., executed))
         else:
             self.update_timing(update_time)
+        if stop:
+            self.problem.final()
         # return trajectories and signals
         trajectories, signals, curr_state = {}, {}, {}
         # determine remaining motion time
-- 
2.43.0


From 7831ac015de74373136cf67a347d95616ab6ef70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:26 +0000
Subject: [PATCH 046/108] fix: resetting the initial guess after running out of
 solver time raised an error

---
 omgtools/problems/problem.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/omgtools/problems/problem.py b/omgtools/problems/problem.py
index 9f530a8..71a0831 100644
--- a/omgtools/problems/problem.py
+++ b/omgtools/problems/problem.py
@@ -164,13 +164,17 @@ class Problem(OptiChild, PlotLayer):
 
     def reset_init_guess(self, init_guess=None):
             if init_guess is None:  # no user provided initial guess
-                init_guess = []
+                init_guesses = []
                 for k, vehicle in enumerate(self.vehicles):  # build list
-                    init_guess.append(vehicle.get_init_spline_value())
-            elif not isinstance(init_guess, list):  # guesses must be in a list
-                init_guess = [init_guess]
+                    # every vehicle gives a list with a guess for each segment
+                    init_guesses.append(vehicle.get_init_spline_value())
+            else:
+                if not isinstance(init_guess, list):  # guesses must be in a list
+                    init_guess = [init_guess]
+                init_guesses = [init_guess for vehicle in self.vehicles]
 
             for k, vehicle in enumerate(self.vehicles):
+                init_guess = init_guesses[k]
                 if len(init_guess) != vehicle.n_seg:
                     raise ValueError('Each spline segment of the vehicle should receive an initial guess.')
                 else:
-- 
2.43.0


From e215f8be38c618314882dd0966275e5299d416d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 047/108] fix: reading a GCode file with a blank line raised an
 error

---
 omgtools/gui/gcode_reader.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index 3583a43..dc56c4f 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -130,7 +130,10 @@ class GCodeReader(object):
         for line in file_str:
             line = line.strip().decode("utf-8")
             # extract commands
-            if line[0] == '(':
+            if not line:
+                # this is a blank line
+                pass
+            elif line[0] == '(':
                 # this is a commented line
                 pass
             elif line[0] == 'G' or (line[0] == 'N' and (any([code in line for code in self.GCodes]))):
@@ -153,7 +156,10 @@ class GCodeReader(object):
             for line in file_str:
                 line = line.strip().decode("utf-8")
                 # extract commands
-                if line[0] == 'G' or (line[0] == 'N' and 'G' in line):
+                if not line:
+                    # this is a blank line
+                    pass
+                elif line[0] == 'G' or (line[0] == 'N' and 'G' in line):
                     self.commands.append(line)
 
     def create_blocks(self):
-- 
2.43.0


From 4f06af61786736c95274c8f2151c0c29e3e777ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 048/108] fix: subfiles of a GCode file that was given by name
 could not be found

---
 omgtools/gui/gcode_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index dc56c4f..0a01abf 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -4,6 +4,7 @@ try:
 except ImportError:
   import Tkinter as tk
   import tkFileDialog as tkfiledialog
+import os
 import numpy as np
 from matplotlib import pyplot as plt
 from mpl_toolkits.mplot3d import Axes3D
@@ -33,7 +34,6 @@ class GCodeReader(object):
 
         if file is None:
             file = tkfiledialog.askopenfilename(filetypes=[('GCode files', '.nc'), ('all files','.*')])
-            self.filepath = file.rsplit('/',1)[0]  # save file path without the file name
             if file:
                 try:
                     data = open(file, 'rb')
@@ -47,6 +47,7 @@ class GCodeReader(object):
                 print(details)
                 return
         self.file = data
+        self.filepath = os.path.dirname(os.path.abspath(file))  # save file path without the file name
 
     def convert(self):
         # shift midpoint and scale up or down a certain GCode file
-- 
2.43.0


From 733b1a7b9836e54e07758be91f88a31200b95d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 049/108] fix: shifting and scaling GCode raised an error

---
 omgtools/gui/gcode_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index 0a01abf..c3c8f7d 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -59,7 +59,7 @@ class GCodeReader(object):
 
         if answer == 'yes':
             # shift and scale the GCode file
-            lines = self.file.read().splitlines()
+            lines = self.file.read().decode("utf-8").splitlines()
 
             # get user input for offset and scaling factor
             offset = []
-- 
2.43.0


From 6bb795400db20349a315cd4b7036d2dca05a62e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 050/108] fix: words in a GCode comment were read as
 coordinates

---
 omgtools/gui/gcode_block.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omgtools/gui/gcode_block.py b/omgtools/gui/gcode_block.py
index 967437c..515b113 100644
--- a/omgtools/gui/gcode_block.py
+++ b/omgtools/gui/gcode_block.py
@@ -1,3 +1,4 @@
+import re
 import numpy as np
 
 import warnings
@@ -293,6 +294,7 @@ def distance_between(point1, point2):
 
 def generate_gcodeblock(command, number, prev_block):
     # convert string to a dictionary representation
+    command = re.sub(r'\([^)]*\)', ' ', command)  # remove comments
     command = command.split()  # split at white spaces
     command_dict = {}
     for c in command:
-- 
2.43.0


From 5922825788f9bb9ceaace83908dc0c7bd359d4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 051/108] fix: center of a GCode arc with an omitted I or J

---
 omgtools/gui/gcode_block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/gui/gcode_block.py b/omgtools/gui/gcode_block.py
index 515b113..305877d 100644
--- a/omgtools/gui/gcode_block.py
+++ b/omgtools/gui/gcode_block.py
@@ -67,7 +67,7 @@ class G02(GCodeBlock):
 
         self.plane = 'XY'  # in which plane is the arc formed
 
-        self.center = [0, 0, 0]  # initialize
+        self.center = [self.X0, self.Y0, self.Z0]  # initialize, an omitted I, J or K is zero
         if 'I' in command:
             self.I = command['I']
             self.center[0] = self.X0+self.I
@@ -177,7 +177,7 @@ class G03(GCodeBlock):
 
         self.plane = 'XY'  # in which plane is the arc formed
 
-        self.center = [0, 0, 0]  # initialize
+        self.center = [self.X0, self.Y0, self.Z0]  # initialize, an omitted I, J or K is zero
         if 'I' in command:
             self.I = command['I']
             self.center[0] = self.X0+self.I
-- 
2.43.0


From f1c9bd206dbb518211f891568a4cd7d800f53b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 052/108] fix: a counter-clockwise GCode arc had no radius
 until it was drawn

---
 omgtools/gui/gcode_block.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omgtools/gui/gcode_block.py b/omgtools/gui/gcode_block.py
index 305877d..28a4ffc 100644
--- a/omgtools/gui/gcode_block.py
+++ b/omgtools/gui/gcode_block.py
@@ -187,6 +187,7 @@ class G03(GCodeBlock):
         if 'K' in command:
             self.K = command['K']
             self.center[2] = self.Z0+self.K
+        self.radius = distance_between(self.center, [self.X0, self.Y0,self.Z0])
 
         # Todo: add check if IJ, IK, or JK present, if not throw error
 
-- 
2.43.0


From addf0d799229bf93a0af766ff2e53b169ca278a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:42 +0000
Subject: [PATCH 053/108] fix: a GCode arc ending where it starts is a full
 circle

---
 omgtools/gui/gcode_block.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/omgtools/gui/gcode_block.py b/omgtools/gui/gcode_block.py
index 28a4ffc..6d52a6f 100644
--- a/omgtools/gui/gcode_block.py
+++ b/omgtools/gui/gcode_block.py
@@ -107,7 +107,7 @@ class G02(GCodeBlock):
             angle1 = np.arctan2(self.Z0-self.center[2], self.Y0-self.center[1])
             angle2 = np.arctan2(self.Z1-self.center[2], self.Y1-self.center[1])
 
-            if angle1 < angle2:
+            if angle1 <= angle2:
                 # clockwise so angle2 must be < angle1
                 # probably angle2 is smaller, but arctan2 returned a negative angle
                 angle1 += 2*np.pi
@@ -128,7 +128,7 @@ class G02(GCodeBlock):
             angle1 = angle1
             angle2 = np.arctan2(self.Z1-self.center[2], self.X1-self.center[0])
 
-            if angle1 < angle2:
+            if angle1 <= angle2:
                 # clockwise so angle2 must be < angle1
                 # probably angle2 is smaller, but arctan2 returned a negative angle
                 angle1 += 2*np.pi
@@ -150,7 +150,7 @@ class G02(GCodeBlock):
             angle1 = np.arctan2(self.Y0-self.center[1], self.X0-self.center[0])
             angle2 = np.arctan2(self.Y1-self.center[1], self.X1-self.center[0])
 
-            if angle1 < angle2:
+            if angle1 <= angle2:
                 # clockwise so angle2 must be < angle1
                 # probably angle2 is smaller, but arctan2 returned a negative angle
                 angle1 += 2*np.pi
@@ -219,7 +219,7 @@ class G03(GCodeBlock):
             angle1 = np.arctan2(self.Z0-self.center[2], self.Y0-self.center[1])
             angle2 = np.arctan2(self.Z1-self.center[2], self.Y1-self.center[1])
 
-            if angle1 > angle2:
+            if angle1 >= angle2:
                 # counter-clockwise so angle2 must be > angle1
                 # probably angle2 is bigger, but arctan2 returned a negative angle
                 angle2 += 2*np.pi
@@ -242,7 +242,7 @@ class G03(GCodeBlock):
             angle1 = np.arctan2(self.Z0-self.center[2], self.X0-self.center[0])
             angle2 = np.arctan2(self.Z1-self.center[2], self.X1-self.center[0])
 
-            if angle1 > angle2:
+            if angle1 >= angle2:
                 # counter-clockwise so angle2 must be > angle1
                 # probably angle2 is bigger, but arctan2 returned a negative angle
                 angle2 += 2*np.pi
@@ -266,7 +266,7 @@ class G03(GCodeBlock):
             angle1 = np.arctan2(self.Y0-self.center[1], self.X0-self.center[0])
             angle2 = np.arctan2(self.Y1-self.center[1], self.X1-self.center[0])
 
-            if angle1 > angle2:
+            if angle1 >= angle2:
                 # counter-clockwise so angle2 must be > angle1
                 # probably angle2 is bigger, but arctan2 returned a negative angle
                 angle2 += 2*np.pi
-- 
2.43.0


From 24d1a163ad3576a29ece341f1222a028dabb6ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 054/108] fix: shifting and scaling GCode failed on comments

---
 omgtools/gui/gcode_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index c3c8f7d..46a5662 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -5,6 +5,7 @@ except ImportError:
   import Tkinter as tk
   import tkFileDialog as tkfiledialog
 import os
+import re
 import numpy as np
 from matplotlib import pyplot as plt
 from mpl_toolkits.mplot3d import Axes3D
@@ -73,6 +74,7 @@ class GCodeReader(object):
             # apply offset
             offset_lines = []
             for line in lines:
+                line = re.sub(r'\([^)]*\)', ' ', line)  # remove comments
                 if any(type in line for type in ['G00', 'G01', 'G02', 'G03']):
                     # only look at lines containing a GCode command
                     split_line = line.split()
-- 
2.43.0


From 8aa09632512b040b289cb75fff77ac54d3eb9240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 055/108] fix: making a room of a GCode arc changed the center
 of its block

---
 omgtools/problems/gcodeschedulerproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index ddf4ee9..07317b6 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -549,7 +549,7 @@ class GCodeSchedulerProblem(Problem):
             # make a single ring segment
             shape = Ring(radius_in = radius_in, radius_out = radius_out,
                          start = start, end = end, direction = direction)
-            pose = block.center
+            pose = list(block.center)
             pose.extend([0.,0.,0.])  # [x,y,z,orientation], ring always has orientation 0
             new_room = [{'shape': shape, 'pose': pose, 'position': pose[:2], 'draw':True,
                         'start': block.start, 'end': block.end, 'number':number}]
-- 
2.43.0


From 9735b3843794fa0746c3d9ef8569835aa1f10ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 056/108] fix: rooms of GCode arcs that are split and have a
 variable tolerance had wrong numbers, starts and ends

---
 omgtools/problems/gcodeschedulerproblem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index 07317b6..afb2e0f 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -490,11 +490,11 @@ class GCodeSchedulerProblem(Problem):
 
                         divided_rooms.extend([
                                         {'shape': shape1, 'pose': pose, 'position': pose[:2], 'draw':True,
-                                        'start': block.start, 'end': seg_end1, 'number':number},
+                                        'start': r['start'], 'end': seg_end1, 'number':number+len(divided_rooms)},
                                         {'shape': shape2, 'pose': pose, 'position': pose[:2], 'draw':True,
-                                        'start': seg_start2 , 'end': seg_end2, 'number':number+1},
+                                        'start': seg_start2 , 'end': seg_end2, 'number':number+len(divided_rooms)+1},
                                         {'shape': shape3, 'pose': pose, 'position': pose[:2], 'draw':True,
-                                        'start': seg_start3, 'end': block.end, 'number':number+2}])
+                                        'start': seg_start3, 'end': r['end'], 'number':number+len(divided_rooms)+2}])
                     # assign divided rooms to old variable
                     new_room = divided_rooms
             # save original GCode block in the room description
-- 
2.43.0


From d1b394cb0247957f5f937ed4a966fbcfdf7e1422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 057/108] fix: rooms of GCode lines with a movement in z were
 too long and parts of split lines started and ended at the wrong place

---
 omgtools/problems/gcodeschedulerproblem.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index afb2e0f..4c25721 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -245,7 +245,8 @@ class GCodeSchedulerProblem(Problem):
                 # not using variable tolerance, or segment is too short to split
                 if (not self.variable_tolerance or distance_between_points(block.start, block.end) < self.split_length):
                     # add tolerance to width to obtain the complete reachable region
-                    width = distance_between_points(block.start, block.end) + 2*tolerance
+                    # room lies in the xy-plane, so use the length in this plane
+                    width = distance_between_points(block.start[:2], block.end[:2]) + 2*tolerance
                     height = 2*tolerance
                     orientation = np.arctan2(block.end[1]-block.start[1], block.end[0]-block.start[0])
                     shape = Rectangle(width = width,  height = height, orientation = orientation)
@@ -261,7 +262,8 @@ class GCodeSchedulerProblem(Problem):
                     # large tolerances in the first and last parts, tight tolerance in the middle part
 
                     orientation = np.arctan2(block.end[1]-block.start[1], block.end[0]-block.start[0])
-                    width = distance_between_points(block.start, block.end)  # default width
+                    width = distance_between_points(block.start[:2], block.end[:2])  # default width, in the xy-plane
+                    height_z = block.end[2]-block.start[2]  # movement in z, equally divided over the length
 
                     ## part 1
                     l1 = self.split_small*width
@@ -270,11 +272,11 @@ class GCodeSchedulerProblem(Problem):
                     shape1 = Rectangle(width = width1,  height = height1, orientation = orientation)
                     pose1 = [block.start[0] + 0.5*l1*np.cos(orientation),
                              block.start[1] + 0.5*l1*np.sin(orientation),
-                             block.start[2] + (block.end[2]-block.start[2])*0.5,
+                             block.start[2] + 0.5*self.split_small*height_z,
                              orientation,0.,0.]
                     end1 = [block.start[0] + l1*np.cos(orientation),
                             block.start[1] + l1*np.sin(orientation),
-                            block.start[2] + (block.end[2]-block.start[2])]
+                            block.start[2] + self.split_small*height_z]
 
                     ## part 2, tolerance = tolerance_small
                     l2 = (1-2*self.split_small)*width
@@ -288,7 +290,7 @@ class GCodeSchedulerProblem(Problem):
                     start2 = end1
                     end2 = [block.start[0] + (l1+l2)*np.cos(orientation),
                             block.start[1] + (l1+l2)*np.sin(orientation),
-                            block.start[2] + (block.end[2]-block.start[2])]
+                            block.start[2] + (1-self.split_small)*height_z]
 
                     ## part 3
                     l3 = l1
@@ -297,7 +299,7 @@ class GCodeSchedulerProblem(Problem):
                     shape3 = Rectangle(width = width3,  height = height3, orientation = orientation)
                     pose3 = [block.end[0] - 0.5*l3*np.cos(orientation),
                              block.end[1] - 0.5*l3*np.sin(orientation),
-                             block.start[2] + (block.end[2]-block.start[2])*0.5,
+                             block.end[2] - 0.5*self.split_small*height_z,
                              orientation,0.,0.]
                     start3 = end2
 
-- 
2.43.0


From 5355ee6ffa5d2be7674de84d91ec4ad92e32e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 058/108] fix: rooms and initial guess of GCode arcs that are
 (almost) a full circle covered the wrong part of the circle

---
 omgtools/basics/shape.py                   |  4 +-
 omgtools/problems/gcodeschedulerproblem.py | 45 ++++++++++++----------
 2 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/omgtools/basics/shape.py b/omgtools/basics/shape.py
index 2f7872b..8738ab6 100644
--- a/omgtools/basics/shape.py
+++ b/omgtools/basics/shape.py
@@ -88,7 +88,9 @@ class Ring(Shape2D):
     def get_surfaces(self):
         if (self.start == self.end).all():
             # full ring, placed in the origin
-            s = np.linspace(0, 2*np.pi, 1000)
+            self.start_angle = np.arctan2(self.start[1], self.start[0])
+            self.end_angle = self.start_angle + (-2*np.pi if self.direction == 'CW' else 2*np.pi)
+            s = np.linspace(self.start_angle, self.end_angle, 1000)
         else:
             # part of a ring, placed in the origin
             self.start_angle = np.arctan2(self.start[1], self.start[0])
diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index 4c25721..8bc9658 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -324,6 +324,23 @@ class GCodeSchedulerProblem(Problem):
                 R1 = np.array([[np.cos(theta), -np.sin(theta)],[np.sin(theta), np.cos(theta)]])  # rotation matrix
                 R2 = np.array([[np.cos(-theta), -np.sin(-theta)],[np.sin(-theta), np.cos(-theta)]])  # rotation matrix
 
+                # angle of the arc, without including tolerance
+                angle1 = np.arctan2(start[1], start[0])
+                angle2 = np.arctan2(end[1], end[0])
+                # arctan2 may have returned a negative angle, when start and end are equal this is a full circle
+                if block.type == 'G02':
+                    # clockwise so angle2 must be < angle1
+                    if angle1 <= angle2:
+                        angle1 += 2*np.pi
+                    arc_angle = angle1 - angle2
+                else:
+                    # counter-clockwise so angle2 must be > angle1
+                    if angle1 >= angle2:
+                        angle2 += 2*np.pi
+                    arc_angle = angle2 - angle1
+                # use extended version of the ring
+                arc_angle += 2*theta
+
                 # Todo: rotation only works for 2D XY arcs for now
 
                 if block.type == 'G02':
@@ -336,23 +353,6 @@ class GCodeSchedulerProblem(Problem):
                     end[:2] = np.dot(R1, end[:2])  # slightly rotated end point
 
                 # split ring segments of more than 135 degrees in two equal parts
-                # use extended version of the ring
-                angle1 = np.arctan2(start[1], start[0])
-                angle2 = np.arctan2(end[1], end[0])
-                if block.type == 'G02':
-                    if angle1 < angle2:
-                        # clockwise so angle2 must be < angle1
-                        # probably angle2 is smaller, but arctan2 returned a negative angle
-                        angle1 += 2*np.pi
-                    arc_angle = angle1 - angle2
-                elif block.type == 'G03':
-                    if angle1 > angle2:
-                        # counter-clockwise so angle2 must be > angle1
-                        # probably angle2 is bigger, but arctan2 returned a negative angle
-                        angle2 += 2*np.pi
-                    arc_angle = angle2 - angle1
-                else:
-                    raise RuntimeError('Invalid block type: ', block.type)
                 new_room = self.split_ring_segment(block, arc_angle, start, end, radius_in, radius_out, direction, tolerance, number)
 
                 if self.variable_tolerance:
@@ -373,13 +373,13 @@ class GCodeSchedulerProblem(Problem):
                         angle2 = np.arctan2(end[1], end[0])
 
                         if direction == 'CW':
-                            if angle1 < angle2:
+                            if angle1 <= angle2:
                                 # clockwise so angle2 must be < angle1
                                 # probably angle2 is smaller, but arctan2 returned a negative angle
                                 angle1 += 2*np.pi
                             arc_angle = angle1 - angle2
                         else:
-                            if angle1 > angle2:
+                            if angle1 >= angle2:
                                 # counter-clockwise so angle2 must be > angle1
                                 # probably angle2 is bigger, but arctan2 returned a negative angle
                                 angle2 += 2*np.pi
@@ -549,6 +549,9 @@ class GCodeSchedulerProblem(Problem):
                          'start': mid2_shift, 'end': block.end, 'number':number+1}]
         else:
             # make a single ring segment
+            if arc_angle >= 2*np.pi:
+                # extended version of the ring is a full ring
+                end = start
             shape = Ring(radius_in = radius_in, radius_out = radius_out,
                          start = start, end = end, direction = direction)
             pose = list(block.center)
@@ -1083,10 +1086,10 @@ class GCodeSchedulerProblem(Problem):
         theta0 = np.arctan2(segment['start'][1] - center[1], segment['start'][0] - center[0])  # start angle
         theta1 = np.arctan2(segment['end'][1] - center[1], segment['end'][0] - center[0])  # end angle
         if segment['shape'].direction == 'CW':  # theta must decrease
-            if theta0 < theta1:  # theta0 needs to be bigger
+            if theta0 <= theta1:  # theta0 needs to be bigger
                 theta0 += 2*np.pi
         else:  # counter-clockwise, theta must increase
-            if theta0 > theta1:  # theta1 needs to be bigger
+            if theta0 >= theta1:  # theta1 needs to be bigger
                 theta1 += 2*np.pi
         # calculate circle radius
         r = np.sqrt((center[0] - segment['start'][0])**2 + (center[1] - segment['start'][1])**2)
-- 
2.43.0


From ea678c98b4d89a5b2bcc5beda18cae5de7f14e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 059/108] fix: initial guess of a GCode arc was at height zero

---
 omgtools/problems/gcodeschedulerproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index 8bc9658..e71f401 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -1116,7 +1116,7 @@ class GCodeSchedulerProblem(Problem):
 
         init_guess_x = np.array(init_guess_x.T)[0]
         init_guess_y = np.array(init_guess_y.T)[0]
-        init_guess_z = 0*init_guess_x
+        init_guess_z = np.linspace(segment['start'][2], segment['end'][2], len(basis))
         init_guess = np.c_[init_guess_x, init_guess_y, init_guess_z]
 
         # plot results
-- 
2.43.0


From 1b3e53ceb3d864a23a975449a602b5346b61048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:14 +0000
Subject: [PATCH 060/108] fix: first GCode block was skipped when the tool
 starts in the extension of the second block

---
 omgtools/problems/gcodeschedulerproblem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index e71f401..e1231ba 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -119,7 +119,8 @@ class GCodeSchedulerProblem(Problem):
 
         # did we move far enough over the current segment yet?
         print('Current GCode block: ', self.n_current_block)
-        segments_valid = self.check_segments()
+        # the tool did not yet move over the first segment if nothing was solved yet
+        segments_valid = not self.update_times or self.check_segments()
         if not segments_valid:
             # add new segment and remove first one
             if hasattr(self, 'no_update') and self.no_update:
-- 
2.43.0


From b4efdf4d7e159f46580011091d5c1ca5f8762340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:25 +0000
Subject: [PATCH 061/108] fix: margin was ignored when checking if the tool is
 in the extension of a horizontal or vertical GCode block

---
 omgtools/problems/gcodeschedulerproblem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index e1231ba..044725c 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -684,8 +684,8 @@ class GCodeSchedulerProblem(Problem):
         if (isinstance(segment['shape'], (Rectangle, Square))):
             if (segment['shape'].orientation%(np.pi) == 0):
                 # horizontal line segment
-                if (point[1] < max(segment['shape'].vertices[1,:]+segment['position'][1]) and
-                    point[1] > min(segment['shape'].vertices[1,:]+segment['position'][1])):
+                if (point[1] < max(segment['shape'].vertices[1,:]+segment['position'][1]) - distance and
+                    point[1] > min(segment['shape'].vertices[1,:]+segment['position'][1]) + distance):
                     return True
                 else:
                     return False
@@ -693,8 +693,8 @@ class GCodeSchedulerProblem(Problem):
                 # vertical line segment
                 # Note: also a shape with orientation 0 would pass this test, but this was
                 # already captured in first if-test
-                if (point[0] < max(segment['shape'].vertices[0,:]+segment['position'][0]) and
-                    point[0] > min(segment['shape'].vertices[0,:]+segment['position'][0])):
+                if (point[0] < max(segment['shape'].vertices[0,:]+segment['position'][0]) - distance and
+                    point[0] > min(segment['shape'].vertices[0,:]+segment['position'][0]) + distance):
                     return True
                 else:
                     return False
-- 
2.43.0


From e25665ae3cdad7b8bd4bf1a4451a683369ef3211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:32 +0000
Subject: [PATCH 062/108] fix: ADMM residuals were not computed on the
 remaining part of the horizon

---
 omgtools/problems/admm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/admm.py b/omgtools/problems/admm.py
index 2b57b54..4190823 100644
--- a/omgtools/problems/admm.py
+++ b/omgtools/problems/admm.py
@@ -292,8 +292,10 @@ class ADMM(DualUpdater):
         x_j = self.q_ij_struct(x_j)
         # transform spline variables: only consider future piece of spline
         tf = lambda cfs, basis: shift_knot1_fwd(cfs, basis, t0)
-        self._transform_spline([x_i, z_i, z_i_p], tf, self.q_i)
-        self._transform_spline([x_j, z_ij, z_ij_p], tf, self.q_ij)
+        x_i, z_i, z_i_p = self._transform_spline(
+            [x_i, z_i, z_i_p], tf, self.q_i)
+        x_j, z_ij, z_ij_p = self._transform_spline(
+            [x_j, z_ij, z_ij_p], tf, self.q_ij)
         # compute residuals
         pr = mtimes((x_i.cat-z_i.cat).T, (x_i.cat-z_i.cat))
         pr += mtimes((x_j.cat-z_ij.cat).T, (x_j.cat-z_ij.cat))
-- 
2.43.0


From 076ae0fb1911ab4d5a36491ca97ccbf52e6062d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:32 +0000
Subject: [PATCH 063/108] fix: dual decomposition reported the norm of squared
 residuals

---
 omgtools/problems/dualdecomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/dualdecomposition.py b/omgtools/problems/dualdecomposition.py
index 0a2a961..c4ca15c 100644
--- a/omgtools/problems/dualdecomposition.py
+++ b/omgtools/problems/dualdecomposition.py
@@ -291,7 +291,7 @@ class DDProblem(DualProblem):
             t2, pr = updater.get_residuals(current_time)
             t_upd_l = max(t_upd_l, t1)
             t_res = max(t_res, t2)
-            p_res += pr**2
+            p_res += pr  # pr is a squared value
         p_res = np.sqrt(p_res)
         for updater in self.updaters:
             updater.communicate()
-- 
2.43.0


From ca04d0f22b573c5b69bf10a2998c67071a69ffd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:04 +0000
Subject: [PATCH 064/108] fix: coordination update of ADMM did not consider the
 remaining part of the horizon, as the local updates do

---
 omgtools/problems/admm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omgtools/problems/admm.py b/omgtools/problems/admm.py
index 4190823..8487376 100644
--- a/omgtools/problems/admm.py
+++ b/omgtools/problems/admm.py
@@ -141,8 +141,8 @@ class ADMM(DualUpdater):
         l_ij = self.q_ij_struct(l_ij)
         # transform spline variables: only consider future piece of spline
         tf = lambda cfs, basis: shift_knot1_fwd(cfs, basis, t0)
-        self._transform_spline([x_i, l_i], tf, self.q_i)
-        self._transform_spline([x_j, l_ij], tf, self.q_ij)
+        x_i, l_i = self._transform_spline([x_i, l_i], tf, self.q_i)
+        x_j, l_ij = self._transform_spline([x_j, l_ij], tf, self.q_ij)
         # fill in parameters
         A = A(par.cat)
         b = b(par.cat)
@@ -159,8 +159,8 @@ class ADMM(DualUpdater):
         z_ij_new = self.q_ij_struct(z[l_qi:l_qi+l_qij])
         # transform back
         tf = lambda cfs, basis: shift_knot1_bwd(cfs, basis, t0)
-        self._transform_spline(z_i_new, tf, self.q_i)
-        self._transform_spline(z_ij_new, tf, self.q_ij)
+        z_i_new = self._transform_spline(z_i_new, tf, self.q_i)
+        z_ij_new = self._transform_spline(z_ij_new, tf, self.q_ij)
         out = [z_i_new.cat, z_ij_new.cat]
         # create problem
         prob, buildtime = create_function('upd_z_'+str(self._index), inp, out, self.options)
-- 
2.43.0


From 75c379dca6ea09025b1ce4d163d87fdfffd8e1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 065/108] fix: central formation of two circularly connected
 vehicles was not imposed

---
 omgtools/problems/formation_central.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/formation_central.py b/omgtools/problems/formation_central.py
index 459ac9d..f8213c2 100644
--- a/omgtools/problems/formation_central.py
+++ b/omgtools/problems/formation_central.py
@@ -53,7 +53,8 @@ class FormationPoint2pointCentral(FixedTPoint2point):
             for nghb in self.fleet.get_neighbors(veh):
                 if veh not in couples[nghb] and nghb not in couples[veh]:
                     couples[veh].append(nghb)
-        if self.fleet.interconnection == 'circular':
+        if self.fleet.interconnection == 'circular' and self.fleet.N > 2:
+            # the ring is closed: last couples are redundant
             couples.pop(self.vehicles[-1], None)
             couples.pop(self.vehicles[-2], None)
 
-- 
2.43.0


From 0567bf4a978378ecc3b299bd491dd876dbf75b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 066/108] fix: stored fleet center of Dubins vehicles did not
 match the center used in the formation constraints

---
 omgtools/vehicles/dubins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/vehicles/dubins.py b/omgtools/vehicles/dubins.py
index 83bbcb6..6c67023 100644
--- a/omgtools/vehicles/dubins.py
+++ b/omgtools/vehicles/dubins.py
@@ -293,8 +293,8 @@ class Dubins(Vehicle):
         signals['input'] = np.c_[v_s, dtheta.T].T
         signals['acc'] = np.c_[acc_s].T
         if hasattr(self, 'rel_pos_c'):
-            x_c = x_s + sample_splines([self.rel_pos_c[0]*2*tg_ha + self.rel_pos_c[1]*(1-tg_ha**2)], time)[0]/den
-            y_c = y_s + sample_splines([self.rel_pos_c[1]*2*tg_ha - self.rel_pos_c[0]*(1-tg_ha**2)], time)[0]/den
+            x_c = x_s + sample_splines([self.rel_pos_c[0]*(1-tg_ha**2) - self.rel_pos_c[1]*2*tg_ha], time)[0]/den
+            y_c = y_s + sample_splines([self.rel_pos_c[0]*2*tg_ha + self.rel_pos_c[1]*(1-tg_ha**2)], time)[0]/den
             signals['fleet_center'] = np.c_[x_c, y_c].T
 
         if (self.options['substitution']): # and not self.options['exact_substitution']):  # don't plot error for exact_subs
-- 
2.43.0


From dd6142622aa06132a89e30a1c5c7a0788fd33416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:22 +0000
Subject: [PATCH 067/108] fix: number of frames was wrong when the goal is
 reached more than one frame early

---
 omgtools/problems/schedulerproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 37edcf5..d83ea6b 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -337,7 +337,7 @@ class SchedulerProblem(Problem):
             # check if previously created frame was last one
             if frame and frame.waypoints[-1] == self.goal_state[:2]:  # remove orientation info
                 # reduce amount of frames that are considered and stop loop
-                self.n_frames -= 1
+                self.n_frames = len(self.frames)
                 break
             # set start position for computation of frame that we will add
             if frame:
-- 
2.43.0


From 7fa4f0469f9f297344b700e715e5cdf745847195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 068/108] fix: L-shaped corridors failed when the first
 corridor contains the goal

---
 omgtools/problems/schedulerproblem.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index d83ea6b..1389d13 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -365,9 +365,11 @@ class SchedulerProblem(Problem):
             # reshape the current frames into an L-shape
             if (self.n_frames == 1 and hasattr(self, 'next_frame')):
                 # looking only one frame ahead
-                frames = self.frames[0].create_l_shape(self.next_frame)
-                self.frames = [frames[0]]
-                self.next_frame = frames[1]
+                if self.next_frame is not None:
+                    # there is still coming a next frame
+                    frames = self.frames[0].create_l_shape(self.next_frame)
+                    self.frames = [frames[0]]
+                    self.next_frame = frames[1]
             else:
                 # reshape all frames until the last one
                 for k in range(len(self.frames)-1):
-- 
2.43.0


From 6cfe792edf4a976622c3e2e856ed61ebd746e7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:30 +0000
Subject: [PATCH 069/108] fix: only waypoint of a frame was replaced by the
 current position of the vehicle

---
 omgtools/problems/schedulerproblem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 1389d13..245705d 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -573,7 +573,11 @@ class SchedulerProblem(Problem):
         if frame is self.frames[0]:
             # current frame: change first waypoint to current state,
             # the startpoint of the init guess
-            waypoints[0] = [self.curr_state[0], self.curr_state[1]]
+            if len(waypoints) > 1:
+                waypoints[0] = [self.curr_state[0], self.curr_state[1]]
+            else:
+                # keep the only waypoint, since this is the point to move to
+                waypoints.insert(0, [self.curr_state[0], self.curr_state[1]])
 
         # use waypoints for prediction
         x, y = [], []
-- 
2.43.0


From 8025237dd698f2a52e6b89393f73a4eee20a0de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:09 +0000
Subject: [PATCH 070/108] fix: making the last waypoint of a frame reachable
 failed when no other waypoint is far enough from the border

---
 omgtools/environment/frame.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index d951fe7..ea88558 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -255,12 +255,14 @@ class Frame(object):
             if (not inside_border or any(abs(d) <= self.veh_size*self.margin for d in dist_to_border)):
                 # waypoint was outside of border, or too close to border
                 count = 1
-                while True:  # find waypoint that is far enough from border
+                reachable_point = self.start_pos  # when no waypoint is far enough from border
+                while count < len(self.waypoints):  # find waypoint that is far enough from border
                     inside_border = point_in_rectangle(self.waypoints[-1-count], self.border['limits'])
                     dist_to_border = self.distance_to_border(self.waypoints[-1-count])
                     if (not inside_border or any(abs(d) <= self.veh_size for d in dist_to_border)):
                         count += 1  # this waypoint was also outside of, or too close to border
                     else:  # found waypoint that is far enough from border
+                        reachable_point = self.waypoints[-1-count]
                         break
                 # check if waypoint is inside rectangle in x- and/or y-direction
                 inside_border = point_in_rectangle(self.waypoints[-1], self.border['limits'], xy_check=True)
@@ -270,7 +272,7 @@ class Frame(object):
                 desired_distance = 2*[self.veh_size*self.margin]
 
                 # use desired distance to move waypoint to a reachable position
-                x1, y1 = self.waypoints[-1-count]  # reachable waypoint inside frame
+                x1, y1 = reachable_point[0], reachable_point[1]  # reachable waypoint inside frame
                 x2, y2 = self.waypoints[-1]  # unreachable waypoint inside or outside frame
                 if (not inside_border[0] or abs(dist_to_border[0]) < self.veh_size):
                     # to avoid floating point comparison problems, check distance without margin here
-- 
2.43.0


From 0424ec64cd2556549dee112276609b61eeb56b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:39 +0000
Subject: [PATCH 071/108] fix: corridor that contains the goal listed way
 points outside of the corridor

---
 omgtools/environment/frame.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index ea88558..7eb826e 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -621,10 +621,10 @@ class CorridorFrame(Frame):
             else:
                 # frame with first waypoint and goal position contained no obstacles
                 # directly using this frame
-                points_in_frame = self.global_path[index:]
+                points_in_frame = [p for p in self.global_path[index:] if self.point_in_frame(p)]
         else:
             # all the remaining waypoints are in the current frame
-            points_in_frame.extend(self.global_path[index:])
+            points_in_frame.extend([p for p in self.global_path[index:] if self.point_in_frame(p)])
             # make endpoint_frame equal to the goal (point = self.global_path[-1] here)
             self.endpoint = point
         if not points_in_frame:
-- 
2.43.0


From e6c61438e5e55acf3197e11a38d2cb1524575c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:00 +0000
Subject: [PATCH 072/108] fix: initial guess of a later frame with only one
 waypoint failed

---
 omgtools/problems/schedulerproblem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 245705d..32d75bb 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -578,6 +578,9 @@ class SchedulerProblem(Problem):
             else:
                 # keep the only waypoint, since this is the point to move to
                 waypoints.insert(0, [self.curr_state[0], self.curr_state[1]])
+        elif len(waypoints) == 1:
+            # move from the start of the frame to its only waypoint
+            waypoints.insert(0, [frame.start_pos[0], frame.start_pos[1]])
 
         # use waypoints for prediction
         x, y = [], []
-- 
2.43.0


From d3f49546141bb088efb774fd04504cecd6bb5910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:17 +0000
Subject: [PATCH 073/108] fix: enlarging a corridor with a way point could move
 a border inwards, past the start

---
 omgtools/environment/frame.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index 7eb826e..88af2f8 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -641,15 +641,14 @@ class CorridorFrame(Frame):
         xmin,ymin,xmax,ymax = self.border['limits']
         xmin_new,ymin_new,xmax_new,ymax_new = xmin,ymin,xmax,ymax
         if point[0] > prev_point[0]:
-            xmax_new = point[0] + self.veh_size*self.margin
+            xmax_new = max(xmax, point[0] + self.veh_size*self.margin)
         elif point[0] < prev_point[0]:
-            xmin_new = point[0] - self.veh_size*self.margin
+            xmin_new = min(xmin, point[0] - self.veh_size*self.margin)
         # else: xmin and xmax are kept
         if point[1] > prev_point[1]:
-            ymax_new = point[1] + self.veh_size*self.margin
+            ymax_new = max(ymax, point[1] + self.veh_size*self.margin)
         elif point[1] < prev_point[1]:
-            ymin_new = point[1] - self.veh_size*self.margin
-            ymax_new = ymax
+            ymin_new = min(ymin, point[1] - self.veh_size*self.margin)
         # else: ymin and ymax are kept
 
         self.border = self.make_border(xmin_new,ymin_new,xmax_new,ymax_new)
-- 
2.43.0


From 52cc5bd0bd0b1be3601c9e53aba18326eaf0f99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:47 +0000
Subject: [PATCH 074/108] fix: scaled up corridor could end up outside of the
 room

---
 omgtools/environment/frame.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index 88af2f8..81d6171 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -682,6 +682,7 @@ class CorridorFrame(Frame):
                     self.border = self.make_border(xmin,ymin,xmax_new,ymax)
                     if xmax_new > self.environment.room[0]['shape'].get_canvas_limits()[0][1] + self.environment.room[0]['position'][0]:
                         # the frame hit the borders, this is the maximum size in this direction
+                        self.border = self.make_border(xmin,ymin,xmax,ymax)
                         break
                     if not self.get_stationary_obstacles():
                         # there is no obstacle in the enlarged frame, so enlarge it
@@ -706,6 +707,7 @@ class CorridorFrame(Frame):
                 self.border = self.make_border(xmin_new,ymin,xmax,ymax)
                 if xmin_new < self.environment.room[0]['shape'].get_canvas_limits()[0][0] + self.environment.room[0]['position'][0]:
                     # the frame hit the borders, this is the maximum size in this direction
+                    self.border = self.make_border(xmin,ymin,xmax,ymax)
                     break
                 if not self.get_stationary_obstacles():
                     xmin = xmin_new
@@ -728,6 +730,7 @@ class CorridorFrame(Frame):
                 self.border = self.make_border(xmin,ymin,xmax,ymax_new)
                 if ymax_new > self.environment.room[0]['shape'].get_canvas_limits()[1][1] + self.environment.room[0]['position'][1]:
                     # the frame hit the borders, this is the maximum size in this direction
+                    self.border = self.make_border(xmin,ymin,xmax,ymax)
                     break
                 if not self.get_stationary_obstacles():
                     ymax = ymax_new
@@ -750,6 +753,7 @@ class CorridorFrame(Frame):
                 self.border = self.make_border(xmin,ymin_new,xmax,ymax)
                 if ymin_new < self.environment.room[0]['shape'].get_canvas_limits()[1][0] + self.environment.room[0]['position'][1]:
                     # the frame hit the borders, this is the maximum size in this direction
+                    self.border = self.make_border(xmin,ymin,xmax,ymax)
                     break
                 if not self.get_stationary_obstacles():
                     ymin = ymin_new
-- 
2.43.0


From ddddc54667ab6dcc1b2760df9bbec7bf758c4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:42 +0000
Subject: [PATCH 075/108] fix: vehicle was kept in a frame that contains the
 goal but does not end at it

---
 omgtools/problems/schedulerproblem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 32d75bb..626a862 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -409,9 +409,9 @@ class SchedulerProblem(Problem):
             return None
 
     def check_frames(self):
-        # if final goal is not in the current frame, compare current distance
+        # if final goal is not the end of the current frame, compare current distance
         # to the local goal with the initial distance
-        if not self.frames[0].point_in_frame(self.goal_state[:2]):
+        if not self.frames[0].endpoint == self.goal_state[:2]:  # remove orientation info
             if (self.n_frames == 1 and hasattr(self, 'next_frame')):
                 if self.next_frame.point_in_frame(self.curr_state[:2], distance=self.veh_size):
                     # only called if self.n_frames = 1,
-- 
2.43.0


From 5a6c74b64367757843e85dc2ca18172af8ae9bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:42 +0000
Subject: [PATCH 076/108] fix: vehicle did not always fit at the goal in the
 corridor that contains it

---
 omgtools/environment/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index 81d6171..1cd8560 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -570,7 +570,7 @@ class CorridorFrame(Frame):
         # run over all waypoints, starting from the waypoint closest to start_pos
         # first try if endpoint can be inside the frame without obstacles
         point = self.global_path[-1]
-        if not self.point_in_frame(point):
+        if not self.point_in_frame(point, distance=self.veh_size*self.margin):
             # next waypoint is not inside frame,
             # enlarge frame such that it is in there
             # determine which borders to move
-- 
2.43.0


From 0ef17310b335bd0c87d862465b8353fcf7dcea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:19 +0000
Subject: [PATCH 077/108] fix: choosing the goal orientation failed when the
 next frame has only one waypoint

---
 omgtools/problems/schedulerproblem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 626a862..63cccb3 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -539,7 +539,8 @@ class SchedulerProblem(Problem):
                     # take second-last waypoint, since last one was moved in make_reachable()
                     x1,y1 = self.frames[-1].waypoints[-2]
                     # take second waypoint, since first will be == second-last of previous frame
-                    x2,y2 = self.next_frame.waypoints[1]
+                    # (unless there is only one)
+                    x2,y2 = self.next_frame.waypoints[:2][-1]
                     # compute angle
                     angle = np.arctan2((y2-y1),(x2-x1))
                 else:
-- 
2.43.0


From 4adfc47b33e1a084345920aa62955de473144e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:16 +0000
Subject: [PATCH 078/108] fix: successive corridors could be equal, such that
 the vehicle got stuck

---
 omgtools/environment/frame.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index 1cd8560..d3be76a 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -591,9 +591,10 @@ class CorridorFrame(Frame):
                     # update limits of frame
                     xmin,ymin,xmax,ymax = self.border['limits']
 
-                    if not self.point_in_frame(point):
-                        # next waypoint is not inside frame,
-                        # enlarge frame such that it is in there
+                    point_inside = self.point_in_frame(point)
+                    if not self.point_in_frame(point, distance=self.veh_size*self.margin):
+                        # vehicle does not fit in frame at next waypoint,
+                        # enlarge frame such that it does
                         # determine which borders to move
                         if points_in_frame:
                             # assign last point in frame
@@ -610,12 +611,15 @@ class CorridorFrame(Frame):
                             # there is an obstacle inside the frame after enlarging
                             # don't add point and keep old frame
                             self.border = self.make_border(xmin,ymin,xmax,ymax)
-                            # frame is finished
-                            break
+                            if not point_inside:
+                                # frame is finished
+                                break
+                            # point is inside the old frame, so add it anyway
+                            points_in_frame.append(point)
                         else:
                             points_in_frame.append(point)
                     else:
-                        # next waypoint is inside frame, without enlarging it
+                        # vehicle fits in frame at next waypoint, without enlarging it
                         # so add it anyway
                         points_in_frame.append(point)
             else:
-- 
2.43.0


From fda5de6685c9ac9f3c55f71f249747fcbad296a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:52 +0000
Subject: [PATCH 079/108] fix: moving obstacles that enter a frame without a
 vertex (or with a turned shape) were not attributed to it

---
 omgtools/environment/frame.py | 52 +++++++++++++++--------------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index d3be76a..c1a84c6 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -125,39 +125,19 @@ class Frame(object):
             # check if obstacle is moving, this is when:
             # not all velocities, saved in signals, are 0
             if not all(obstacle.signals['velocity'][:,-1] == [0.]*obstacle.n_dim):
-                # get obstacle checkpoints
-                if not isinstance(obstacle.shape, Circle):
-                    # element [0] gives vertices, not the corresponding radii
-                    obs_chck = obstacle.shape.get_checkpoints()[0]
+                # get bounding box of the obstacle, in its current orientation
+                if isinstance(obstacle.shape, Circle):
+                    limits = obstacle.shape.get_canvas_limits()
                 else:
-                    # for a circle only the center is returned as a checkpoint
-                    # make a square representation of it and use those checkpoints
-
-                    [[xmin, xmax],[ymin, ymax]] = obstacle.shape.get_canvas_limits()
-                    obs_chck = [[xmin, ymin], [xmin, ymax], [xmax, ymax], [xmax, ymin]]
-                    # also check center, because vertices of square approximation may be outside
-                    # of the frame, while the center is in the frame
-                    obs_chck.insert(0, [0,0])
+                    vertices = obstacle.shape.rotate(obstacle.signals['orientation'][:,-1], obstacle.shape.vertices)
+                    limits = [[np.amin(v)-obstacle.shape.radius, np.amax(v)+obstacle.shape.radius] for v in vertices]
                 obs_pos = obstacle.signals['position'][:,-1]
                 obs_vel = obstacle.signals['velocity'][:,-1]
-
-                for chck in obs_chck:
-                    # if it is not a circle, rotate the vertices
-                    if hasattr(obstacle.shape, 'orientation'):
-                        vertex = obstacle.shape.rotate(obstacle.shape.orientation, chck)
-                    else:
-                        vertex = chck
-                    # move to correct position
-                    vertex += obs_pos
-                    # check if vertex is in frame during movement
-                    if self.point_in_frame(vertex, time=motion_time,
-                                           sample_time=self.check_moving_obs_ts, velocity=obs_vel):
-                        # avoid corresponding obstacle
-                        obstacle.set_options({'avoid': True})
-                        moving_obstacles.append(obstacle)
-                        # break from for chck in obs_chck, move on to next obstacle, since
-                        # obstacle is added to the frame if any of its vertices is in the frame
-                        break
+                # check if bounding box overlaps with the frame during movement
+                if self.box_in_frame(limits, obs_pos, motion_time, self.check_moving_obs_ts, obs_vel):
+                    # avoid corresponding obstacle
+                    obstacle.set_options({'avoid': True})
+                    moving_obstacles.append(obstacle)
 
         end_time = time.time()
         if self.options['verbose'] >= 3:
@@ -345,6 +325,18 @@ class Frame(object):
         else:
             raise RuntimeError('Argument time was of the wrong type, not None, float or int')
 
+    def box_in_frame(self, limits, position, time, sample_time, velocity):
+        # check if a moving box, with given limits around position, overlaps with the frame
+        xmin, ymin, xmax, ymax = self.border['limits']
+        # amount of times to check
+        N = int(round(time/sample_time)+1)
+        for l in range(N+1):
+            x, y = position + l*sample_time*velocity
+            if (xmin <= x+limits[0][1] and xmax >= x+limits[0][0] and
+                ymin <= y+limits[1][1] and ymax >= y+limits[1][0]):
+                return True
+        return False
+
     def find_closest_waypoint(self, position=None, waypoints=None):
         # if no specific arguments provided, use default arguments
         if position is None:
-- 
2.43.0


From 76b3264a237b6b2892237e7c750550ae55f1e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:52 +0000
Subject: [PATCH 080/108] fix: changed moving obstacles were ignored unless
 they changed in the last frame

---
 omgtools/problems/schedulerproblem.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 63cccb3..53513dc 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -187,8 +187,6 @@ class SchedulerProblem(Problem):
                     # the amount of moving obstacles changed, or there is a new obstacle
                     new_problem = True
                     frame.moving_obstacles = moving_obs_in_frame
-                else:
-                    new_problem = False
             if new_problem:
                 # new moving obstacle in one of the frames or obstacle disappeared from frame
                 # np.array converts DM to array
-- 
2.43.0


From 622f024f6061f7df0370a0e7a84ef5c7ce2f5b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:52 +0000
Subject: [PATCH 081/108] fix: orientation of stationary obstacles was silently
 ignored when making a frame

---
 omgtools/environment/frame.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index c1a84c6..a4e9264 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -96,8 +96,8 @@ class Frame(object):
                 #####################################################
                 ###### Option2: approximate circle as as square #####
                 #####################################################
-                if ((isinstance(obstacle.shape, Rectangle) and obstacle.shape.orientation == 0) or
-                    isinstance(obstacle.shape, Circle)):
+                if ((isinstance(obstacle.shape, Rectangle) and obstacle.shape.orientation == 0 and
+                     obstacle.signals['orientation'][0,-1] == 0) or isinstance(obstacle.shape, Circle)):
                     # is frame vertex inside obstacle? check rectangle overlap
                     # if obstacle is Circle, it gets approximated by a square
                     [[xmin_obs, xmax_obs],[ymin_obs, ymax_obs]] = obstacle.shape.get_canvas_limits()
-- 
2.43.0


From bde8f076459c93e1efe47a836ccfb97a48e223d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:49 +0000
Subject: [PATCH 082/108] fix: frames of fixed size (frame_type shift) could
 not be used

---
 omgtools/environment/frame.py         | 7 +++++--
 omgtools/problems/schedulerproblem.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index a4e9264..1ae0c78 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -429,7 +429,7 @@ class ShiftFrame(Frame):
             # # move endpoint away from border
             # endpoint = self.move_from_border(points_in_frame[-1], intersection_point, frame,
             #                                                          distance=self.veh_size*self.margin)
-        elif self.endpoint is not None:
+        elif endpoint is not None:
             # vehicle goal is inside frame after shifting
             # shift frame over calculated distance
             xmin, ymin, xmax, ymax = self.move_frame(delta_x, delta_y)
@@ -441,8 +441,12 @@ class ShiftFrame(Frame):
             self.waypoints.append(endpoint)
             # if vehicle goal is too close to the frame border, move the frame extra in that direction
             self.make_last_waypoint_reachable(method='move_frame')
+            self.endpoint = endpoint  # assign end point
         else:
             # all waypoints are within the frame, even without shifting, so don't shift the frame
+            self.waypoints = points_in_frame
+            # if vehicle goal is too close to the frame border, move the frame in that direction
+            self.make_last_waypoint_reachable(method='move_frame')
             self.endpoint = self.global_path[-1]
 
         # finish frame description
@@ -455,7 +459,6 @@ class ShiftFrame(Frame):
         # If generated frame contains goal position, endpoint will be = goal position, since the goal position
         # was added to the global path. This was necessary because otherwise you will end up on a grid point
         # and not necessarily in the goal position (which can lie between grid points, anywhere on the map)
-        self.waypoints.append(endpoint)
 
     def move_frame(self, delta_x, delta_y, start_pos=None):
         # if no start position is given, default position is used
diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 53513dc..6b7d7f8 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -393,7 +393,7 @@ class SchedulerProblem(Problem):
             start_position = frame.endpoint  # start at end of current frame
             if frame.type == 'shift':
                 next_frame = ShiftFrame(self.environment, start_position, self.frame_size, self.move_limit,
-                                   self.global_path, self.options)
+                                   self.global_path, self.veh_size, self.margin, self.options)
             elif frame.type == 'corridor':
                 next_frame = CorridorFrame(self.environment, start_position, self.global_path,
                                    self.veh_size, self.margin, self.options)
-- 
2.43.0


From c15751687fc047a5aa9592c2482d72b37d2ca1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:14 +0000
Subject: [PATCH 083/108] fix: scheduled motion re-executed its previous plan
 when arriving at the goal

---
 omgtools/problems/schedulerproblem.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 6b7d7f8..a2cce3f 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -220,7 +220,16 @@ class SchedulerProblem(Problem):
         if not hasattr(self, 'frame_storage'):
             self.frame_storage = []
             self.global_path_storage = []
-        if simulation_time == np.inf:
+        if self.problem_options['freeT']:
+            # a motion can not be simulated longer than it lasts, this is
+            # important when arriving at the goal
+            motion_time = sum([self.local_problem.father.get_variables(self.local_problem, 'T'+str(k))[0][0]
+                               for k in range(self.n_frames)])
+            if motion_time < sample_time:
+                # nothing left to simulate
+                return
+            simulation_time = min(simulation_time, motion_time)
+        elif simulation_time == np.inf:
             # using simulator.run_once()
             simulation_time = sum(self.motion_times)
         repeat = int(np.round(simulation_time/sample_time, 6))
-- 
2.43.0


From aa21c51dfdd6b591fe45f486a1510a5618b248c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:14 +0000
Subject: [PATCH 084/108] fix: shapes of an svg lost their translation and got
 a malformed position

---
 omgtools/gui/svg_reader.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/omgtools/gui/svg_reader.py b/omgtools/gui/svg_reader.py
index f2a5ea3..8f4fa12 100644
--- a/omgtools/gui/svg_reader.py
+++ b/omgtools/gui/svg_reader.py
@@ -125,7 +125,7 @@ class SVGReader(object):
             pos = [float(rectangle.get('x')), float(rectangle.get('y'))]  # Note: [x,y] is the top left corner
             # axis are placed in the top left corner and point to the right(x) and downward(y)
             obstacle['pos'] = [pos[0]+float(rectangle.get('width'))*0.5, pos[1]+float(rectangle.get('height'))*0.5]
-            obstacle['pos'] += self.transform  # apply transform
+            obstacle['pos'] = [p+t for p, t in zip(obstacle['pos'], self.transform)]  # apply transform
             obstacle['width'] = float(rectangle.get('width'))
             obstacle['height'] = float(rectangle.get('height'))
             obstacle['velocity'] = [0, 0]
@@ -136,7 +136,7 @@ class SVGReader(object):
             obstacle = {}
             obstacle['shape'] = 'circle'
             obstacle['pos'] = [float(circle.get('cx')), float(circle.get('cy'))]  # Note: [x,y] is the top left corner
-            obstacle['pos'] += self.transform  # apply transform
+            obstacle['pos'] = [p+t for p, t in zip(obstacle['pos'], self.transform)]  # apply transform
             obstacle['radius'] = float(circle.get('r'))
             obstacle['velocity'] = [0, 0]
             obstacle['bounce'] = False
@@ -189,7 +189,7 @@ class SVGReader(object):
                         stroke_width = float(element.split(':')[1])
             vertices = polyline.get('points').split(' ')
             vertices[:] = (v for v in vertices if v != '')  # remove all empty strings
-            vertices = np.array(list(map(eval, vertices)))  # gives array of arrays [[x,y],[],...]
+            vertices = np.array(list(map(eval, vertices)), dtype=float)  # gives array of arrays [[x,y],[],...]
             vertices += self.transform
 
             # make rectangle of each vertex couple
@@ -257,21 +257,25 @@ class SVGReader(object):
             obstacle['pos'] = [x1 + w*0.5, y1 + h*0.5]
             self.obstacles.append(obstacle)
 
+    def get_translation(self, transform):
+        # gives the translation described by e.g. 'translate(-0.4,2)'
+        numbers = re.search(r'translate\s*\(([^)]*)\)', transform).group(1)
+        translation = [float(number) for number in numbers.replace(',', ' ').split()]
+        if len(translation) == 1:
+            translation.append(0.)  # the y-translation is zero if it is not given
+        return np.array(translation)
+
     def compute_transform(self):
         # Note: only works for translation for the moment
         # check if figure is transformed, e.g. a translation
         try:
             trans1 = self.tree.find("{%s}g" %self.ns).get('transform')
-            trans1 = trans1.split('translate')
-            trans1.remove('')
-            self.transform1 = np.array(map(eval, trans1)[0])
+            self.transform1 = self.get_translation(trans1)
         except:
             print('No transform1 found')
         try:
             trans2 = self.tree.find("{%s}g" %self.ns).find("{%s}g" %self.ns).get('transform')
-            trans2 = trans2.split('translate')
-            trans2.remove('')
-            self.transform2 = np.array(map(eval, trans2)[0])
+            self.transform2 = self.get_translation(trans2)
         except:
             print('No transform2 found')
         if hasattr(self, 'transform1') and hasattr(self, 'transform2'):
-- 
2.43.0


From 537337834fef537f7c06d436e7ad26b272f2822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:14 +0000
Subject: [PATCH 085/108] fix: lines of an svg could not be read and depended
 on their drawing direction

---
 omgtools/gui/svg_reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omgtools/gui/svg_reader.py b/omgtools/gui/svg_reader.py
index 8f4fa12..8e76cf7 100644
--- a/omgtools/gui/svg_reader.py
+++ b/omgtools/gui/svg_reader.py
@@ -208,12 +208,12 @@ class SVGReader(object):
                     obstacle['width'] =  stroke_width
                     obstacle['height'] = abs(line[1])
                     h = line[1]
-                    w = cmp(h,0)*stroke_width  # give stroke_width same sign as h
+                    w = 0.  # the stroke is centered around the line
                 elif line[1] == 0:  # horizontal line
                     obstacle['width'] = abs(line[0])
                     obstacle['height'] = stroke_width
                     w = line[0]
-                    h = cmp(w,0)*stroke_width  # give stroke_width same sign as w
+                    h = 0.  # the stroke is centered around the line
                 else:
                     raise RuntimeError('Diagonal lines are not yet supported')
                 obstacle['pos'] = [vertices[l][0] + w*0.5, vertices[l][1] + h*0.5]
@@ -243,12 +243,12 @@ class SVGReader(object):
                 obstacle['width'] =  stroke_width
                 obstacle['height'] = abs(y2-y1)
                 h = y2-y1  # signed value
-                w = cmp(h,0)*stroke_width
+                w = 0.  # the stroke is centered around the line
             elif y1 == y2:  # horizontal line
                 obstacle['width'] = abs(x2-x1)
                 obstacle['height'] = stroke_width
                 w = x2-x1  # signed value
-                h = cmp(w,0)*stroke_width
+                h = 0.  # the stroke is centered around the line
             else:
                 raise RuntimeError('Diagonal lines are not yet supported')
 
-- 
2.43.0


From 1573921e1a09a7c6a17e86744ddfd6df8260371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:14 +0000
Subject: [PATCH 086/108] fix: conversion of an svg to GCode failed and
 misplaced the center of arcs

---
 omgtools/gui/svg_reader.py | 68 +++++++++-----------------------------
 1 file changed, 15 insertions(+), 53 deletions(-)

diff --git a/omgtools/gui/svg_reader.py b/omgtools/gui/svg_reader.py
index 8e76cf7..a66794e 100644
--- a/omgtools/gui/svg_reader.py
+++ b/omgtools/gui/svg_reader.py
@@ -332,7 +332,7 @@ class SVGReader(object):
         # The paths are supposed to represent circle segments, if they don't,
         # a circle approximation of the curve is used.
 
-        children = self.tree.getchildren()  # the xml-tree
+        children = list(self.tree)  # the xml-tree
         self.commands = []  # holds the GCode commands
 
         for idx, child in enumerate(children):
@@ -408,58 +408,20 @@ class SVGReader(object):
                             # find circle through first three points
                             # by finding the intersection of the two perpendicular bisectors through [p1p2] and [p2p3]
                             p1, p2, p3 = circle_points[:3]
-                            mid1 = [(p2[0]+p1[0])*0.5, (p2[1]+p1[1])*0.5]  # midpoint of first bisector
-                            mid2 = [(p3[0]+p2[0])*0.5, (p3[1]+p2[1])*0.5]
-                            cx, cy = [], []  # will hold circle center
-
-                            if (p1[0] == p2[0] and p2[1] == p3[1]):
-                                # vertical and horizontal bisectors
-                                cx = mid1[0]
-                                cy = mid2[1]
-                            elif (p1[1] == p2[1] and p2[0] == p3[0]):
-                                # horizontal and vertical bisectors
-                                cx = mid2[0]
-                                cy = mid1[1]
-                            elif p2[0] == p1[0]:
-                                # vertical bisector1
-                                cx = mid1[0]
-                                rico2 = (p3[1]-p2[1])/(p3[0]-p2[0])
-                                normal2 = -1/rico2
-                                cy = mid2[1] + normal2*(x-mid2[0])
-                            elif p2[1] == p1[1]:
-                                # horizontal bisector1
-                                cy = mid1[1]
-                                rico2 = (p3[1]-p2[1])/(p3[0]-p2[0])
-                                normal2 = -1/rico2
-                                cx = (cy-mid2[1])/normal2 + mid2[0]
-                            elif p2[0] == p3[0]:
-                                # vertical bisector2
-                                cx = mid2[0]
-                                rico1 = (p2[1]-p1[1])/(p2[0]-p1[0])
-                                normal1 = -1/rico1
-                                cy = mid1[1] + normal1*(x-mid1[0])
-                            elif p2[1] == p3[1]:
-                                # horizontal bisector2
-                                cy = mid2[1]
-                                rico1 = (p2[1]-p1[1])/(p2[0]-p1[0])
-                                normal1 = -1/rico1
-                                cx = (cy-mid1[1])/normal1 + mid1[0]
-                            else:
-                                # two diagonal bisectors
-                                rico1 = (p2[1]-p1[1])/(p2[0]-p1[0])
-                                normal1 = -1/rico1
-                                # y = mid1[1] + normal1*(x-mid1[0]) [1]
-                                rico2 = (p3[1]-p2[1])/(p3[0]-p2[0])
-                                normal2 = -1/rico2
-                                # y = mid2[1] + normal2*(x-mid2[0]) [2]
-
-                                # [1] = [2] --> x =
-                                if normal2 != normal1:
-                                    cx = (mid1[1]-mid2[1]-normal1*mid1[0]+normal2*mid2[0])/(normal2-normal1)
-                                else:
-                                    raise RuntimeError('Normals are equal, something went wrong')
-
-                                cy = mid1[1] + normal1*(cx-mid1[0])
+                            mid1 = [(p2[0]+p1[0])*0.5, (p2[1]+p1[1])*0.5]  # midpoint of [p1p2]
+                            mid2 = [(p3[0]+p2[0])*0.5, (p3[1]+p2[1])*0.5]  # midpoint of [p2p3]
+                            dx1, dy1 = p2[0]-p1[0], p2[1]-p1[1]
+                            dx2, dy2 = p3[0]-p2[0], p3[1]-p2[1]
+                            # the center (cx, cy) lies on both bisectors:
+                            # dx1*(cx-mid1[0]) + dy1*(cy-mid1[1]) = 0
+                            # dx2*(cx-mid2[0]) + dy2*(cy-mid2[1]) = 0
+                            det = dx1*dy2 - dy1*dx2
+                            if det == 0.:
+                                raise RuntimeError('Normals are equal, something went wrong')
+                            rhs1 = dx1*mid1[0] + dy1*mid1[1]
+                            rhs2 = dx2*mid2[0] + dy2*mid2[1]
+                            cx = (rhs1*dy2 - rhs2*dy1)/det
+                            cy = (dx1*rhs2 - dx2*rhs1)/det
 
                             # compute radius
                             r = np.sqrt((p1[0]-cx)**2+(p1[1]-cy)**2)
-- 
2.43.0


From b59069733cf7f803ed45a2285daf3bee3663007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:14 +0000
Subject: [PATCH 087/108] fix: clicked start and goal ignored the position of
 the environment

---
 omgtools/gui/gui.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/omgtools/gui/gui.py b/omgtools/gui/gui.py
index 12a7419..438157d 100644
--- a/omgtools/gui/gui.py
+++ b/omgtools/gui/gui.py
@@ -361,7 +361,8 @@ class EnvironmentGUI(tk.Frame):
     def get_position(self, event):
         clicked_x = self.canvas.canvasx(event.x)  # get the position in the canvas, not in the window
         clicked_y = self.canvas.canvasy(event.y)  # this deals with the scrollbars
-        clicked = [clicked_x, clicked_y]
+        # shift clicked position over the position of the frame
+        clicked = [click+pos for click,pos in zip([clicked_x, clicked_y],self.position)]
         clicked = self.pixel_to_world(clicked)
         print('You clicked on: ', clicked)
         self.clicked_positions.append(clicked)  # save position which the user clicked on
@@ -571,10 +572,10 @@ class EnvironmentGUI(tk.Frame):
         # check distance to border or obstacles, if not reachable, move point
         if margin is not None:
             # compute environment border limits
-            env_min_x = 0
-            env_max_x = self.frame_width_m
-            env_min_y = 0
-            env_max_y = self.frame_height_m
+            env_min_x = self.position[0]*1./self.meter_to_pixel
+            env_max_x = env_min_x + self.frame_width_m
+            env_min_y = self.position[1]*1./self.meter_to_pixel
+            env_max_y = env_min_y + self.frame_height_m
             for idx, click in enumerate(self.clicked_positions):
                 # make sure the click is inside the environment border
                 # if not, shift click
-- 
2.43.0


From 62d4e1555e822e564a10825ccfff6e99ec992446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:14 +0000
Subject: [PATCH 088/108] fix: clicking next to a rectangle selected it

---
 omgtools/gui/gui.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omgtools/gui/gui.py b/omgtools/gui/gui.py
index 438157d..a960896 100644
--- a/omgtools/gui/gui.py
+++ b/omgtools/gui/gui.py
@@ -267,10 +267,10 @@ class EnvironmentGUI(tk.Frame):
                         self.selected_obstacle = None
                 elif obstacle['shape'] == 'rectangle':
                     # was the clicked position inside the rectangle shape
-                    xmin = obstacle['pos'][0] - obstacle['width']
-                    ymin = obstacle['pos'][1] - obstacle['height']
-                    xmax = obstacle['pos'][0] + obstacle['width']
-                    ymax = obstacle['pos'][1] + obstacle['height']
+                    xmin = obstacle['pos'][0] - obstacle['width']*0.5
+                    ymin = obstacle['pos'][1] - obstacle['height']*0.5
+                    xmax = obstacle['pos'][0] + obstacle['width']*0.5
+                    ymax = obstacle['pos'][1] + obstacle['height']*0.5
                     rectangle_limits = [xmin, ymin, xmax, ymax]
                     if point_in_rectangle(pos, rectangle_limits):
                         self.selected_obstacle = obstacle['variable']
-- 
2.43.0


From f5c3121107c745670f5748d92a4eb9519b2d4cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:03 +0000
Subject: [PATCH 089/108] fix: end point of a frame could be placed closer to
 its border than the vehicle size

---
 omgtools/environment/frame.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index 1ae0c78..cb134b2 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -286,6 +286,9 @@ class Frame(object):
                     else:
                         # use equation of line to compute x-coordinate
                         new_waypoint[0] = (new_waypoint[1]-y1)*(float((x2-x1))/(y2-y1))+x1
+                    # moving along the line may not bring the point too close to the borders in x-direction
+                    if xmax - xmin > 2*desired_distance[0]:
+                        new_waypoint[0] = min(max(new_waypoint[0], xmin + desired_distance[0]), xmax - desired_distance[0])
                 if new_waypoint is None:
                     # last waypoint was reachable when not taking into account the margin, so use this one
                     new_waypoint = self.waypoints[-1]
-- 
2.43.0


From 60163900eab725d1e782c284e0b6e74625f55720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:40 +0000
Subject: [PATCH 090/108] fix: svg reader applied the translations of the
 previously read figure

---
 omgtools/gui/svg_reader.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/omgtools/gui/svg_reader.py b/omgtools/gui/svg_reader.py
index a66794e..ab46abf 100644
--- a/omgtools/gui/svg_reader.py
+++ b/omgtools/gui/svg_reader.py
@@ -267,6 +267,9 @@ class SVGReader(object):
 
     def compute_transform(self):
         # Note: only works for translation for the moment
+        # start without translation: the reader may have read another figure before
+        self.transform1 = np.zeros(2)
+        self.transform2 = np.zeros(2)
         # check if figure is transformed, e.g. a translation
         try:
             trans1 = self.tree.find("{%s}g" %self.ns).get('transform')
@@ -278,14 +281,7 @@ class SVGReader(object):
             self.transform2 = self.get_translation(trans2)
         except:
             print('No transform2 found')
-        if hasattr(self, 'transform1') and hasattr(self, 'transform2'):
-            self.transform = self.transform1 + self.transform2  # coordinate frame transformation
-        elif hasattr(self, 'transform1') :
-            self.transform = self.transform1
-        elif hasattr(self, 'transform2') :
-            self.transform = self.transform2
-        else:
-            self.transform = [0, 0]  # no transforms found
+        self.transform = self.transform1 + self.transform2  # coordinate frame transformation
 
     def reconstruct(self, file):
         # help function, re-draws the loaded figure, allowing to check if it has the desired shapes
-- 
2.43.0


From e27dae2adf6bc5fcbe951073573e5e91442f8af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:40 +0000
Subject: [PATCH 091/108] fix: gui drew the obstacles of a loaded environment
 away from their position

---
 omgtools/gui/gui.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/gui/gui.py b/omgtools/gui/gui.py
index a960896..fcbde84 100644
--- a/omgtools/gui/gui.py
+++ b/omgtools/gui/gui.py
@@ -468,7 +468,8 @@ class EnvironmentGUI(tk.Frame):
         self.obstacles = saved_env[1]  # obstacles in the environment
         for obs in self.obstacles:
             # obstacle position is saved in world coordinates [m], convert to pixels to plot
-            obs_pos = self.world_to_pixel(obs['pos'])
+            # the canvas starts at the position of the frame
+            obs_pos = [pix-pos for pix,pos in zip(self.world_to_pixel(obs['pos']), self.position)]
             if obs['shape'] == 'rectangle':
                 obs['variable'] = self.canvas.create_rectangle(obs_pos[0]-obs['width']*self.meter_to_pixel*0.5, obs_pos[1]-obs['height']*self.meter_to_pixel*0.5,
                                              obs_pos[0]+obs['width']*self.meter_to_pixel*0.5, obs_pos[1]+obs['height']*self.meter_to_pixel*0.5,
-- 
2.43.0


From 0b2be1876b4c8538c23331b098f59436903e915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:04 +0000
Subject: [PATCH 092/108] fix: obstacles could not be moved after loading an
 environment while one was selected

---
 omgtools/gui/gui.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omgtools/gui/gui.py b/omgtools/gui/gui.py
index fcbde84..3757a0a 100644
--- a/omgtools/gui/gui.py
+++ b/omgtools/gui/gui.py
@@ -169,6 +169,7 @@ class EnvironmentGUI(tk.Frame):
         # change the original size of the environment, e.g. after loading an SVG-image
 
         self.canvas.delete('all')  # remove all current obstacles
+        self.selected_obstacle = None  # the selected obstacle is removed as well
         self.canvas.config(width=1000, height=600)  # limit canvas size such that it fits on screen
 
         # save meter_to_pixel conversion factor
-- 
2.43.0


From dabfca9eed30c6b5c35938a53b22528f39e54067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:55 +0000
Subject: [PATCH 093/108] fix: exported header used std::string without
 including it

---
 omgtools/export/vehicles/Vehicle.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omgtools/export/vehicles/Vehicle.hpp b/omgtools/export/vehicles/Vehicle.hpp
index 1ae3497..5e5ad4d 100755
--- a/omgtools/export/vehicles/Vehicle.hpp
+++ b/omgtools/export/vehicles/Vehicle.hpp
@@ -23,6 +23,7 @@
 #include <math.h>
 #include <vector>
 #include <map>
+#include <string>
 
 namespace omg{
 
-- 
2.43.0


From 17200f69fb8bc0926dcc0433ce39e4fe547d9b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:55 +0000
Subject: [PATCH 094/108] fix: exported integration restarted from the initial
 state in every step

---
 omgtools/export/vehicles/Vehicle.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/omgtools/export/vehicles/Vehicle.cpp b/omgtools/export/vehicles/Vehicle.cpp
index 65b7226..fb32b6e 100755
--- a/omgtools/export/vehicles/Vehicle.cpp
+++ b/omgtools/export/vehicles/Vehicle.cpp
@@ -86,21 +86,26 @@ void Vehicle::integrate(vector<double>& state0, vector<vector<double>>& input, v
     vector<double> k3(n_st);
     vector<double> k4(n_st);
     vector<double> st(n_st);
+    vector<double> input_mid(n_in);
     for (int j=0; j<n_st; j++){
         stateT[j] = state0[j];
     }
     for (int i=0; i<steps; i++){
-        this->ode(state0, input[i], k1);
+        // input varies linearly between two samples
+        for (int j=0; j<n_in; j++){
+            input_mid[j] = 0.5*(input[i][j] + input[i+1][j]);
+        }
+        this->ode(stateT, input[i], k1);
         for (int j=0; j<n_st; j++){
-            st[j] = state0[j] + 0.5*sample_time*k1[j];
+            st[j] = stateT[j] + 0.5*sample_time*k1[j];
         }
-        this->ode(st, input[i], k2);
+        this->ode(st, input_mid, k2);
         for (int j=0; j<n_st; j++){
-            st[j] = state0[j] + 0.5*sample_time*k2[j];
+            st[j] = stateT[j] + 0.5*sample_time*k2[j];
         }
-        this->ode(st, input[i], k3);
+        this->ode(st, input_mid, k3);
         for (int j=0; j<n_st; j++){
-            st[j] = state0[j] + sample_time*k3[j];
+            st[j] = stateT[j] + sample_time*k3[j];
         }
         this->ode(st, input[i+1], k4);
         for (int j=0; j<n_st; j++){
-- 
2.43.0


From f213d970dfcdaa03ea4f392e6285995793f56dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:55 +0000
Subject: [PATCH 095/108] fix: exported updates without shift did not return
 their result

---
 omgtools/export/point2point/Point2Point.cpp          | 2 +-
 omgtools/export/point2point/admm/ADMMPoint2Point.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/export/point2point/Point2Point.cpp b/omgtools/export/point2point/Point2Point.cpp
index 3f39a42..d448c62 100755
--- a/omgtools/export/point2point/Point2Point.cpp
+++ b/omgtools/export/point2point/Point2Point.cpp
@@ -118,7 +118,7 @@ void Point2Point::recover(){
 
 bool Point2Point::update(vector<double>& condition0, vector<double>& conditionT,
     vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory, vector<obstacle_t>& obstacles){
-    update(condition0, conditionT, state_trajectory, input_trajectory, obstacles, 0);
+    return update(condition0, conditionT, state_trajectory, input_trajectory, obstacles, 0);
 }
 
 bool Point2Point::update(vector<double>& condition0, vector<double>& conditionT,
diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index dd5e03f..a411b08 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -108,7 +108,7 @@ bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& condit
     vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory,
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles){
-    update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, 0);
+    return update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, 0);
 }
 
 bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& conditionT,
-- 
2.43.0


From 13f1d4bad7714c8744f0df24125e0a95f4e09a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:17 +0000
Subject: [PATCH 096/108] fix: exported update counted one sample too few for
 rounded update times

---
 omgtools/export/point2point/Point2Point.cpp          | 12 ++++++------
 omgtools/export/point2point/admm/ADMMPoint2Point.cpp |  2 +-
 omgtools/export/vehicles/Vehicle.cpp                 |  8 ++++----
 omgtools/export/vehicles/Vehicle.hpp                 |  5 +++++
 4 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/omgtools/export/point2point/Point2Point.cpp b/omgtools/export/point2point/Point2Point.cpp
index d448c62..f29bcbb 100755
--- a/omgtools/export/point2point/Point2Point.cpp
+++ b/omgtools/export/point2point/Point2Point.cpp
@@ -31,18 +31,18 @@ namespace omg{
 Point2Point::Point2Point(Vehicle* vehicle,
     double update_time, double sample_time, double horizon_time, int trajectory_length, bool initialize):
 parameters(N_PAR), variables(N_VAR), lbg(LBG_DEF), ubg(UBG_DEF), _recover(false) {
-    if (trajectory_length > int(horizon_time/sample_time)){
+    if (trajectory_length > countSamples(horizon_time, sample_time)){
         cerr << "trajectory_length > (horizon_time/sample_time)!" << endl;
     }
-    if (trajectory_length > int(update_time/sample_time)){
+    if (trajectory_length > countSamples(update_time, sample_time)){
         time.resize(trajectory_length+1);
         state_trajectory.resize(trajectory_length+1, vector<double>(vehicle->getNState()));
         input_trajectory.resize(trajectory_length+1, vector<double>(vehicle->getNInput()));
     }
     else {
-        time.resize(int(update_time/sample_time)+1);
-        state_trajectory.resize(int(update_time/sample_time)+1, vector<double>(vehicle->getNState()));
-        input_trajectory.resize(int(update_time/sample_time)+1, vector<double>(vehicle->getNInput()));
+        time.resize(countSamples(update_time, sample_time)+1);
+        state_trajectory.resize(countSamples(update_time, sample_time)+1, vector<double>(vehicle->getNState()));
+        input_trajectory.resize(countSamples(update_time, sample_time)+1, vector<double>(vehicle->getNInput()));
     }
     this->vehicle = vehicle;
     this->update_time = update_time;
@@ -59,7 +59,7 @@ parameters(N_PAR), variables(N_VAR), lbg(LBG_DEF), ubg(UBG_DEF), _recover(false)
 
 Point2Point::Point2Point(Vehicle* vehicle,
     double update_time, double sample_time, double horizon_time):
-Point2Point(vehicle, update_time, sample_time, horizon_time, int(update_time/sample_time), true){
+Point2Point(vehicle, update_time, sample_time, horizon_time, countSamples(update_time, sample_time), true){
 }
 
 Point2Point::Point2Point(Vehicle* vehicle,
diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index a411b08..e612d5d 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -50,7 +50,7 @@ residuals(3) {
 
 ADMMPoint2Point::ADMMPoint2Point(Vehicle* vehicle,
     double update_time, double sample_time, double horizon_time):
-ADMMPoint2Point(vehicle, update_time, sample_time, horizon_time, int(update_time/sample_time), INITITER, RHO){
+ADMMPoint2Point(vehicle, update_time, sample_time, horizon_time, countSamples(update_time, sample_time), INITITER, RHO){
 }
 
 ADMMPoint2Point::ADMMPoint2Point(Vehicle* vehicle,
diff --git a/omgtools/export/vehicles/Vehicle.cpp b/omgtools/export/vehicles/Vehicle.cpp
index fb32b6e..c5b0668 100755
--- a/omgtools/export/vehicles/Vehicle.cpp
+++ b/omgtools/export/vehicles/Vehicle.cpp
@@ -61,14 +61,14 @@ void Vehicle::setPrediction(vector<double>& state, vector<double>& input){
 void Vehicle::predict(vector<double>& state0, vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory, double predict_time, double sample_time, int predict_shift)
 {
     if (ideal_prediction){
-        vector<double> stateT = state_trajectory[int(predict_time/sample_time)+predict_shift];
-        vector<double> inputT = input_trajectory[int(predict_time/sample_time)+predict_shift];
+        vector<double> stateT = state_trajectory[countSamples(predict_time, sample_time)+predict_shift];
+        vector<double> inputT = input_trajectory[countSamples(predict_time, sample_time)+predict_shift];
         setPrediction(stateT, inputT);
     } else if (provide_prediction){
-        vector<double> inputT = input_trajectory[int(predict_time/sample_time)+predict_shift];
+        vector<double> inputT = input_trajectory[countSamples(predict_time, sample_time)+predict_shift];
         setPrediction(state0, inputT);
     } else {
-        int steps = int(predict_time/sample_time);
+        int steps = countSamples(predict_time, sample_time);
         vector<vector<double>> input(steps+1, vector<double>(input_trajectory[0].size()));
         for (int k=0; k<steps+1; k++){
             input[k] = input_trajectory[k+predict_shift];
diff --git a/omgtools/export/vehicles/Vehicle.hpp b/omgtools/export/vehicles/Vehicle.hpp
index 5e5ad4d..1ec119f 100755
--- a/omgtools/export/vehicles/Vehicle.hpp
+++ b/omgtools/export/vehicles/Vehicle.hpp
@@ -27,6 +27,11 @@
 
 namespace omg{
 
+// number of samples in a period of time
+inline int countSamples(double time, double sample_time){
+    return int(round((time/sample_time)*1.e6)/1.e6);
+}
+
 class Vehicle{
     private:
         int n_st;
-- 
2.43.0


From 4f9eb4db2d7e05e34b3ee813a033a32f8b075a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:17 +0000
Subject: [PATCH 097/108] fix: exported time since the last knot could end up a
 whole knot interval off

---
 omgtools/export/point2point/Point2Point.cpp       | 15 +++++++++++++--
 omgtools/export/point2point/Point2Point.hpp       |  2 ++
 .../export/point2point/admm/ADMMPoint2Point.cpp   |  4 ++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/omgtools/export/point2point/Point2Point.cpp b/omgtools/export/point2point/Point2Point.cpp
index f29bcbb..d38915a 100755
--- a/omgtools/export/point2point/Point2Point.cpp
+++ b/omgtools/export/point2point/Point2Point.cpp
@@ -234,6 +234,17 @@ void Point2Point::getCoefficients(std::vector<double>& coeffs){
     coeffs = std::vector<double>(spline_coeffs_vec);
 }
 
+int Point2Point::getKnotInterval(double time){
+    // index of the knot interval containing the given time
+    return (int)(floor(round((time*(vehicle->getKnotIntervals())/horizon_time)*1.e6)/1.e6));
+}
+
+double Point2Point::getTimeInInterval(double time){
+    // time elapsed since the last knot
+    double elapsed = time - getKnotInterval(time)*horizon_time/(vehicle->getKnotIntervals());
+    return max(0.0, round(elapsed*1.e6)/1.e6);
+}
+
 int Point2Point::getLenBasis(){
     return vehicle->getLenBasis();
 }
@@ -265,7 +276,7 @@ void Point2Point::fillParameterDict(vector<obstacle_t>& obstacles, map<string, m
     vehicle->setParameters(par_dict_veh);
     par_dict[VEHICLELBL] = par_dict_veh;
     if (!freeT){
-        par_dict[P2PLBL]["t"] = {fmod(round(current_time*1000.)/1000., horizon_time/(vehicle->getKnotIntervals()))};
+        par_dict[P2PLBL]["t"] = {getTimeInInterval(current_time)};
         par_dict[P2PLBL]["T"] = {horizon_time};
     } else{
         par_dict[P2PLBL]["t"] = {0.0};
@@ -297,7 +308,7 @@ void Point2Point::retrieveTrajectories(vector<vector<double>>& spline_coeffs){
     vector<double> time(this->time);
     if (!freeT){
         for (int k=0; k<time.size(); k++){
-            time[k] += fmod(round(current_time*1000.)/1000., horizon_time/vehicle->getKnotIntervals());
+            time[k] += getTimeInInterval(current_time);
         }
     }
     vehicle->splines2State(spline_coeffs, time, state_trajectory);
diff --git a/omgtools/export/point2point/Point2Point.hpp b/omgtools/export/point2point/Point2Point.hpp
index 9140c6d..e322a4b 100755
--- a/omgtools/export/point2point/Point2Point.hpp
+++ b/omgtools/export/point2point/Point2Point.hpp
@@ -85,6 +85,8 @@ class Point2Point{
         void getVariableVector(std::vector<double>&, std::map<std::string, std::map<std::string, std::vector<double>>>&);
         void getVariableDict(std::vector<double>&, std::map<std::string, std::map<std::string, std::vector<double>>>&);
         void transformSplines(double, double);
+        int getKnotInterval(double);
+        double getTimeInInterval(double);
 
         virtual void generateProblem();
         virtual void fillParameterDict(std::vector<obstacle_t>&, std::map<std::string, std::map<std::string, std::vector<double>>>&);
diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index e612d5d..71f738e 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -299,7 +299,7 @@ bool ADMMPoint2Point::solveUpdz(){
     vector<vector<double>> res;
     updz_problem({variables_admm["x_i"], variables_admm["l_i"],
         variables_admm["l_ij"], variables_admm["x_j"],
-        {fmod(round(current_time*1000.)/1000., horizon_time/(vehicle->getKnotIntervals()))},
+        {getTimeInInterval(current_time)},
         {horizon_time}, {rho}, {}}, res);
     variables_admm["z_i"] = res.at(0);
     variables_admm["z_ij"] = res.at(1);
@@ -321,7 +321,7 @@ bool ADMMPoint2Point::computeResiduals(){
     get_residuals({variables_admm["x_i"], variables_admm["z_i"],
         variables_admm["z_i_p"], variables_admm["z_ij"], variables_admm["z_ij_p"],
         variables_admm["x_j"],
-        {fmod(round(current_time*1000.)/1000., horizon_time/(vehicle->getKnotIntervals()))},
+        {getTimeInInterval(current_time)},
         {horizon_time}, {rho}}, res);
     residuals[0] = res.at(0).at(0);
     residuals[1] = res.at(1).at(0);
-- 
2.43.0


From 517f510a5a7f0fff9087ecf2f08ca83133f1a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:17 +0000
Subject: [PATCH 098/108] fix: exported initial guess was shifted over one knot
 when more were passed

---
 omgtools/export/export.py      | 5 ++---
 omgtools/export/export_admm.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index 3968452..64fb589 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -407,9 +407,8 @@ class Export(object):
         code, cnt = '', 0
         tf_len = len(problem.vehicles[0].basis)
         if point2point.__class__.__name__ == 'FixedTPoint2point':
-            code += '\tint interval_prev = (int)(round((current_time_prev*(vehicle->getKnotIntervals())/horizon_time)*1.e6)/1.e6);\n'
-            code += '\tint interval_now = (int)(round((current_time*(vehicle->getKnotIntervals())/horizon_time)*1.e6)/1.e6);\n'
-            code += '\tif(interval_now > interval_prev){\n'
+            code += '\t// several knots can be passed at once\n'
+            code += '\tfor (int shift=getKnotInterval(current_time_prev); shift<getKnotInterval(current_time); shift++){\n'
             code += ('\t\tvector<double> spline_tf(' + str(len(problem.vehicles[0].basis)) + ');\n')
             for label, child in father.children.items():
                 for name, var in child._variables.items():
diff --git a/omgtools/export/export_admm.py b/omgtools/export/export_admm.py
index 6a5f78e..bb1b3f0 100755
--- a/omgtools/export/export_admm.py
+++ b/omgtools/export/export_admm.py
@@ -159,9 +159,8 @@ class ExportADMM(Export):
 
     def _create_transformSharedSplines(self, father, problem, point2point):
         code = ''
-        code += '\tint interval_prev = (int)(round((current_time_prev*(vehicle->getKnotIntervals())/horizon_time)*1.e6)/1.e6);\n'
-        code += '\tint interval_now = (int)(round((current_time*(vehicle->getKnotIntervals())/horizon_time)*1.e6)/1.e6);\n'
-        code += '\tif(interval_now > interval_prev){\n'
+        code += '\t// several knots can be passed at once\n'
+        code += '\tfor (int shift=getKnotInterval(current_time_prev); shift<getKnotInterval(current_time); shift++){\n'
         for var in ['x_i', 'z_i', 'l_i', 'z_ji', 'l_ji', 'z_ij', 'l_ij']:
             code += '\t\tvector<double> ' + var + '_tf(variables_admm["' + var + '"]);\n'
         cnt = 0
-- 
2.43.0


From 3701e0536855aa68e387e2ee13a5efc0ab59dd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:17 +0000
Subject: [PATCH 099/108] fix: exported free end point problem did not shift
 its initial guess

---
 omgtools/export/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index 64fb589..2e7a982 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -406,7 +406,7 @@ class Export(object):
     def _create_transformSplines(self, father, problem, point2point):
         code, cnt = '', 0
         tf_len = len(problem.vehicles[0].basis)
-        if point2point.__class__.__name__ == 'FixedTPoint2point':
+        if point2point.__class__.__name__ in ('FixedTPoint2point', 'FreeEndPoint2point'):
             code += '\t// several knots can be passed at once\n'
             code += '\tfor (int shift=getKnotInterval(current_time_prev); shift<getKnotInterval(current_time); shift++){\n'
             code += ('\t\tvector<double> spline_tf(' + str(len(problem.vehicles[0].basis)) + ');\n')
-- 
2.43.0


From 35980ade069fbe0be75e6566391dc575381f2a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:26 +0000
Subject: [PATCH 100/108] fix: exported holonomic vehicle always had 10 knot
 intervals

---
 omgtools/export/export.py              | 1 +
 omgtools/export/vehicles/Holonomic.cpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index 2e7a982..c4cf5e6 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -70,6 +70,7 @@ class Export(object):
         # create data to fill in in c++ template
         data = {}
         data.update(self.get_make_options(self.add_label(src_files), probsrc))
+        data['knot_intervals'] = problem.vehicles[0].knot_intervals
         data.update(self.create_constants(father, problem, point2point))
         data.update(self.create_types())
         data.update(self.create_functions(father, problem, point2point))
diff --git a/omgtools/export/vehicles/Holonomic.cpp b/omgtools/export/vehicles/Holonomic.cpp
index 5842593..f50a51c 100755
--- a/omgtools/export/vehicles/Holonomic.cpp
+++ b/omgtools/export/vehicles/Holonomic.cpp
@@ -23,7 +23,7 @@ using namespace std;
 
 namespace omg{
 
-Holonomic::Holonomic() : Vehicle(2, 2, 2, 3), poseT(2){
+Holonomic::Holonomic() : Vehicle(2, 2, 2, 3, @knot_intervals@), poseT(2){
 
 }
 
-- 
2.43.0


From b8aa809601fa86fe6b8669c371df835ad3a05404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:50 +0000
Subject: [PATCH 101/108] fix: exported horizon shift transformed the wrong
 variables

---
 omgtools/export/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index c4cf5e6..789a3e5 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -436,7 +436,7 @@ class Export(object):
                                  str(var.shape[0])+'+i] = spline_tf[i];\n')
                         code += '\t\t\t}\n'
                         code += '\t\t}\n'
-                    cnt += var.size(1)
+                    cnt += var.size(1)*var.size(2)
             code += '\t}\n'
         elif point2point.__class__.__name__ == 'FreeTPoint2point':
             raise Warning('Initialization for free time problem ' +
-- 
2.43.0


From 713e823fe6a408ea613c8e86c763aa1131c6f0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:58 +0000
Subject: [PATCH 102/108] fix: exported problem with a scalar variable did not
 compile

---
 omgtools/export/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index 789a3e5..6d4f18c 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -349,7 +349,7 @@ class Export(object):
                     code += '\tvar_dict["'+label+'"]["'+name+'"] = vec;\n'
                 else:
                     code += '\tvar_dict["'+label+'"]["' + \
-                        name+'"] = var_vect['+str(cnt)+'];\n'
+                        name+'"] = {var_vect['+str(cnt)+']};\n'
                 cnt += var.size(1)*var.size(2)
         return {'getVariableDict': code}
 
-- 
2.43.0


From bc8a622e268c235d8ab03cd798241d358a6f7c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:33 +0000
Subject: [PATCH 103/108] fix: values of constraints and objective of a
 component could not be read

---
 omgtools/basics/optilayer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/omgtools/basics/optilayer.py b/omgtools/basics/optilayer.py
index b0d2ff4..8353549 100644
--- a/omgtools/basics/optilayer.py
+++ b/omgtools/basics/optilayer.py
@@ -294,9 +294,10 @@ class OptiFather(object):
         return expr
 
     def _evaluate_symbols(self, expression, variables, parameters):
+        if isinstance(expression, (int, float)):
+            return expression
         symbols = symvar(expression)
-        f = Function(symbols, [expression])
-        f.init()
+        f = Function('eval', symbols, [expression])
         f_in = []
         for sym in symbols:
             [child, name] = self.symbol_dict[sym.name()]
@@ -304,7 +305,7 @@ class OptiFather(object):
                 f_in.append(variables[child.label, name])
             elif name in child._parameters:
                 f_in.append(parameters[child.label, name])
-        return evalf(f, f_in)
+        return np.array(evalf(f, f_in)[0])
 
     # ========================================================================
     # Problem evaluation
-- 
2.43.0


From 56e65e1012fd60e19a66a33692b62f55478d7540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:00 +0000
Subject: [PATCH 104/108] fix: a program compiled again in one session was the
 one compiled before

---
 omgtools/basics/optilayer.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/omgtools/basics/optilayer.py b/omgtools/basics/optilayer.py
index 8353549..095efe2 100644
--- a/omgtools/basics/optilayer.py
+++ b/omgtools/basics/optilayer.py
@@ -34,6 +34,7 @@ import numpy as np
 import copy
 import os
 import shutil
+import tempfile
 import collections as col
 
 
@@ -46,6 +47,18 @@ def evalf(fun, x):
 # Functions related to c code generation
 # ========================================================================
 
+def load_library(path, load):
+    # the loader returns a library that it knows by this path already, even if
+    # the file changed since: load a copy under a fresh name
+    fd, copied = tempfile.mkstemp(suffix='.so', dir=os.path.dirname(path))
+    os.close(fd)
+    shutil.copy(path, copied)
+    try:
+        return load(copied)
+    finally:
+        os.remove(copied)
+
+
 def create_nlp(var, par, obj, con, options, name=''):
     codegen = options['codegen']
     if options['verbose'] >= 1:
@@ -82,7 +95,8 @@ def create_nlp(var, par, obj, con, options, name=''):
         shutil.move(name+'.c', path+'.c')
         os.system('gcc -fPIC -shared %s %s.c -o %s.so' %
                   (codegen['flags'], path, path))
-        problem = nlpsol('solver', options['solver'], path+'.so', slv_opt)
+        problem = load_library(path+'.so', lambda lib: nlpsol(
+            'solver', options['solver'], lib, slv_opt))
         os.remove(path+'.c')
     elif codegen['build'] == 'existing':
         if os.name == 'nt':
@@ -93,7 +107,8 @@ def create_nlp(var, par, obj, con, options, name=''):
             raise ValueError('%s.so does not exist!', path)
         if options['verbose'] >= 1:
             print(('[using shared object %s.so]' % path), end=' ')
-        problem = nlpsol('solver', options['solver'], path+'.so', slv_opt)
+        problem = load_library(path+'.so', lambda lib: nlpsol(
+            'solver', options['solver'], lib, slv_opt))
     elif codegen['build'] is None:
         problem = solver
     else:
@@ -133,7 +148,7 @@ def create_function(name, inp, out, options):
         shutil.move(name+'.c', path+'.c')
         os.system('gcc -fPIC -shared %s %s.c -o %s.so' %
                   (codegen['flags'], path, path))
-        fun = external(name, path+'.so')
+        fun = load_library(path+'.so', lambda lib: external(name, lib))
         os.remove(path+'.c')
     elif codegen['build'] == 'existing':
         if os.name == 'nt':
@@ -144,7 +159,7 @@ def create_function(name, inp, out, options):
             raise ValueError('%s.so does not exist!', path)
         if options['verbose'] >= 1:
             print(('[using shared object %s.so]' % path), end=' ')
-        fun = external(name, path+'.so')
+        fun = load_library(path+'.so', lambda lib: external(name, lib))
     elif codegen['build'] is None:
         fun = fun
     else:
-- 
2.43.0


From 953b2b6a1fd5d49e8a72ffc474a4c0a4535afd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:12 +0000
Subject: [PATCH 105/108] fix: exported fleet planners stopped on an illegal
 instruction

The updates of the exported formation, rendez-vous and ADMM planners are declared
to return whether they succeeded, but returned nothing.
---
 omgtools/export/point2point/admm/ADMMPoint2Point.cpp        | 3 +++
 .../point2point/admm/formation/FormationPoint2Point.cpp     | 6 +++---
 omgtools/export/point2point/admm/rendezvous/RendezVous.cpp  | 6 +++---
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index 71f738e..e0f3654 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -303,6 +303,7 @@ bool ADMMPoint2Point::solveUpdz(){
         {horizon_time}, {rho}, {}}, res);
     variables_admm["z_i"] = res.at(0);
     variables_admm["z_ij"] = res.at(1);
+    return true;
 }
 
 bool ADMMPoint2Point::solveUpdl(){
@@ -314,6 +315,7 @@ bool ADMMPoint2Point::solveUpdl(){
         variables_admm["x_j"], {rho}}, res);
     variables_admm["l_i"] = res.at(0);
     variables_admm["l_ij"] = res.at(1);
+    return true;
 }
 
 bool ADMMPoint2Point::computeResiduals(){
@@ -326,6 +328,7 @@ bool ADMMPoint2Point::computeResiduals(){
     residuals[0] = res.at(0).at(0);
     residuals[1] = res.at(1).at(0);
     residuals[2] = res.at(2).at(0);
+    return true;
 }
 
 void ADMMPoint2Point::initVariablesADMM(){
diff --git a/omgtools/export/point2point/admm/formation/FormationPoint2Point.cpp b/omgtools/export/point2point/admm/formation/FormationPoint2Point.cpp
index 11f5b69..2e36aba 100755
--- a/omgtools/export/point2point/admm/formation/FormationPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/formation/FormationPoint2Point.cpp
@@ -52,7 +52,7 @@ bool FormationPoint2Point::update1(vector<double>& condition0, vector<double>& c
     vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory,
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles, vector<double>& rel_pos_c){
-    update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, rel_pos_c, 0);
+    return update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, rel_pos_c, 0);
 }
 
 bool FormationPoint2Point::update1(vector<double>& condition0, vector<double>& conditionT,
@@ -60,14 +60,14 @@ bool FormationPoint2Point::update1(vector<double>& condition0, vector<double>& c
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles, vector<double>& rel_pos_c, int predict_shift){
     this->rel_pos_c = rel_pos_c;
-    ADMMPoint2Point::update1(condition0, conditionT, state_trajectory, input_trajectory,
+    return ADMMPoint2Point::update1(condition0, conditionT, state_trajectory, input_trajectory,
         x_var, z_ji_var, l_ji_var, obstacles, predict_shift);
 }
 
 bool FormationPoint2Point::update2(vector<vector<double>>& x_j_var,
     vector<vector<double>>& z_ij_var, vector<vector<double>>& l_ij_var,
     vector<double>& residuals){
-    ADMMPoint2Point::update2(x_j_var, z_ij_var, l_ij_var, residuals);
+    return ADMMPoint2Point::update2(x_j_var, z_ij_var, l_ij_var, residuals);
 }
 
 void FormationPoint2Point::fillParameterDict(vector<obstacle_t>& obstacles, map<string, map<string, vector<double>>>& par_dict){
diff --git a/omgtools/export/point2point/admm/rendezvous/RendezVous.cpp b/omgtools/export/point2point/admm/rendezvous/RendezVous.cpp
index 5393a6a..89af092 100755
--- a/omgtools/export/point2point/admm/rendezvous/RendezVous.cpp
+++ b/omgtools/export/point2point/admm/rendezvous/RendezVous.cpp
@@ -52,7 +52,7 @@ bool RendezVous::update1(vector<double>& condition0, vector<double>& conditionT,
     vector<vector<double>>& state_trajectory, vector<vector<double>>& input_trajectory,
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles, vector<double>& rel_pos_c){
-    update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, rel_pos_c, 0);
+    return update1(condition0, conditionT, state_trajectory, input_trajectory, x_var, z_ji_var, l_ji_var, obstacles, rel_pos_c, 0);
 }
 
 bool RendezVous::update1(vector<double>& condition0, vector<double>& conditionT,
@@ -60,14 +60,14 @@ bool RendezVous::update1(vector<double>& condition0, vector<double>& conditionT,
     vector<double>& x_var, vector<vector<double>>& z_ji_var, vector<vector<double>>& l_ji_var,
     vector<obstacle_t>& obstacles, vector<double>& rel_pos_c, int predict_shift){
     this->rel_pos_c = rel_pos_c;
-    ADMMPoint2Point::update1(condition0, conditionT, state_trajectory, input_trajectory,
+    return ADMMPoint2Point::update1(condition0, conditionT, state_trajectory, input_trajectory,
         x_var, z_ji_var, l_ji_var, obstacles, predict_shift);
 }
 
 bool RendezVous::update2(vector<vector<double>>& x_j_var,
     vector<vector<double>>& z_ij_var, vector<vector<double>>& l_ij_var,
     vector<double>& residuals){
-    ADMMPoint2Point::update2(x_j_var, z_ij_var, l_ij_var, residuals);
+    return ADMMPoint2Point::update2(x_j_var, z_ij_var, l_ij_var, residuals);
 }
 
 void RendezVous::fillParameterDict(vector<obstacle_t>& obstacles, map<string, map<string, vector<double>>>& par_dict){
-- 
2.43.0


From 13e626f009274cffb81c45f46ed11587d6c0d2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:12 +0000
Subject: [PATCH 106/108] fix: exported fleet planner always had two neighbors

The number was asked from the fleet of the updater, which holds its own vehicle
only, whatever the interconnection of the fleet.
---
 omgtools/export/export_admm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/export/export_admm.py b/omgtools/export/export_admm.py
index bb1b3f0..1b84624 100755
--- a/omgtools/export/export_admm.py
+++ b/omgtools/export/export_admm.py
@@ -89,7 +89,7 @@ class ExportADMM(Export):
         constants['double RHO'] = problem.options['rho']
         constants['int INITITER'] = problem.options['init_iter']
         constants['int N_SHARED'] = problem.q_i_struct(0).cat.size(1)
-        constants['int N_NGHB'] = len(problem.fleet.get_neighbors(problem.vehicle))
+        constants['int N_NGHB'] = len(problem.q_ij)
         constants['std::string UPDZPROBLEM'] = '"' + problem.problem_upd_z.name() + '"'
         constants['std::string UPDLPROBLEM'] = '"' + problem.problem_upd_l.name() + '"'
         constants['std::string UPDRESPROBLEM'] = '"' + problem.problem_upd_res.name() + '"'
-- 
2.43.0


From 8aad55da93e75be37c981318901b33331d6648cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:08 +0000
Subject: [PATCH 107/108] fix: exported fleet planner finished its update at
 the time of the next one

The second half of an update (agreement and residuals) used the current time, which
the first half had already moved to the next update, while the trajectories were
those of this one.
---
 omgtools/export/point2point/admm/ADMMPoint2Point.cpp | 6 ++++--
 omgtools/export/point2point/admm/ADMMPoint2Point.hpp | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
index e0f3654..1912af6 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.cpp
@@ -131,6 +131,8 @@ bool ADMMPoint2Point::update1(vector<double>& condition0, vector<double>& condit
     #endif
     // correct current_time with predict_shift:
     current_time += predict_shift*sample_time;
+    // both halves of an update apply to the same time
+    iteration_time = current_time;
     // transform splines: good init guess for this update + required transformation for ADMM updates
     #ifdef DEBUG
     begin = clock();
@@ -299,7 +301,7 @@ bool ADMMPoint2Point::solveUpdz(){
     vector<vector<double>> res;
     updz_problem({variables_admm["x_i"], variables_admm["l_i"],
         variables_admm["l_ij"], variables_admm["x_j"],
-        {getTimeInInterval(current_time)},
+        {getTimeInInterval(iteration_time)},
         {horizon_time}, {rho}, {}}, res);
     variables_admm["z_i"] = res.at(0);
     variables_admm["z_ij"] = res.at(1);
@@ -323,7 +325,7 @@ bool ADMMPoint2Point::computeResiduals(){
     get_residuals({variables_admm["x_i"], variables_admm["z_i"],
         variables_admm["z_i_p"], variables_admm["z_ij"], variables_admm["z_ij_p"],
         variables_admm["x_j"],
-        {getTimeInInterval(current_time)},
+        {getTimeInInterval(iteration_time)},
         {horizon_time}, {rho}}, res);
     residuals[0] = res.at(0).at(0);
     residuals[1] = res.at(1).at(0);
diff --git a/omgtools/export/point2point/admm/ADMMPoint2Point.hpp b/omgtools/export/point2point/admm/ADMMPoint2Point.hpp
index eb2ab4b..d6cad75 100755
--- a/omgtools/export/point2point/admm/ADMMPoint2Point.hpp
+++ b/omgtools/export/point2point/admm/ADMMPoint2Point.hpp
@@ -28,6 +28,7 @@ class ADMMPoint2Point: public Point2Point{
     private:
         int iteration=0;
         int init_iter;
+        double iteration_time=0.0;
         casadi::Function updx_problem;
         casadi::Function updz_problem;
         casadi::Function updl_problem;
-- 
2.43.0


From eb780419cb88d13c2f8f2d506b1d65f6660e3d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:23 +0000
Subject: [PATCH 108/108] fix: hard stop of a quadrotor failed

The size of the input was asked from the prediction, which holds no input for
vehicles whose initial conditions do not involve one.
---
 omgtools/execution/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/execution/simulator.py b/omgtools/execution/simulator.py
index 84f3c3d..614b7b5 100644
--- a/omgtools/execution/simulator.py
+++ b/omgtools/execution/simulator.py
@@ -141,7 +141,7 @@ class Simulator:
         self.problem.simulate(current_time, stop_time, self.sample_time)
         for k, vehicle in enumerate(self.problem.vehicles):
             vehicle.overrule_state(vehicle.signals['state'][:, -1] + np.array(perturbation[k]))
-            vehicle.overrule_input(np.zeros(len(vehicle.prediction['input'])))
+            vehicle.overrule_input(np.zeros(vehicle.signals['input'].shape[0]))
 
     def sleep(self, sleep_time):
         self.problem.sleep(self.current_time, sleep_time, self.sample_time)
-- 
2.43.0

