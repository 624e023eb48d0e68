From 5a7dd382a6b8762431246720d06db4dc9e1c5bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 01/55] fix: expectation of a derivative or integral keeps all
 its variables

---
 src/sympkf/symbolic/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index 958d818..f66478d 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -102,10 +102,10 @@ class Expectation(Function):
                 return cls(arg, evaluate=False)
         # Commutativité par rapport aux opérateurs de dérivations time/space
         elif isinstance(arg, Derivative):
-            return Derivative(cls(arg.args[0]), arg.args[1])
+            return Derivative(cls(arg.args[0]), *arg.args[1:])
         # Commutativité par rapport aux opérateurs de intégraux time/space
         elif isinstance(arg, Integral):
-            return Integral(cls(arg.args[0]), arg.args[1])
+            return Integral(cls(arg.args[0]), *arg.args[1:])
         #
         # Apply to particular structure
         #
-- 
2.43.0


From 99c012873f148c9b66188c6eef94fcb753748eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 02/55] fix: compare sympy expressions by value, not by
 identity

---
 src/sympkf/symbolic/pkfcas.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 91635e2..477c14d 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -870,12 +870,12 @@ class UnivariateTerm(object):
 
             if len(derivatives) == 1: # E[eps D^beta eps] or E[(D^alpha eps)**2] or E[(D^alpha eps)**k] k>2
                 derivative = derivatives.pop()
-                if term is Expectation(function * derivative): # E[eps D^beta eps]
+                if term == Expectation(function * derivative): # E[eps D^beta eps]
                     alpha = 0
                     beta = derivative.args[1:]
                     degree = derivative.derivative_count
                     return cls(term, function, alpha, beta, degree)
-                elif term is Expectation(derivative*derivative): #E[(D^alpha eps)**2]
+                elif term == Expectation(derivative*derivative): #E[(D^alpha eps)**2]
                     alpha = derivative.args[1:]
                     beta = derivative.args[1:]
                     degree = 2*derivative.derivative_count
@@ -885,7 +885,7 @@ class UnivariateTerm(object):
                     return None
 
             elif len(derivatives) == 2:
-                if term is Expectation(Mul(*derivatives)):
+                if term == Expectation(Mul(*derivatives)):
                     # -1- Compute the total degree
                     degree = 0
                     for derivative in derivatives:
@@ -923,7 +923,7 @@ class Field(object):
         self.code = clean_latex_name(field.func)
 
         self.coordinates = field.args
-        self.spatial_coordinates = tuple([coord for coord in self.coordinates if coord is not time_symbol])
+        self.spatial_coordinates = tuple([coord for coord in self.coordinates if coord != time_symbol])
 
         self.coords_code = tuple(clean_latex_name(coord) for coord in self.coordinates)
         self.spatial_coords_code = tuple(clean_latex_name(coord) for coord in self.spatial_coordinates)
-- 
2.43.0


From fc5697e9931e50e647565246ac437729768a3edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 03/55] fix: closure of mixed derivatives uses the multi-index
 factorial, whatever was expanded before

---
 src/sympkf/symbolic/pkfcas.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 477c14d..fef2c28 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1372,17 +1372,13 @@ class Closure(object):
         :return: a
         """
         order = order + 1
-        if self._order < order:
+        if len(self._closure_by_order) < order:
             # 1. Compute terms until order
-            factorial = 1
             for partial_order in range(order):
 
                 partial_order = int(partial_order)
                 closure = {}
 
-                if partial_order != 0:
-                    factorial *= partial_order
-
                 for alpha in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, partial_order):
                     # -1- Extract taylor coefficient of dx^alpha
                     coeff_alpha = self.taylor(order).expand()
@@ -1392,12 +1388,10 @@ class Closure(object):
 
                     # -2- Extract coefficient of dx^alpha in taylor expansion
                     term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples))
-                    closure[term] = Integer(factorial) * coeff_alpha
+                    factorial = Mul(*[sympy.factorial(alpha_i) for alpha_i in alpha.as_tuple])
+                    closure[term] = factorial * coeff_alpha
                 self._closure_by_order[partial_order] = closure
 
-            # 2. Update the order
-            self._order = order
-
         return self._closure_by_order
 
     def closure(self, order):
-- 
2.43.0


From 12b1d5f0fb2f4b724904a1f55e5e9def5039fe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 04/55] fix: closure up to an order does not depend on what was
 asked before

---
 src/sympkf/symbolic/pkfcas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index fef2c28..f75dcd2 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1352,7 +1352,7 @@ class Closure(object):
 
     def taylor(self, order):
         """ Compute the Taylor expansion until degree 'order' """
-        if self._order < order:
+        if self._order != order:
             px = self._x
             py = tuple([xi + dxi for xi, dxi in zip(self._x, self._dx)])
             taylor = self.correlation(px, py)
@@ -1392,7 +1392,7 @@ class Closure(object):
                     closure[term] = factorial * coeff_alpha
                 self._closure_by_order[partial_order] = closure
 
-        return self._closure_by_order
+        return {degree: dict(self._closure_by_order[degree]) for degree in range(order)}
 
     def closure(self, order):
         closure = {}
-- 
2.43.0


From 8603c8b5c5af3fde473d50133b0bd96e0ccfee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 05/55] fix: closure in metric uses the component of the metric
 given by the derivative

---
 src/sympkf/symbolic/pkfcas.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index f75dcd2..3b5c795 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1416,10 +1416,7 @@ class Closure(object):
             subs_term = subs_term.subs({derivative: 0 for derivative in subs_term.atoms(Derivative)})
             subs_closure_by_order[second_order][term] = subs_term
             # -3-
-            if len(self.spatial_coordinates) > 1:
-                i, j = alpha.as_tuple[0], alpha.as_tuple[1]
-            else:
-                i, j = 0, 0
+            i, j = [self.spatial_coordinates.index(xi) for xi in alpha.as_sequence]
 
             g_dico[term] = -self.mfield.metric_func(i, j)
             s_dico[term] = self.mfield.aspect_func(i, j)
-- 
2.43.0


From 6098c24e729d152b954646e5c10df195581be6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 06/55] fix: local Gaussian correlation in metric misses the
 factor 1/2

---
 src/sympkf/symbolic/pkfcas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 3b5c795..f6919a8 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1458,7 +1458,7 @@ class LocGaussianClosure(Closure):
             dot_prod = dxy.T @ gux @ dxy
         else:
             sx = self.aspect.subs(cpx)
-            dot_prod = dxy.T @ (Integer(2)*sx).inv() @ dxy
+            dot_prod = dxy.T @ sx.inv() @ dxy
 
-        h_correlation = exp(-dot_prod[0])
+        h_correlation = exp(-Rational(1 , 2) * dot_prod[0])
         return h_correlation
-- 
2.43.0


From f8b1199eab3db51220b7b26493422a2af0ce988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 07/55] fix: dynamics in diffusion includes the
 cross-covariances

---
 src/sympkf/symbolic/pkfcas.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index f6919a8..d200e84 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -508,7 +508,17 @@ class SymbolicPKF(object):
 
             #  2. Migration of expectation and variance systems
             diffusion_system = []
-            for system in [self.expectation_system, self.variance_system]:
+
+            systems = [ self.expectation_system,
+                        self.variance_system,
+                        self.cross_covariance_system
+                    ]
+
+            for system in systems:
+
+                if system is None: # to handle the multivariate situation: None is for univariate
+                    continue
+
                 # -1- apply external closure
                 system = self._apply_closure(system)
                 # -2- switch from metric to diffusion
-- 
2.43.0


From d513d872f06982ada3c7558e362214ea91df9452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 08/55] fix: cross-covariance label does not depend on the
 order of the fields

---
 src/sympkf/symbolic/pkfcas.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index d200e84..21c3fe6 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -730,6 +730,9 @@ class SymbolicPKF(object):
     
     def get_covariance(self, f1, f2):
         if all([field in self.fields for field in [f1,f2]]):
+            # 0. V_12 and V_21 are the same field: follow the order of the fields
+            f1, f2 = sorted([f1, f2], key=list(self.fields).index)
+
             # 1. Get associated metafields
             mf1 = self.fields[f1]
             mf2 = self.fields[f2]
-- 
2.43.0


From 3446a3b3d2fff8cbbc16f7bbef66992800050d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 09/55] fix: set_closure does not change the dictionary given
 at construction

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 21c3fe6..cef2a52 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -72,7 +72,7 @@ class SymbolicPKF(object):
         self._internal_closure = None
 
         # external closure
-        self._closure = {} if closure is None else closure
+        self._closure = {} if closure is None else dict(closure)
 
         # Introduce or modify labels for error/normalized error/variance/cross-covariance
         self._label_covariance = "V_"
-- 
2.43.0


From db0644e36fcaf5dd10341d2768d3373454aeb3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 10/55] fix: subs/doit/expand of an equation that reduces to
 true or false

---
 src/sympkf/symbolic/util.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index d918053..6fca37a 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -132,15 +132,18 @@ class Eq(sympy.Eq):
 
     def subs(self, *args, **hints):
         eq = super().subs(*args, **hints)
-        return self.__class__(*eq.args)
+        # The equation can reduce to true/false, which have no left and right sides
+        return self.__class__(*eq.args) if isinstance(eq, sympy.Eq) else eq
 
     def doit(self, *args, **hints):
         eq = super().doit(*args, **hints)
-        return self.__class__(*eq.args)
+        # The equation can reduce to true/false, which have no left and right sides
+        return self.__class__(*eq.args) if isinstance(eq, sympy.Eq) else eq
 
     def expand(self, *args, **hints):
         eq = super().expand(*args, **hints)
-        return self.__class__(*eq.args)
+        # The equation can reduce to true/false, which have no left and right sides
+        return self.__class__(*eq.args) if isinstance(eq, sympy.Eq) else eq
 
     def isolate(self, expr):
         """ Isolate an expression from an equation
-- 
2.43.0


From a12d68c28645e92358bd57959b0c268136cad5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 11/55] fix: left multiplication of an equation by a scalar, as
 documented

---
 src/sympkf/symbolic/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 6fca37a..b05bed3 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -115,6 +115,8 @@ class Eq(sympy.Eq):
     def __mul__(self, alpha):
         return self.__class__(*[alpha * self.args[k] for k in range(2)])
 
+    __rmul__ = __mul__
+
     def __imul__(self, alpha):
         if isinstance(alpha, Eq):
             return self.__class__(*[self.args[k] * alpha.args[k] for k in range(2)])
-- 
2.43.0


From f1796444784d16f1a0841fdf8306dcfbd8fefece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 12/55] fix: find the displacement of a coordinate whose name
 starts with d

---
 src/sympkf/symbolic/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index b05bed3..2c9e2b7 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -399,7 +399,7 @@ def get_coordinates(function):
 
         if len(coordinate) == 2:
             xi, dxi = coordinate
-            if str(xi)[0] == 'd':
+            if str(xi) == 'd' + str(dxi):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
@@ -441,7 +441,7 @@ def get_function_coordinates(function):
 
         if len(coordinate) == 2:
             xi, dxi = coordinate
-            if str(xi)[0] == 'd':
+            if str(xi) == 'd' + str(dxi):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
-- 
2.43.0


From dc720a966a6765f60d8540a5c0f06ce199c35fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 13/55] fix: the advected field and the wind of the 1D
 advection have different names

---
 src/sympkf/symbolic/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/dynamics.py b/src/sympkf/symbolic/dynamics.py
index 6f00fa2..3e0a453 100644
--- a/src/sympkf/symbolic/dynamics.py
+++ b/src/sympkf/symbolic/dynamics.py
@@ -25,7 +25,7 @@ diffusion = PDESystem(
         )
 
 
-c = Function('u')(t,x)
+c = Function('c')(t,x)
 u = Function('u')(x)
 
 advection = PDESystem(
-- 
2.43.0


From 0a6c9769dcbddb3cc6b73abbdb7d02c55384400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 14/55] fix: grid coordinates of the generated model follow the
 axes of its fields

---
 src/sympkf/symbolic/templates/body_FDModelBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/templates/body_FDModelBuilder.py b/src/sympkf/symbolic/templates/body_FDModelBuilder.py
index 84032f2..89cc0ae 100644
--- a/src/sympkf/symbolic/templates/body_FDModelBuilder.py
+++ b/src/sympkf/symbolic/templates/body_FDModelBuilder.py
@@ -30,7 +30,7 @@ template = '''
         #-------------
         self.dx = tuple(length/shape for length, shape in zip(self.lengths, self.shape))
         self.x = tuple(self.index(coord,0)*dx for coord, dx in zip(self.coordinates, self.dx))
-        self.X = np.meshgrid(*self.x)
+        self.X = np.meshgrid(*self.x, indexing='ij')
 
         {% if constant_functions_flag %}
         #-----------------------
-- 
2.43.0


From d023e180b7eb281973b28fc288a999719d4940c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 15/55] fix: time scheme given to a generated manifold model is
 not ignored

---
 src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py b/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
index 18672ce..976b27d 100644
--- a/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
+++ b/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
@@ -1,7 +1,7 @@
 template='''
     def __init__(self, base_space, **kwargs):
 
-        super().__init__() # Time scheme is set from Model.__init__()
+        super().__init__(**kwargs) # Time scheme is set from Model.__init__()
 
         # Set base space (manifold)
         #------------------------------
-- 
2.43.0


From 3469fb80b49c14bce867e4209bfc1d8bc2c2114a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 16/55] fix: LinearModel.make_M returns the propagator, not its
 transpose

---
 src/sympkf/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/model/model.py b/src/sympkf/model/model.py
index e6592b8..bcf6e5e 100644
--- a/src/sympkf/model/model.py
+++ b/src/sympkf/model/model.py
@@ -314,7 +314,7 @@ class LinearModel(Model):
                 return out
             M = self.ensemble_forecast(window, [dirac(i) for i in range(self.n)], \
                                        saved_times)[window[-1]]
-            M = np.asarray(M)
+            M = np.asarray(M).T  # column i is the forecast of the i-th canonical state
         else:
             for i in range(self.n):
                 ei[i] = 1.
-- 
2.43.0


From e9da3b81e8c74df50db507091ca6db5d911efc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 17/55] fix: Burgers() raises NameError

---
 src/sympkf/dynamics/burgers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/dynamics/burgers.py b/src/sympkf/dynamics/burgers.py
index 97c0d67..c4e5f57 100644
--- a/src/sympkf/dynamics/burgers.py
+++ b/src/sympkf/dynamics/burgers.py
@@ -29,6 +29,7 @@ class Burgers(object):
 
     def __init__(self, n=241):
         def factory():
-            exec(FDModelBuilder(Burgers.closed_pkf.in_aspect, class_name='ClosedPKFBurgers').code)
-            return ClosedPKFBurgers
+            namespace = {}
+            exec(FDModelBuilder(Burgers.closed_pkf.in_aspect, class_name='ClosedPKFBurgers').code, namespace)
+            return namespace['ClosedPKFBurgers']
         self.model = factory()(shape=(n,))
-- 
2.43.0


From 4db9adf044c3d663d7430fc7f868f1f447f42397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 18/55] fix: code of a finite difference replaces whole names,
 all at once

---
 src/sympkf/symbolic/finite_difference.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index e38ebe2..09990bb 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -350,27 +350,21 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     :return:
     """
     from sympy import Function
+    import re
 
-
-    code = str(finite)
-
-
-    loc_x_dx = []
-
-    # -1- Replace functions
+    # -1- Set the code of the functions and of the dx's
+    codes = {}
     for function in finite.atoms(Function):
         x, dx = get_function_coordinates(function)
         for xi,dxi in zip(x,dx):
-            if (xi,dxi) not in loc_x_dx:
-                loc_x_dx.append((xi,dxi))
-        code = code.replace(str(function), code_regular_function(function, slice_coding_rule))
+            codes[str(dxi)] = dx_coding_rule(xi)
+        codes[str(function)] = code_regular_function(function, slice_coding_rule)
 
-    # -2- Replace dx's
-    for x_dx in loc_x_dx:
-        xi, dxi = x_dx
-        code = code.replace(str(dxi), dx_coding_rule(xi))
+    # -2- Replace whole names only, and all at once so that no code is replaced in turn
+    names = sorted(codes, key=len, reverse=True)
+    pattern = r'(?<![\w\\])(?:' + '|'.join(re.escape(name) for name in names) + r')(?!\w)'
 
-    return code
+    return re.sub(pattern, lambda match: codes[match.group()], str(finite)) if names else str(finite)
 
 
 class Code(object):
-- 
2.43.0


From 0adfe55b4b36f5e3581dd28342cb4fe4c94524f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 19/55] fix: generated code uses the same clean name of a
 coordinate everywhere

---
 src/sympkf/symbolic/finite_difference.py | 7 ++++---
 src/sympkf/symbolic/model_builder.py     | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index 09990bb..366e883 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -329,7 +329,7 @@ def code_regular_function(function, slice_coding_rule):
         for k, step in enumerate(displacement):
             assert isinstance(step, Integer), f"displacement is not on regular grid for function: {function}"
 
-            code += slice_coding_rule(f"'{x[k]}'", step) + ','
+            code += slice_coding_rule(f"'{clean_latex_name(x[k])}'", step) + ','
 
         # Suffix for closing array
         code = code[:-1]
@@ -350,6 +350,7 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     :return:
     """
     from sympy import Function
+    from .tool import clean_latex_name
     import re
 
     # -1- Set the code of the functions and of the dx's
@@ -357,7 +358,7 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     for function in finite.atoms(Function):
         x, dx = get_function_coordinates(function)
         for xi,dxi in zip(x,dx):
-            codes[str(dxi)] = dx_coding_rule(xi)
+            codes[str(dxi)] = dx_coding_rule(clean_latex_name(xi))
         codes[str(function)] = code_regular_function(function, slice_coding_rule)
 
     # -2- Replace whole names only, and all at once so that no code is replaced in turn
@@ -444,7 +445,7 @@ class Code(object):
             for k, step in enumerate(displacement):
                 assert isinstance(step, Integer), f"displacement is not on regular grid for function: {function}"
 
-                code += self.slice_coding_rule(f"'{x[k]}'", step) + ','
+                code += self.slice_coding_rule(f"'{clean_latex_name(x[k])}'", step) + ','
 
             # Suffix for closing array
             code = code[:-1]
diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 12d1f93..de52227 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -43,13 +43,13 @@ class MetaDerivative(object):
         self.as_code = self._set_as_code()
 
     def _set_as_keyvar(self):
-        keyvar = "_".join(f'{coordinate}_o{partial_order}'
+        keyvar = "_".join(f'{clean_latex_name(coordinate)}_o{partial_order}'
                           for coordinate, partial_order in self._partial_orders.items())
         keyvar = 'D' + self.function.as_keyvar + '_' + keyvar
         return keyvar
 
     def _set_as_partial_orders(self):
-        return ",".join(f"'{coordinate}',{partial_order}"
+        return ",".join(f"'{clean_latex_name(coordinate)}',{partial_order}"
                         for coordinate, partial_order in self._partial_orders.items())
 
     def _set_as_str(self):
-- 
2.43.0


From 56828553cea40346b2241a9e10fa17e6c16f43dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 20/55] fix: a python keyword such as lambda is not a valid
 variable name

---
 src/sympkf/symbolic/tool.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sympkf/symbolic/tool.py b/src/sympkf/symbolic/tool.py
index 758cfbc..5d5571b 100644
--- a/src/sympkf/symbolic/tool.py
+++ b/src/sympkf/symbolic/tool.py
@@ -1,3 +1,5 @@
+import keyword
+
 def clean_latex_name(label):
     """ Convert possible latex expression into valid variable name """
 
@@ -17,4 +19,8 @@ def clean_latex_name(label):
     # -4- Replace ',' by '_'
     label = label.replace(',','_')
 
+    # -5- A python keyword is not a valid name (e.g. from \\lambda)
+    if keyword.iskeyword(label):
+        label += '_'
+
     return label
-- 
2.43.0


From 5dc6c9b5babe6395a25d46999af937c11a93e69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 21/55] fix: standard functions (sin, exp, ..) are not
 exogenous fields

---
 src/sympkf/symbolic/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 2c9e2b7..fa0f049 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -246,10 +246,16 @@ class PDESystem(object):
         functions = set()
 
         for equation in self.equations:
-            functions.update(equation.atoms(Function))
+            functions.update(function for function in equation.atoms(Function)
+                             if not self._is_standard_function(function))
 
         return functions
 
+    @staticmethod
+    def _is_standard_function(function):
+        """ True for the functions of sympy (sin, exp, ..), which are not fields """
+        return str(type(function).__module__).startswith('sympy.functions')
+
     def _get_prognostic_functions(self):
         """ Extract prognostic functions from the system of pde """
 
-- 
2.43.0


From 4d113349741ed4185237cb2a113efb4aa5f2913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 22/55] fix: square roots and standard functions in the code of
 the trend are those of numpy

---
 src/sympkf/symbolic/model_builder.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index de52227..c2111c4 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -1,4 +1,7 @@
+import re
+
 from sympy import Eq
+from sympy.printing.numpy import NumPyPrinter
 from .util import PDESystem, get_trend, get_derivative_partial_orders, FunctionSymbol, ScalarSymbol
 
 from jinja2 import Template
@@ -261,6 +264,12 @@ class ModelBuilder(object):
 
         return pseudo_algebraic_system
 
+    @staticmethod
+    def _numpy_code(expr):
+        """ Python code of an expression where sqrt, sin, pi, .. are those of numpy (imported as np) """
+        code = NumPyPrinter({'fully_qualified_modules': True}).doprint(expr)
+        return re.sub(r'\bnumpy\.', 'np.', code)
+
     def _make_trend_code(self):
         """ Create the code for the trend from the pseudo algebraic system """
         subs_trend = {function.as_symbolic:function.trend
@@ -273,7 +282,7 @@ class ModelBuilder(object):
             function = lhs.args[0]
             lhs = subs_trend[function]
             # 3. implement the code line: set the lhs **np.array** from the rhs
-            code_line = str(lhs)+'[:] = '+str(rhs)
+            code_line = str(lhs)+'[:] = '+self._numpy_code(rhs)
             # 4. Add to code.
             trend_code.append(code_line)
 
-- 
2.43.0


From 92371f4bbf261d920a753ed6f11661e835291e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 23/55] fix: terms in derivatives are found whatever the order
 of the coordinates

---
 src/sympkf/symbolic/pkfcas.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index cef2a52..135ca8c 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -917,14 +917,14 @@ class UnivariateTerm(object):
 
 
 def gamma_def(epsilon, k, i, j):    
-    return Expectation(Derivative(epsilon, k) * Derivative(epsilon, i, j))
+    return Expectation(Derivative(epsilon, k) * Derivative(epsilon, i, j).doit())
 
 def gamma_subs(metric, k, i, j):
     return Rational(1 , 2) * (Derivative(metric(k, j), i) + Derivative(metric(i, k), j) \
                               - Derivative(metric(i, j), k))
 
 def skewness_def(epsilon, k, i, j):
-    return Expectation(epsilon * Derivative(epsilon, k, i, j))
+    return Expectation(epsilon * Derivative(epsilon, k, i, j).doit())
 
 def skewness_subs(metric, k, i, j):
     return -Rational(1 , 2) * (Derivative(metric(k, j), i) + Derivative(metric(i, k), j) \
@@ -1019,7 +1019,7 @@ class Field(object):
         return Function('{g_{' + self.code + ',' + self.index_code(i, j) + '}}', real=True)(*self.coordinates)
 
     def metric_definition(self,i,j):
-        return -Expectation(self.epsilon * Derivative(self.epsilon, self.spatial_coordinates[i], self.spatial_coordinates[j]))
+        return -Expectation(self.epsilon * Derivative(self.epsilon, self.spatial_coordinates[i], self.spatial_coordinates[j]).doit())
 
     def nu_func(self,i,j):
         return Function('{\\nu_{' + self.code + ',' + self.index_code(i, j) + '}}', real=True)(
@@ -1260,9 +1260,10 @@ class UnivariateTree(object):
 
                     # term = Expectation(Derivative(self.epsilon, *alpha) * Derivative(self.epsilon, *beta))
                     term = Derivative(self.epsilon, *alpha.as_couples) * Derivative(self.epsilon, *beta.as_couples)
-                    term = Expectation(term)
+                    term = Expectation(term.doit()) # doit sets the order of the variables, as in the rhs
 
-                    lhs = Derivative(Derivative(self.epsilon, *sub_alpha.as_couples) * Derivative(self.epsilon, *beta.as_couples), alpha.as_sequence[0])
+                    sub_term = Derivative(self.epsilon, *sub_alpha.as_couples) * Derivative(self.epsilon, *beta.as_couples)
+                    lhs = Derivative(sub_term.doit(), alpha.as_sequence[0])
                     rhs = lhs.doit()
 
                     equation = Eq(Expectation(lhs), Expectation(rhs))
@@ -1400,7 +1401,7 @@ class Closure(object):
                         coeff_alpha = coeff_alpha.coeff(dxi, alpha_i)
 
                     # -2- Extract coefficient of dx^alpha in taylor expansion
-                    term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples))
+                    term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples).doit())
                     factorial = Mul(*[sympy.factorial(alpha_i) for alpha_i in alpha.as_tuple])
                     closure[term] = factorial * coeff_alpha
                 self._closure_by_order[partial_order] = closure
@@ -1423,7 +1424,7 @@ class Closure(object):
         system_s_to_g = []
         for alpha in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, second_order):
             # -1- get term
-            term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples))
+            term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples).doit())
             # -2- Eliminate derivatives
             subs_term = subs_closure_by_order[second_order][term]
             subs_term = subs_term.subs({derivative: 0 for derivative in subs_term.atoms(Derivative)})
-- 
2.43.0


From 55f566bc0a06b4cc6e61da20d58066e2c8c66709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 24/55] fix: a time derivative in a right-hand side does not
 make a field prognostic

---
 src/sympkf/symbolic/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index fa0f049..799975a 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -262,7 +262,8 @@ class PDESystem(object):
         prognostic_functions = []
 
         for equation in self.equations:
-            derivatives = equation.atoms(Derivative)
+            # a time derivative in the right-hand side does not make a field prognostic
+            derivatives = equation.args[0].atoms(Derivative)
             for derivative in derivatives:
                 coordinates = derivative.args[1].atoms(Symbol)
                 if self._time_symbol in coordinates:
-- 
2.43.0


From 561bf099bcaf2109243b3ff86cbde4a50c5cbce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:07 +0000
Subject: [PATCH 25/55] fix: a mixed derivative in time and space is not a
 trend

---
 src/sympkf/symbolic/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 799975a..326794d 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -510,7 +510,7 @@ def get_trend(equation):
     """
     trends = set()
     for derivative in equation.atoms(Derivative):
-        if derivative.args[1] == (time_coordinate, 1):
+        if derivative.args[1:] == ((time_coordinate, 1),):
             trends.add(derivative)
     if len(trends) == 1:
         trends = trends.pop()
-- 
2.43.0


From 7757fba9d873603f77290cbce5b54142f7d58d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 26/55] fix: a process that dies makes the ensemble forecast
 fail instead of waiting for ever

---
 src/sympkf/model/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sympkf/model/model.py b/src/sympkf/model/model.py
index bcf6e5e..a32b79b 100644
--- a/src/sympkf/model/model.py
+++ b/src/sympkf/model/model.py
@@ -3,7 +3,7 @@
 
 import numpy as np
 
-import multiprocessing
+from concurrent.futures import ProcessPoolExecutor
 
 class Parallel(object):
     """
@@ -14,8 +14,9 @@ class Parallel(object):
         self.nb_pool = nb_pool
 
     def run(self,args):
-        with multiprocessing.Pool(self.nb_pool) as pool:
-            out = pool.map(self.f, args)
+        # A process that dies raises an error, while a multiprocessing.Pool waits for ever
+        with ProcessPoolExecutor(self.nb_pool) as pool:
+            out = list(pool.map(self.f, args))
         return out
 
 class Model(object):
-- 
2.43.0


From 69442aadf141f5de4dee5be3c0034bace01f750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:03 +0000
Subject: [PATCH 27/55] fix: statistics of a random function that is not a
 prognostic field do not stop the derivation

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 135ca8c..aac78a6 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -812,7 +812,7 @@ class SymbolicPKF(object):
         univariates = self.check_univariate(rhs)
 
         # -2- Retain epsilon's that are in self.fields !!
-        for epsilon in univariates:
+        for epsilon in list(univariates):
             if epsilon not in epsilon_to_mfields:
                 univariates.pop(epsilon)
 
-- 
2.43.0


From e3ec30acc7d861894f73175a7f6a3595ed4fb046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:03 +0000
Subject: [PATCH 28/55] fix: derivatives of closed terms are evaluated, so that
 no zero term remains

---
 src/sympkf/symbolic/pkfcas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index aac78a6..429720c 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -832,7 +832,8 @@ class SymbolicPKF(object):
             rhs = rhs.subs(closed_subs_tree)
 
         # -3- Closure
-        rhs = rhs.subs(self.internal_closure)
+        # .. doit: the derivative of a closed term (a constant for E[eps] or E[eps**2]) is to be evaluated
+        rhs = rhs.subs(self.internal_closure).doit()
         return rhs
 
     @property
-- 
2.43.0


From ba4a01b8594c166127afcb84a7ffe7305761f290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 29/55] fix: a derivation that is refused stays refused when it
 is read again

---
 src/sympkf/symbolic/pkfcas.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 429720c..94e3400 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -364,7 +364,7 @@ class SymbolicPKF(object):
         
 
             # Set the cross-covariance meta-data and compute the cros-covariance dynamics 
-            self._cross_covariance_system = []
+            cross_covariance_system = []
             
             for couple in self.multivariate_couples:
                 # 1) Extract fields and meta-data
@@ -385,8 +385,9 @@ class SymbolicPKF(object):
                 rhs = self._apply_internal_closure(rhs)                
 
                 # 4) update of the cross-covariance system
-                self._cross_covariance_system.append( Eq(lhs,rhs.expand()) )
-                
+                cross_covariance_system.append( Eq(lhs,rhs.expand()) )
+
+            self._cross_covariance_system = cross_covariance_system
             return self._cross_covariance_system
 
     @property
@@ -699,11 +700,11 @@ class SymbolicPKF(object):
     def internal_closure(self):
         if self._internal_closure is None:
 
-            self._internal_closure = {}
+            internal_closure = {}
 
             # 1. Set univariate closure
             for meta_field in self.fields.values():
-                self._internal_closure.update(meta_field.internal_closure)
+                internal_closure.update(meta_field.internal_closure)
             
             # 2. Set multivariate closure (only in multivariate situations)           
             for couple in self.multivariate_couples:
@@ -723,8 +724,11 @@ class SymbolicPKF(object):
                 V12 = self.get_covariance(f1,f2)
 
                 # 3.c) Update internal closure
-                self._internal_closure[Expectation(e1*e2)] = V12
-                self._internal_closure[Expectation(eps1*eps2)] = V12/(std1*std2)
+                internal_closure[Expectation(e1*e2)] = V12
+                internal_closure[Expectation(eps1*eps2)] = V12/(std1*std2)
+
+            # Only a complete closure is stored
+            self._internal_closure = internal_closure
 
         return self._internal_closure
     
-- 
2.43.0


From 2dc7df31864b923971ae2ed044bfed09690cf0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 30/55] fix: systems of fields of time only are derived

---
 src/sympkf/symbolic/pkfcas.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 94e3400..922c710 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -531,6 +531,10 @@ class SymbolicPKF(object):
             #     forms the equation $$ \pdt \nu = - 2\nu \pdt g \nu $$
             #     The computation of the system is made as a loop over univariate fields
             for mfield in self.fields.values():
+                # No tensor without spatial coordinates
+                if not mfield.spatial_coordinates:
+                    continue
+
                 # Extract tensors
                 diffusion = mfield.diffusion
                 metric = mfield.metric
@@ -631,6 +635,10 @@ class SymbolicPKF(object):
             #t = self.time_coordinate
 
             for mfield in self.fields.values():
+                # No tensor without spatial coordinates
+                if not mfield.spatial_coordinates:
+                    continue
+
                 # Extract tensors
                 aspect = mfield.aspect
                 metric = mfield.metric
@@ -1173,6 +1181,11 @@ class PartialOrderDerivative(object):
         import numpy as np
 
         nb_coordinates = len(coordinates)
+        if nb_coordinates == 0:
+            # Without coordinates there is no derivative but the one of degree zero
+            if derivative_order == 0:
+                yield PartialOrderDerivative(coordinates, ())
+            return
         start = np.zeros(nb_coordinates, dtype=int)
         start[0] = derivative_order
         start = tuple(start)
-- 
2.43.0


From 354de1c8cf6c203650b1919b2bbea439c0ebd08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:40 +0000
Subject: [PATCH 31/55] fix: an interrupted derivation does not leave an
 incomplete substitution tree

---
 src/sympkf/symbolic/pkfcas.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 922c710..f924db7 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1261,8 +1261,7 @@ class UnivariateTree(object):
 
     def _add_tree_level(self):
 
-        self._degree += 1
-        degree = self._degree
+        degree = self._degree + 1
 
         level = {}
 
@@ -1296,6 +1295,8 @@ class UnivariateTree(object):
                     level[term] = subs_term
 
         self._levels[degree] = level
+        # The level is available only once it is complete
+        self._degree = degree
 
     @property
     def degree(self):
-- 
2.43.0


From 8d1edb726d9acfaafa87c6b2266f8e71200d7cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 32/55] fix: a function of time is not a constant function,
 whatever the order of its variables

---
 src/sympkf/symbolic/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 326794d..29ee573 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -277,7 +277,7 @@ class PDESystem(object):
         constant_functions = set()
 
         for variable in self.functions.difference(self.prognostic_functions):
-            coordinates = variable.args[0].atoms(Symbol)
+            coordinates = variable.atoms(Symbol)
             if self._time_symbol not in coordinates:
                 constant_functions.update({variable})
 
-- 
2.43.0


From cc35d77a7f4066e0a4be14adeb300ddc3efd299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 33/55] fix: the trend of a field does not take the name of
 another field

---
 src/sympkf/symbolic/model_builder.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index c2111c4..ba5450c 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -190,6 +190,14 @@ class ModelBuilder(object):
             self._prognostic_functions = [self._create_meta_prognostic_function(function, index)
                                           for index, function in enumerate(self.pde_system.prognostic_functions)]
 
+            # The name of a trend is not the one of another quantity (e.g. 'du' for 'u' in presence of a field 'du')
+            names = {clean_latex_name(function.func) for function in self.pde_system.functions}
+            names.update(clean_latex_name(constant) for constant in self.pde_system.constants)
+            for function in self._prognostic_functions:
+                while function.trend in names:
+                    function.trend = 'd'+function.trend
+                names.add(function.trend)
+
         return self._prognostic_functions
 
     @property
-- 
2.43.0


From 8eb5c4f3d41e51545b4d91774e5c60716dc0cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:17 +0000
Subject: [PATCH 34/55] fix: quantities that share a name in the generated code
 are refused

---
 src/sympkf/symbolic/model_builder.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index ba5450c..ce495b6 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -306,6 +306,16 @@ class ModelBuilder(object):
     def templates(self):
         return [self.template_header, self.template_body, self.template_footer]
 
+    def _check_names(self):
+        """ Different quantities can not share a name in the code of the trend """
+        names = {name: None for name in ('self', 't', 'state', 'dstate', 'exogenous', 'np')}
+        for quantity in self.functions + self.constants + self.spatial_derivatives:
+            name = quantity.as_keyvar
+            if name in names:
+                other = 'a variable of the code' if names[name] is None else names[name]
+                raise ValueError(f"{quantity.as_str} and {other} have the same name `{name}`")
+            names[name] = quantity.as_str
+
     def _render(self):
         """ Render the template to produce the python source code """
 
@@ -315,6 +325,8 @@ class ModelBuilder(object):
 
         code = ''''''
 
+        self._check_names()
+
         for template in self.templates:
             template = Template(template)
 
-- 
2.43.0


From 468b8553222906692a677de71c4a0e1980fe7bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 35/55] fix: two couples of fields do not share the symbol of a
 cross-covariance

---
 src/sympkf/symbolic/pkfcas.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index f924db7..cb5202b 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -759,7 +759,12 @@ class SymbolicPKF(object):
             assert cf1==cf2, ValueError("f1 and f2 have different coordinate system")
             coordinates = cf1
 
-            return Function(self._label_covariance+f1.name+f2.name)(*coordinates)
+            label = f1.name+f2.name
+            if sum(g1.name+g2.name == label for g1, g2 in self.multivariate_couples) > 1:
+                # Several couples have this label, e.g. (C,OH) and (CO,H)
+                label = '{'+f1.name+','+f2.name+'}'
+
+            return Function(self._label_covariance+label)(*coordinates)
         else:
             raise ValueError("f1 or f2 are not prognostic fields")
 
-- 
2.43.0


From 6be6c9b0feef13cc0705cbda7da9a8cfa6f9db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 36/55] fix: fields whose statistics would share their names
 are refused

---
 src/sympkf/symbolic/pkfcas.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index cb5202b..90cd5c6 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -48,6 +48,9 @@ class SymbolicPKF(object):
         self.fields = collections.OrderedDict([(field, Field(field))
                                                for field in self.pde_system.prognostic_functions]
                                               )
+        codes = [mfield.code for mfield in self.fields.values()]
+        if len(set(codes)) != len(codes):
+            raise ValueError(f"different fields have the same name among {codes}")
         self.time_coordinate = self.pde_system.time_coordinate
         self.tl_system = None
         self._first_order_reynolds_system = None
-- 
2.43.0


From 7be802cb29d17061e5e957d896b11f7d2654158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:58 +0000
Subject: [PATCH 37/55] fix: the bounds of an integral can be random, and a
 derivative with respect to a random field stays within its expectation

---
 src/sympkf/symbolic/random.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index f66478d..b717e7d 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -101,10 +101,10 @@ class Expectation(Function):
             else:
                 return cls(arg, evaluate=False)
         # Commutativité par rapport aux opérateurs de dérivations time/space
-        elif isinstance(arg, Derivative):
+        elif isinstance(arg, Derivative) and not any(israndom(v) for v in arg.args[1:]):
             return Derivative(cls(arg.args[0]), *arg.args[1:])
         # Commutativité par rapport aux opérateurs de intégraux time/space
-        elif isinstance(arg, Integral):
+        elif isinstance(arg, Integral) and not any(israndom(v) for v in arg.args[1:]):
             return Integral(cls(arg.args[0]), *arg.args[1:])
         #
         # Apply to particular structure
@@ -205,10 +205,11 @@ def israndom(arg, verbose=False):
     elif isinstance(arg, Symbol):
         lprint('israndom: Symbol')
         return arg == omega
-    elif isinstance(arg, (Derivative, Integral)):
+    elif isinstance(arg, Derivative):
         lprint(f'israndom: {type(arg)}')
         return israndom(arg.args[0], verbose=verbose)
-    elif isinstance(arg, (Mul, Add, Pow)):
+    elif isinstance(arg, sympy.Basic):
+        # Mul, Add, Pow, Integral (whose bounds can be random), Piecewise, Subs, ..
         lprint(f'israndom: {type(arg)}')
         return any(israndom(elm, verbose=verbose) for elm in arg.args)
     elif isinstance(arg, (sympy.Matrix, sympy.ImmutableMatrix)):
-- 
2.43.0


From 40ceb5a5d069d02bbca2cdf45066309264184423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:58 +0000
Subject: [PATCH 38/55] fix: fluxes and other functions of the fields are
 expanded in the Reynolds decomposition

---
 src/sympkf/symbolic/pkfcas.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 90cd5c6..08133ab 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -112,7 +112,7 @@ class SymbolicPKF(object):
             #
             # / bug
 
-            taylor = rhs.series(epsilon, 0, 3).removeO()
+            taylor = self._taylor(rhs, epsilon)
 
             # bug-Expectation-hotfix 5595950431936087884
             #            
@@ -131,6 +131,17 @@ class SymbolicPKF(object):
         self._first_order_reynolds_system = first_order_reynolds
         self._second_order_reynolds_system = second_order_reynolds
 
+    @staticmethod
+    def _taylor(expr, epsilon):
+        """ Second-order Taylor's expansion at epsilon=0 """
+        if expr.has(sympy.Subs, sympy.Piecewise):
+            # sympy's series do not expand in the arguments of these objects
+            return sum([
+                expr.diff(epsilon, order).subs(epsilon, Integer(0)) * epsilon**order / sympy.factorial(order)
+                for order in range(3)
+            ])
+        return expr.series(epsilon, 0, 3).removeO()
+
     @property
     def first_order_reynolds_system(self):
         """ Create the linear dynamics by including the Reynolds decomposition of random fields.
-- 
2.43.0


From 97f28b3a515bad2d45e1902527752b7b044316eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:58 +0000
Subject: [PATCH 39/55] fix: the mean dynamics is written with the metric, as
 the variance dynamics is

---
 src/sympkf/symbolic/pkfcas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 08133ab..c963c2e 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -181,6 +181,8 @@ class SymbolicPKF(object):
                 equation = equation.subs(subs_error).doit().expand()
                 # 3) Apply internal closure
                 equation = equation.subs(self.internal_closure).doit()
+                lhs, rhs = equation.args
+                equation = Eq(lhs, self._apply_internal_closure(rhs))
 
                 expectation_system.append(equation)
 
-- 
2.43.0


From c341d281be417660581a793cff03252b541e17a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:00 +0000
Subject: [PATCH 40/55] fix: functions of several fields are expanded in the
 Reynolds decomposition

---
 src/sympkf/symbolic/pkfcas.py | 37 +++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index c963c2e..0caae07 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -7,6 +7,7 @@ import collections
 
 from sympy import Derivative, symbols, Function, sqrt, Integer, Rational, Mul, Matrix
 import sympy
+from sympy.core.function import AppliedUndef
 
 omega = symbols('omega')
 
@@ -134,14 +135,42 @@ class SymbolicPKF(object):
     @staticmethod
     def _taylor(expr, epsilon):
         """ Second-order Taylor's expansion at epsilon=0 """
-        if expr.has(sympy.Subs, sympy.Piecewise):
-            # sympy's series do not expand in the arguments of these objects
+        if expr.has(sympy.Piecewise) or any(arg.has(epsilon) for arg in SymbolicPKF._function_arguments(expr)):
+            # sympy's series do not expand in these objects
+            derivatives = SymbolicPKF._derivatives_at_zero(expr, epsilon)
             return sum([
-                expr.diff(epsilon, order).subs(epsilon, Integer(0)) * epsilon**order / sympy.factorial(order)
-                for order in range(3)
+                derivatives[order] * epsilon**order / sympy.factorial(order) for order in range(3)
             ])
         return expr.series(epsilon, 0, 3).removeO()
 
+    @staticmethod
+    def _function_arguments(expr):
+        """ Arguments of the undefined functions, as F(u) or its derivative Subs(Derivative(F(s),s),s,u) """
+        arguments = set()
+        for node in expr.atoms(AppliedUndef, sympy.Subs):
+            arguments.update(node.point if isinstance(node, sympy.Subs) else node.args)
+        return list(sympy.ordered(arguments))
+
+    @staticmethod
+    def _derivatives_at_zero(expr, epsilon):
+        """ Derivatives of order 0, 1 and 2 in epsilon, at epsilon=0 """
+        functions = {}
+        at_zero = []
+        for position, arg in enumerate(SymbolicPKF._function_arguments(expr)):
+            if arg.has(epsilon):
+                # The argument is replaced by a function: a derivative in an argument is then well-defined
+                function = Function(f'argument_{position}')(epsilon)
+                functions[arg] = function
+                derivatives = SymbolicPKF._derivatives_at_zero(arg, epsilon)
+                at_zero += [
+                    (Derivative(function, (epsilon, 2)), derivatives[2]),
+                    (Derivative(function, epsilon), derivatives[1]),
+                    (function, derivatives[0])
+                ]
+        at_zero.append((epsilon, Integer(0)))
+        expr = expr.xreplace(functions)
+        return [expr.diff(epsilon, order).subs(at_zero) for order in range(3)]
+
     @property
     def first_order_reynolds_system(self):
         """ Create the linear dynamics by including the Reynolds decomposition of random fields.
-- 
2.43.0


From 44f9f50dcf6f0be502f99c3e2bb01a2f533d7ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:53 +0000
Subject: [PATCH 41/55] fix: a saved time asked twice does not scale the
 tangent-linear forecast twice

---
 src/sympkf/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/model/model.py b/src/sympkf/model/model.py
index a32b79b..102da14 100644
--- a/src/sympkf/model/model.py
+++ b/src/sympkf/model/model.py
@@ -263,7 +263,7 @@ class Model(object):
         perturbed_states = ( (state + perturbation * h) for perturbation in perturbations)
         tl_forecasts = self.ensemble_forecast(window, perturbed_states, saved_times)
         # Computation of the perturbation a time
-        for q in saved_times:
+        for q in tl_forecasts:
             tl_forecasts[q] = [ (state - forecast[q] )/h for state in tl_forecasts[q] ]
         return forecast, tl_forecasts
     
-- 
2.43.0


From 1dc0291db35c170357a2e22869cc287c7b750d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:44 +0000
Subject: [PATCH 42/55] fix: a field of the system is not taken for a statistic
 of another field

---
 src/sympkf/symbolic/pkfcas.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 0caae07..02ccf0d 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -52,6 +52,11 @@ class SymbolicPKF(object):
         codes = [mfield.code for mfield in self.fields.values()]
         if len(set(codes)) != len(codes):
             raise ValueError(f"different fields have the same name among {codes}")
+        statistics = set()
+        for mfield in self.fields.values():
+            statistics.update([mfield.variance, mfield.std, *mfield.metric, *mfield.diffusion, *mfield.aspect])
+        if statistics & self.pde_system.functions:
+            raise ValueError(f"{statistics & self.pde_system.functions} are both in the system and statistics of its fields")
         self.time_coordinate = self.pde_system.time_coordinate
         self.tl_system = None
         self._first_order_reynolds_system = None
-- 
2.43.0


From 5c0c7cf7fa3884e2768dc39420e1a8bebabcbc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:47 +0000
Subject: [PATCH 43/55] fix: the variable of an integral is not a constant of
 the system

---
 src/sympkf/symbolic/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 29ee573..1dabdd5 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -317,7 +317,7 @@ class PDESystem(object):
             rhs = equation.args[1]
             trainable = rhs.atoms(TrainableScalar)
             # Only retain constants that are not coordinate nor trainable
-            constants.update(rhs.atoms(Symbol).difference(self.coordinates).difference(trainable))
+            constants.update(rhs.free_symbols.difference(self.coordinates).difference(trainable))
 
         return constants
 
-- 
2.43.0


From e50880044707da5b158ac84b7fec70c1c213cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:36 +0000
Subject: [PATCH 44/55] fix: the modulo is a function of sympy, not an
 exogenous field

---
 src/sympkf/symbolic/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 1dabdd5..4d8e018 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -254,7 +254,7 @@ class PDESystem(object):
     @staticmethod
     def _is_standard_function(function):
         """ True for the functions of sympy (sin, exp, ..), which are not fields """
-        return str(type(function).__module__).startswith('sympy.functions')
+        return str(type(function).__module__).startswith('sympy.')
 
     def _get_prognostic_functions(self):
         """ Extract prognostic functions from the system of pde """
-- 
2.43.0


From 4df3f74fd27a474c5f0258c0dbfdaa72765db351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:46 +0000
Subject: [PATCH 45/55] fix: maximum and minimum of a field and a scalar in the
 code of the trend

---
 src/sympkf/symbolic/model_builder.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index ce495b6..2060a5d 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -8,6 +8,21 @@ from jinja2 import Template
 
 from .tool import clean_latex_name
 
+class _TrendPrinter(NumPyPrinter):
+    """ Printer of numpy where the maximum and the minimum of scalars and arrays are those at each point """
+
+    def _print_Max(self, expr):
+        return self._nested('numpy.maximum', expr)
+
+    def _print_Min(self, expr):
+        return self._nested('numpy.minimum', expr)
+
+    def _nested(self, name, expr):
+        code, *others = [self._print(arg) for arg in expr.args]
+        for other in others:
+            code = f'{name}({code}, {other})'
+        return code
+
 class MetaFunction(object):
 
     def __init__(self, function, index=None):
@@ -275,7 +290,7 @@ class ModelBuilder(object):
     @staticmethod
     def _numpy_code(expr):
         """ Python code of an expression where sqrt, sin, pi, .. are those of numpy (imported as np) """
-        code = NumPyPrinter({'fully_qualified_modules': True}).doprint(expr)
+        code = _TrendPrinter({'fully_qualified_modules': True}).doprint(expr)
         return re.sub(r'\bnumpy\.', 'np.', code)
 
     def _make_trend_code(self):
-- 
2.43.0


From 6a7a489953d29b7ac1d31847fcee709167a4cc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:18 +0000
Subject: [PATCH 46/55] fix: a constant or a coordinate of the generated model
 can not take the name of another quantity

A constant named dx, index, X, trend, .. replaced the attribute of the model of
this name (dx: wrong trend; others: obscure errors), and two coordinates of the
same name (x_{1} and x_1) were silently taken for one another.
---
 src/sympkf/symbolic/model_builder.py          | 19 +++++++++++++++++++
 src/sympkf/symbolic/model_builder_FD.py       |  1 +
 src/sympkf/symbolic/model_builder_manifold.py |  1 +
 3 files changed, 21 insertions(+)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 2060a5d..85c588b 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -7,6 +7,7 @@ from .util import PDESystem, get_trend, get_derivative_partial_orders, FunctionS
 from jinja2 import Template
 
 from .tool import clean_latex_name
+from ..model import Model
 
 class _TrendPrinter(NumPyPrinter):
     """ Printer of numpy where the maximum and the minimum of scalars and arrays are those at each point """
@@ -135,6 +136,10 @@ class ModelBuilder(object):
     template_body = None
     meta_factory = None
 
+    # Attributes of the numerical model that are set by the code (in addition to the ones of the class Model)
+    _model_attributes = ('time_schemes', 'time_scheme', '_dt', 'coordinates', 'prognostic_functions',
+                         'exogenous_functions', 'constant_functions', 'constants', 'compute_exogenous')
+
     def __init__(self, pde_system, class_name=None):
 
         if not isinstance(pde_system, PDESystem):
@@ -331,6 +336,20 @@ class ModelBuilder(object):
                 raise ValueError(f"{quantity.as_str} and {other} have the same name `{name}`")
             names[name] = quantity.as_str
 
+        # A constant is an attribute of the model: it can not replace another one
+        for quantity in self.constant_functions + self.constants:
+            name = quantity.as_keyvar
+            if hasattr(Model, name) or name in self._model_attributes:
+                raise ValueError(f"{quantity.as_str} and an attribute of the model have the same name `{name}`")
+
+        # Different coordinates can not share a name
+        names = {}
+        for coordinate in self.spatial_coordinates:
+            name = coordinate.as_keyvar
+            if name in names:
+                raise ValueError(f"{coordinate.as_str} and {names[name]} have the same name `{name}`")
+            names[name] = coordinate.as_str
+
     def _render(self):
         """ Render the template to produce the python source code """
 
diff --git a/src/sympkf/symbolic/model_builder_FD.py b/src/sympkf/symbolic/model_builder_FD.py
index cd0230e..4c3f5bf 100644
--- a/src/sympkf/symbolic/model_builder_FD.py
+++ b/src/sympkf/symbolic/model_builder_FD.py
@@ -34,6 +34,7 @@ class FDModelBuilder(ModelBuilder):
 
     from .templates.body_FDModelBuilder import template as template_FDModelBuilder
     template_body = template_FDModelBuilder
+    _model_attributes = ModelBuilder._model_attributes + ('shape', 'lengths', 'dx', 'x', 'X', 'index', '_index')
 
     def _create_meta_derivative(self, derivative):
         return MetaDerivative(derivative)
diff --git a/src/sympkf/symbolic/model_builder_manifold.py b/src/sympkf/symbolic/model_builder_manifold.py
index 70ee482..c27712c 100644
--- a/src/sympkf/symbolic/model_builder_manifold.py
+++ b/src/sympkf/symbolic/model_builder_manifold.py
@@ -15,6 +15,7 @@ class ManifoldModelBuilder(ModelBuilder):
 
     from .templates.body_ManifoldModelBuilder import template as template_ManifoldModelBuilder
     template_body = template_ManifoldModelBuilder
+    _model_attributes = ModelBuilder._model_attributes + ('base_space',)
 
     def _create_meta_derivative(self, derivative):
         return MetaDerivative(derivative)
-- 
2.43.0


From 4307ad5cb5f00e6163217db4e21bf5321ab60e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:18 +0000
Subject: [PATCH 47/55] fix: the expectation of the integral of random cases is
 not the integral of the cases

---
 src/sympkf/symbolic/random.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index b717e7d..07a07d9 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -105,7 +105,13 @@ class Expectation(Function):
             return Derivative(cls(arg.args[0]), *arg.args[1:])
         # Commutativité par rapport aux opérateurs de intégraux time/space
         elif isinstance(arg, Integral) and not any(israndom(v) for v in arg.args[1:]):
-            return Integral(cls(arg.args[0]), *arg.args[1:])
+            integrand = cls(arg.args[0])
+            # An integral distributes its integrand over the cases of a `Piecewise`, and so the expectation of
+            # the integrand, which does not commute with random cases
+            cases = integrand.atoms(sympy.Piecewise)
+            if any(israndom(condition) for elm in cases for _, condition in elm.args):
+                return cls(arg, evaluate=False)
+            return Integral(integrand, *arg.args[1:])
         #
         # Apply to particular structure
         #
-- 
2.43.0


From 27554cef38803df552f34932a442e1f93146a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:30 +0000
Subject: [PATCH 48/55] fix: one component of the tensors per couple of
 coordinates, whatever the names of the coordinates

---
 src/sympkf/symbolic/pkfcas.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 02ccf0d..ad0819d 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1081,7 +1081,11 @@ class Field(object):
     def index_code(self,i,j):
         if j<i:
             i,j = j,i
-        return self.spatial_coords_code[i] + self.spatial_coords_code[j]
+        codes = self.spatial_coords_code
+        pairs = [codes[k] + codes[l] for k in range(len(codes)) for l in range(k, len(codes))]
+        # Coordinates as x, xx, xxx: (x,xxx) and (xx,xx) are not the same component
+        separator = '' if len(set(pairs)) == len(pairs) else ','
+        return codes[i] + separator + codes[j]
 
     def metric_func(self,i,j):
         return Function('{g_{' + self.code + ',' + self.index_code(i, j) + '}}', real=True)(*self.coordinates)
-- 
2.43.0


From f7772fca128fbf1891a9284abd96966e4cfe58fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:48 +0000
Subject: [PATCH 49/55] fix: the small parameter of the Reynolds expansion is
 not a constant of the system

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index ad0819d..262965b 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -95,7 +95,7 @@ class SymbolicPKF(object):
         first_order_reynolds = []
         second_order_reynolds = []
 
-        epsilon = symbols('\\varepsilon')
+        epsilon = sympy.Dummy('\\varepsilon') # not a constant of the system, whatever its name
         subs_reynolds = {            
             field: Expectation(self.fields[field].random) + epsilon * self.fields[field].error            
             for field in self.fields
-- 
2.43.0


From 4977740e2a32213e72e83ac4593219b7e0d66d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:00 +0000
Subject: [PATCH 50/55] fix: a field of the system that has the name of a
 covariance is refused

---
 src/sympkf/symbolic/pkfcas.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 262965b..5fe6767 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -814,7 +814,10 @@ class SymbolicPKF(object):
                 # Several couples have this label, e.g. (C,OH) and (CO,H)
                 label = '{'+f1.name+','+f2.name+'}'
 
-            return Function(self._label_covariance+label)(*coordinates)
+            covariance = Function(self._label_covariance+label)(*coordinates)
+            if covariance in self.pde_system.functions:
+                raise ValueError(f"{covariance} is both in the system and the covariance of its fields")
+            return covariance
         else:
             raise ValueError("f1 or f2 are not prognostic fields")
 
-- 
2.43.0


From 51c229a816a7225643b9242b101321ee970e83c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:57 +0000
Subject: [PATCH 51/55] fix: one displacement per coordinate in the closures,
 whatever the names of the coordinates

---
 src/sympkf/symbolic/pkfcas.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 5fe6767..c57a69d 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1385,9 +1385,12 @@ class Closure(object):
         self.spatial_coordinates = mfield.spatial_coordinates
 
         self._x = self.spatial_coordinates
-        self._dx = symbols(' '.join([f"d{xi}" for xi in self.spatial_coordinates]))
-        if not isinstance(self._dx, tuple):
-            self._dx = (self._dx,)
+        # A displacement has one name, whatever the name of the coordinate (e.g. x_{1,2}), and is not a coordinate
+        names = [str(xi) for xi in self.spatial_coordinates]
+        prefix = 'd'
+        while any(prefix + name in names for name in names):
+            prefix += 'd'
+        self._dx = tuple([sympy.Symbol(prefix + name) for name in names])
 
         self.epsilon = mfield.epsilon
         self.metric = mfield.metric
-- 
2.43.0


From 6947e85c909bbd49d8e1e6406e28824e35f2b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:57 +0000
Subject: [PATCH 52/55] fix: finite differences of fields whose coordinates
 have a comma in their name

---
 src/sympkf/symbolic/finite_difference.py | 8 ++++----
 src/sympkf/symbolic/util.py              | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index 366e883..f0ff504 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -36,13 +36,13 @@ def get_subs_derivative(derivative):
         subs_derivative = Derivative(finite_diff, y,1)
 
     """
-    from sympy import Derivative, Integer, symbols
+    from sympy import Derivative, Integer, Symbol
     from numpy import arange
 
     # Get arguments from the derivative
     func_part = derivative.args[0]
     xi, oi = derivative.args[1]
-    dxi = symbols('d' + str(xi))    
+    dxi = Symbol('d' + str(xi))    
     
     # 1. Compute the finite difference of the derivation with respect to the first argument
     
@@ -165,7 +165,7 @@ def _sympy_finite_difference(expr):
         f(x+dx)/2*dx - f(x-dx)/2*dx
 
     """
-    from sympy import Derivative, symbols
+    from sympy import Derivative, Symbol
 
     expr = expr.doit()
 
@@ -179,7 +179,7 @@ def _sympy_finite_difference(expr):
         for derivative in derivatives:
             # a) get first 'wrt' variable
             xi = derivative.args[1][0]
-            dxi = symbols('d' + str(xi))
+            dxi = Symbol('d' + str(xi))
             # b) substitute
             expr = expr.subs(derivative, derivative.as_finite_difference(dxi, wrt=xi)).expand()
 
diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 4d8e018..0556717 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -410,7 +410,7 @@ def get_coordinates(function):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
-            dxi = symbols('d' + str(xi))
+            dxi = Symbol('d' + str(xi))
         else:
             raise ValueError(f"Too many symbols {arg} for function {function}")
 
@@ -452,7 +452,7 @@ def get_function_coordinates(function):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
-            dxi = symbols('d' + str(xi))
+            dxi = Symbol('d' + str(xi))
         else:
             raise ValueError(f"Too many symbols {arg} for function {function}")
 
-- 
2.43.0


From 49bd96fdd797315d68997c5ab2dd5c57ed244a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:57 +0000
Subject: [PATCH 53/55] fix: latex form of a power of an expectation

---
 src/sympkf/symbolic/random.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index 07a07d9..db5014b 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -156,10 +156,11 @@ class Expectation(Function):
         pattern = [elm  for elm in pattern if not elm == omega]        
         return self.args[0].has(*pattern)
 
-    def _latex(self, printer):
+    def _latex(self, printer, exp=None):
         """
         Make the latex printing with standard \\mathbb E notation.
         :param printer:
+        :param exp: latex code of the exponent, for a power of the expectation
         :return:
 
         :Example:
@@ -173,7 +174,8 @@ class Expectation(Function):
             '\\mathbb E\\left(X{\\left(\\omega \\right)}\\right)'
 
         """
-        return self._latex_name+ r"\left(%s\right)" % printer._print(self.args[0])
+        name = self._latex_name if exp is None else self._latex_name + '^{%s}' % exp
+        return name + r"\left(%s\right)" % printer._print(self.args[0])
 
 
 class IncoherentEquality(Exception): pass
-- 
2.43.0


From 526b43f19a48fd2cbc7c8090c73f0161e77fe1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:25 +0000
Subject: [PATCH 54/55] fix: gradient and divergence refused expressions of
 compatible fields as sin(u), exp(u) or E(u)

---
 src/sympkf/symbolic/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 0556717..30ffc04 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -3,6 +3,7 @@
 """
 
 from sympy import Derivative, Function, Symbol, symbols, Add
+from sympy.core.function import AppliedUndef
 from .tool import clean_latex_name
 import sympy
 
@@ -597,7 +598,8 @@ class CoordinateSystem(object):
             return False
 
     def _check_compatible(self, expr):
-        for function in expr.atoms(Function):
+        # Fields are undefined functions: sin(u), exp(u), E(u), .. are not fields but functions of some
+        for function in expr.atoms(AppliedUndef):
             if not self.is_compatible(function):
                 raise ValueError(f'field args {function.args} not compatible with coordinates {self._coords}')
 
-- 
2.43.0


From e2aa41963496b09b813e3ee04ebba3173f429108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:26 +0000
Subject: [PATCH 55/55] fix: dynamics with a function of two fields that is not
 specified had wrong mixed derivatives in its metric equations

---
 src/sympkf/symbolic/random.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index db5014b..29d264e 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -41,6 +41,10 @@ class Expectation(Function):
     _latex_name = '{\mathbb E}'
     is_linear = True
 
+    # F(E(u),E(v)) can be differentiated with respect to E(u), as with respect to a field. Otherwise sympy keeps
+    # the derivative as a `Subs`, whose own mixed derivatives are wrong
+    _diff_wrt = True
+
     def _eval_derivative(self, v):
         return Derivative(self,v, evaluate=False)
 
-- 
2.43.0

