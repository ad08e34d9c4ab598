From 7984d013cbfa1f5e97cb0a11813eaa724729d403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 01/27] fix: multistep solvers report IMPLICIT correctly

IMPLICIT was True for the explicit Adams-Bashforth methods (Bn == 0) and
False for the implicit ones, so get_solvers(implicit=...) returned the
opposite of what was asked.
---
 docs/tutorial.rst        | 2 +-
 nbkode/multistep/core.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docs/tutorial.rst b/docs/tutorial.rst
index e22ef4c..f9e4f6f 100644
--- a/docs/tutorial.rst
+++ b/docs/tutorial.rst
@@ -198,7 +198,7 @@ or those which are explicit:
 .. doctest::
 
    >>> nbkode.get_solvers(implicit=False)
-   (<AdamsMoulton1>, <AdamsMoulton2>, <AdamsMoulton3>, <AdamsMoulton4>, <AdamsMoulton5>, <BackwardEuler>, <BDF1>, <BDF2>, <BDF3>, <BDF4>, <BDF5>, <BDF6>, <Runge2>, <Runge3>, <Heun3>, <RungeKutta4>, <RungeKutta3_8>, <RungeKutta23>, <RungeKutta45>, <DOP853>)
+   (<AdamsBashforth1>, <AdamsBashforth2>, <AdamsBashforth3>, <AdamsBashforth4>, <AdamsBashforth5>, <ForwardEuler>, <Runge2>, <Runge3>, <Heun3>, <RungeKutta4>, <RungeKutta3_8>, <RungeKutta23>, <RungeKutta45>, <DOP853>)
 
 or those of a given group:
 
diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index a21c9a3..4db6d1b 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -28,7 +28,7 @@ class Multistep(Solver, abstract=True):
 
     @classproperty
     def IMPLICIT(cls):
-        return cls.Bn == 0
+        return cls.Bn != 0
 
     @classproperty
     def LEN_HISTORY(cls):
-- 
2.43.0


From faf91bab015495dfaf6ce86bf8ea1f5c15ae07d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 02/27] fix: order of the coefficients of AdamsBashforth2-5 and
 AdamsMoulton4-5

The history is stored oldest first, but these rows were written newest
first, so that the weight of the newest derivative was applied to the
oldest one and the methods were only first order accurate.
---
 nbkode/multistep/adams_bashforth.py | 8 ++++----
 nbkode/multistep/adams_moulton.py   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/nbkode/multistep/adams_bashforth.py b/nbkode/multistep/adams_bashforth.py
index 3ad8670..a27778f 100644
--- a/nbkode/multistep/adams_bashforth.py
+++ b/nbkode/multistep/adams_bashforth.py
@@ -28,7 +28,7 @@ class AdamsBashforth2(AdamsBashforth):
         u[n+1] = u[n] + h * (3/2 *f(u[n], t[n]) - 1/2 * f(u[n-1], t[n-1]))
     """
 
-    B = np.array([3, -1]) / 2
+    B = np.array([-1, 3]) / 2
 
 
 class AdamsBashforth3(AdamsBashforth):
@@ -41,7 +41,7 @@ class AdamsBashforth3(AdamsBashforth):
 
     """
 
-    B = np.array([23, -16, 5]) / 12
+    B = np.array([5, -16, 23]) / 12
 
 
 class AdamsBashforth4(AdamsBashforth):
@@ -54,8 +54,8 @@ class AdamsBashforth4(AdamsBashforth):
 
     """
 
-    B = np.array([55, -59, 37, -9]) / 24
+    B = np.array([-9, 37, -59, 55]) / 24
 
 
 class AdamsBashforth5(AdamsBashforth):
-    B = np.array([1901, -2774, 2616, -1274, 251]) / 720
+    B = np.array([251, -1274, 2616, -2774, 1901]) / 720
diff --git a/nbkode/multistep/adams_moulton.py b/nbkode/multistep/adams_moulton.py
index 60fa9df..5af187c 100644
--- a/nbkode/multistep/adams_moulton.py
+++ b/nbkode/multistep/adams_moulton.py
@@ -47,10 +47,10 @@ class AdamsMoulton3(AdamsMoulton):
 
 
 class AdamsMoulton4(AdamsMoulton):
-    B = np.array([19, -5, 1]) / 24
+    B = np.array([1, -5, 19]) / 24
     Bn = 9 / 24
 
 
 class AdamsMoulton5(AdamsMoulton):
-    B = np.array([646, -264, 106, -19]) / 720
+    B = np.array([-19, 106, -264, 646]) / 720
     Bn = 251 / 720
-- 
2.43.0


From 40c07928bd71c23acc9e0dfa1eda4ec84fcc4f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 03/27] fix: interpolate between the two steps around the
 requested time

Solvers that keep more than two steps (AdamsBashforth3-5, AdamsMoulton4-5,
BDF3-6) used a single cubic over the whole history: the result missed the
steps in between, lost accuracy, and made the root search of events fail
because the interpolated value at the start of a step was not the value
of the state there.
---
 nbkode/core.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 82180bc..f471ba1 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -581,12 +581,20 @@ class Solver(ABC, metaclass=MetaSolver):
 
         Does not check that t_eval is valid, that is, that it is not extrapolating.
         """
-        t0, y0 = cache.ts[0], cache.ys[0]
+        # Use the steps just before and after t_eval.
+        ndx = cache.ts.size - 2
+        while ndx > 0 and t_eval < cache.ts[ndx]:
+            ndx -= 1
+
+        t0, y0 = cache.ts[ndx], cache.ys[ndx]
+        t1, y1 = cache.ts[ndx + 1], cache.ys[ndx + 1]
+        if t_eval == t1:
+            return y1
         if t_eval == t0:
             return y0
 
-        dt, dy = cache.t - t0, cache.y - y0
-        f0, f1 = cache.fs[0], cache.f
+        dt, dy = t1 - t0, y1 - y0
+        f0, f1 = cache.fs[ndx], cache.fs[ndx + 1]
 
         T = (t_eval - t0) / dt
         return (
-- 
2.43.0


From c4fc55251ffc6ca8167cf12b6b959037ebb776f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 04/27] fix: start multistep solvers at t0 when using a
 variable step starter

The starter was run up to h, 2h, ... instead of t0 + h, t0 + 2h, ...: with
t0 != 0 the constructor raised or filled the history with wrong times.
---
 nbkode/multistep/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 4db6d1b..46ff8e6 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -60,7 +60,7 @@ class Multistep(Solver, abstract=True):
         else:
             # For variable step solver we run N times until h, 2h, 3h .. (ORDER - 1)h
             solver = first_stepper_cls(self.rhs, self.t, self.y)
-            ts, ys = solver.run(np.arange(1, self.ORDER) * self.h)
+            ts, ys = solver.run(self.t + np.arange(1, self.ORDER) * self.h)
             for t, y in zip(ts, ys):
                 self.cache.push(t, y, self.rhs(t, y))
 
-- 
2.43.0


From 44e5f2f0fd36fc38689491aebf4197a8cd322e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 05/27] fix: use a multistep solver as starter of another one

A multistep starter is already at t0 + (k-1)h when it has been built, so
that its first k-1 points were missing from the history, which was then
not equally spaced.
---
 nbkode/multistep/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 46ff8e6..6c14267 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -54,12 +54,16 @@ class Multistep(Solver, abstract=True):
         if first_stepper_cls.FIXED_STEP:
             # For fixed step solver we do N steps with the step size.
             solver = first_stepper_cls(self.rhs, self.t, self.y, h=self.h)
+        else:
+            solver = first_stepper_cls(self.rhs, self.t, self.y)
+
+        if first_stepper_cls.FIXED_STEP and solver.t == self.t:
             for _ in range(self.ORDER - 1):
                 solver.step()
                 self.cache.push(solver.t, solver.y, solver.f)
         else:
             # For variable step solver we run N times until h, 2h, 3h .. (ORDER - 1)h
-            solver = first_stepper_cls(self.rhs, self.t, self.y)
+            # The same for a starter that has already done a start-up of its own.
             ts, ys = solver.run(self.t + np.arange(1, self.ORDER) * self.h)
             for t, y in zip(ts, ys):
                 self.cache.push(t, y, self.rhs(t, y))
-- 
2.43.0


From 17866f63d2d9e41e8cab8d5bc703a98bd7f111d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 06/27] fix: the start-up of multistep solvers respects t_bound

The constructor integrated up to t0 + (k-1)h even if this is beyond
t_bound.
---
 nbkode/multistep/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 6c14267..8a28f77 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -43,6 +43,9 @@ class Multistep(Solver, abstract=True):
                 self.cache.push(self.t, self.y, self.f)
             return
 
+        # The start-up also has to respect t_bound.
+        self._check_time(self.t + (self.ORDER - 1) * self.h)
+
         if first_stepper_cls == "auto":
             first_stepper_cls = self.FIRST_STEPPER_CLS
 
-- 
2.43.0


From 893ac429e1d78df5e5e9eec2cdfe7eee8370ecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:16 +0000
Subject: [PATCH 07/27] fix: step, interpolate and events return copies of the
 state

step() without arguments, interpolate() at a step, and the states of events
found exactly at a step were views of the history buffer and changed with
the next step.
---
 nbkode/core.py                 | 6 +++---
 nbkode/runge_kutta/explicit.py | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index f471ba1..38043e4 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -246,7 +246,7 @@ class Solver(ABC, metaclass=MetaSolver):
         if n is None and upto_t is None:
             # No parameters, make one step.
             if self._step(self.t_bound, *self._step_args):
-                return np.atleast_1d(self.t), self.y
+                return np.atleast_1d(self.t), np.copy(self.y)
         elif upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             ts, ys, scon = self._nsteps(n, self.t_bound, self._step, *self._step_args)
@@ -589,9 +589,9 @@ class Solver(ABC, metaclass=MetaSolver):
         t0, y0 = cache.ts[ndx], cache.ys[ndx]
         t1, y1 = cache.ts[ndx + 1], cache.ys[ndx + 1]
         if t_eval == t1:
-            return y1
+            return np.copy(y1)
         if t_eval == t0:
-            return y0
+            return np.copy(y0)
 
         dt, dy = t1 - t0, y1 - y0
         f0, f1 = cache.fs[ndx], cache.fs[ndx + 1]
diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index 8a55b58..c76236c 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -370,9 +370,9 @@ class RkInterpolator:
 
     def evaluate(self, t_eval):
         if t_eval == self.cache.ts[-1]:
-            return self.cache.ys[-1]
+            return np.copy(self.cache.ys[-1])
         if t_eval == self.cache.ts[-2]:
-            return self.cache.ys[-2]
+            return np.copy(self.cache.ys[-2])
         if not self.is_before(t_eval):
             self.update()
 
@@ -450,9 +450,9 @@ class DOP853Interpolator:
 
     def evaluate(self, t_eval):
         if t_eval == self.cache.ts[-1]:
-            return self.cache.ys[-1]
+            return np.copy(self.cache.ys[-1])
         if t_eval == self.cache.ts[-2]:
-            return self.cache.ys[-2]
+            return np.copy(self.cache.ys[-2])
         if not self.is_before(t_eval):
             self.update()
 
-- 
2.43.0


From 806326488aa1b781624e6eb526e18412abdd5e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:16 +0000
Subject: [PATCH 08/27] fix: copy the params array

Without numba, changing the array after building the solver changed the
right hand side (with numba its values are frozen at compilation).
---
 nbkode/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 38043e4..1b8edc4 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -116,7 +116,7 @@ class Solver(ABC, metaclass=MetaSolver):
         self.t_bound = t_bound
 
         if params is not None:
-            params = np.ascontiguousarray(params)
+            params = np.ascontiguousarray(params).copy()
 
         self.user_rhs = rhs
 
-- 
2.43.0


From 0475e19c3c3bc913fd1d983c13a819fcc499baa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:16 +0000
Subject: [PATCH 09/27] fix: step() and skip() raise RuntimeError at t_bound

As documented, and as step(n=1) and skip(n=1) do. step() returned None and
skip() silently did nothing.
---
 nbkode/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 1b8edc4..053f6f6 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -245,8 +245,9 @@ class Solver(ABC, metaclass=MetaSolver):
 
         if n is None and upto_t is None:
             # No parameters, make one step.
-            if self._step(self.t_bound, *self._step_args):
-                return np.atleast_1d(self.t), np.copy(self.y)
+            if not self._step(self.t_bound, *self._step_args):
+                raise RuntimeError("Integrator reached t_bound.")
+            return np.atleast_1d(self.t), np.copy(self.y)
         elif upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             ts, ys, scon = self._nsteps(n, self.t_bound, self._step, *self._step_args)
@@ -296,7 +297,8 @@ class Solver(ABC, metaclass=MetaSolver):
 
         if n is None and upto_t is None:
             # No parameters, make one step.
-            self._nskip(1, self.t_bound, self._step, *self._step_args)
+            if self._nskip(1, self.t_bound, self._step, *self._step_args):
+                raise RuntimeError("Integrator reached t_bound.")
         elif upto_t is None:
             # Only n is given, make n steps. If t_bound is reached, raise an exception.
             if self._nskip(n, self.t_bound, self._step, *self._step_args):
-- 
2.43.0


From 579947c524e3ce46d0898399a74a0fd14b5e3cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:16 +0000
Subject: [PATCH 10/27] fix: run_events with times that are already in the past

warnings.warning does not exist: any run_events call that includes a time
not after the current one (as the initial time) raised AttributeError.
---
 nbkode/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 053f6f6..e489ee4 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -440,7 +440,7 @@ class Solver(ABC, metaclass=MetaSolver):
             ys = np.concatenate((y_old, ys))
 
             if events:
-                warnings.warning("Events for past events are not implemented yet.")
+                warnings.warn("Events for past events are not implemented yet.")
 
         if is_t_sorted:
             return ts, ys, t_events, y_events
-- 
2.43.0


From 5a4bbef7f3723f16068250917e5a4f9c4d75ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 11/27] fix: stop at the earliest terminal event of a step

---
 nbkode/event_handler.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/nbkode/event_handler.py b/nbkode/event_handler.py
index 118818f..b824896 100644
--- a/nbkode/event_handler.py
+++ b/nbkode/event_handler.py
@@ -165,6 +165,12 @@ class Event:
 
         return trigger and self.is_terminal
 
+    def discard_after(self, t):
+        """Discard the events recorded after t."""
+        while self.t and self.t[-1] > t:
+            self.t.pop()
+            self.y.pop()
+
     @property
     def last_event(self):
         if self.t:
@@ -221,14 +227,20 @@ class EventHandler:
         """
 
         terminate = False
-        min_t = -np.inf
+        min_t = np.inf
         for ndx, event in enumerate(self.events):
             if event.evaluate(interpolate, rhs, cache, *args):
                 terminate = True
                 t, y = event.last_event
-                if t > min_t:
+                if t < min_t:
+                    min_t = t
                     self.last_event = t, y
 
+        if terminate:
+            # The solution ends here.
+            for event in self.events:
+                event.discard_after(min_t)
+
         return terminate
 
 
-- 
2.43.0


From b19aca3c1cb89c27e5a9d33417484d54e8447373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 12/27] fix: keep the requested times before a terminal event

---
 nbkode/core.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index e489ee4..4499954 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -649,9 +649,16 @@ class Solver(ABC, metaclass=MetaSolver):
                 if not step(t_bound, rhs, cache, *args):
                     return t_eval[:ndx], y_out[:ndx], True
                 if event_handler.evaluate(interpolate, rhs, cache, *args):
-                    # Append termination value.
-                    t_eval[ndx], y_out[ndx] = event_handler.last_event
-                    return t_eval[: ndx + 1], y_out[: ndx + 1], True
+                    t_end, y_end = event_handler.last_event
+                    # Evaluate the remaining timepoints before the event.
+                    while ndx < t_eval.size and t_eval[ndx] <= t_end:
+                        y_out[ndx] = interpolate(t_eval[ndx], rhs, cache, *args)
+                        ndx += 1
+                    # Append termination value, if the output is cut short.
+                    if ndx < t_eval.size and not (ndx > 0 and t_eval[ndx - 1] == t_end):
+                        t_eval[ndx], y_out[ndx] = t_end, y_end
+                        ndx += 1
+                    return t_eval[:ndx], y_out[:ndx], True
             y_out[ndx] = interpolate(ti, rhs, cache, *args)
 
         return t_eval, y_out, False
-- 
2.43.0


From 03a6e7141c1ca97b01866e69f0d4ec6476361c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 13/27] fix: run with unsorted times when the output is cut
 short

---
 nbkode/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbkode/core.py b/nbkode/core.py
index 4499954..30ff119 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -446,6 +446,8 @@ class Solver(ABC, metaclass=MetaSolver):
             return ts, ys, t_events, y_events
 
         ondx = np.argsort(ndx)
+        # The output is shorter than t if the integration was stopped.
+        ondx = ondx[ondx < ts.size]
         return ts[ondx], ys[ondx], t_events, y_events
 
     def interpolate(self, t: float) -> float:
-- 
2.43.0


From ed64b8127e249cbe7453159d19d1ba7eed4aaca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 14/27] fix: DOP853 when the error estimate vanishes

---
 nbkode/runge_kutta/explicit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index c76236c..bb4e531 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -333,7 +333,10 @@ class DOP853(FSAL):
                 err3 = step_error(h, K, E3)
                 err5 = scaled_error_norm(y, cache.y, err5, options)
                 err3 = scaled_error_norm(y, cache.y, err3, options)
-                error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
+                if err5 == 0:
+                    error_norm = 0.0
+                else:
+                    error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
                 if step_update(error_norm, h, options, error_exponent):
                     cache.push(t, y, K[-1])
                     break
-- 
2.43.0


From 53173baf585ca657167b24a9a2a950b2d5908544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 15/27] fix: locate events in time, independently of the scale
 of the event function

---
 nbkode/event_handler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbkode/event_handler.py b/nbkode/event_handler.py
index b824896..ff8091e 100644
--- a/nbkode/event_handler.py
+++ b/nbkode/event_handler.py
@@ -152,6 +152,7 @@ class Event:
                     event_at_sol,
                     self.last_t,
                     t,
+                    tol=0.0,
                     args=(self.func, interpolate, rhs, cache, *args),
                 )
 
-- 
2.43.0


From b2d2cc4aab71b61463b480aaa74b4b95c00ea50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 16/27] fix: respect min_step and max_step, and raise when the
 step size vanishes

---
 nbkode/core.py                 |  1 +
 nbkode/runge_kutta/core.py     | 25 +++++++++++++++++++------
 nbkode/runge_kutta/explicit.py |  4 ++++
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 30ff119..6cc118e 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -722,6 +722,7 @@ class VariableStep:
                 self.options.rtol,
                 self.options.atol,
             )
+        h = min(max(self.options.min_step, h), self.options.max_step)
         self.h = np.array(h, dtype=float)
 
 
diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index eed1fae..707d34a 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import numpy as np
 
 from ..core import Solver, VariableStep
-from ..nbcompat import numba
+from ..nbcompat import clip, numba
 from ..util import classproperty
 
 
@@ -89,14 +89,25 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
 
         Updates h in place, so it must be an scalar numpy array.
         Returns True if step is accepted.
+
+        The updated h is within min_step and max_step. A RuntimeError is raised
+        if the step is rejected and a smaller one is not allowed.
         """
         if error_norm == 0:
-            h *= options.max_factor
-            return True  # step accepted
+            factor = options.max_factor
+        else:
+            factor = options.safety_factor / error_norm**error_exponent
+            factor = min(options.max_factor, max(options.min_factor, factor))
+
+        accepted = error_norm < 1
+        h *= factor
+        too_small = not h >= options.min_step or h == 0
+        h[()] = clip(h.item(), options.min_step, options.max_step)
+
+        if too_small and not accepted:
+            raise RuntimeError("Required step size is smaller than min_step.")
 
-        factor = options.safety_factor / error_norm**error_exponent
-        h *= min(options.max_factor, max(options.min_factor, factor))
-        return error_norm < 1
+        return accepted
 
     @classmethod
     def _step_builder(cls):
@@ -113,6 +124,8 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
 
             while True:
                 t, y = fixed_step(rhs, cache, h, K)
+                if not t > cache.t:
+                    raise RuntimeError("Required step size is too small to advance.")
                 error = step_error(h, K, E)
                 error_norm = scaled_error_norm(y, cache.y, error, options)
                 if step_update(error_norm, h, options, error_exponent):
diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index bb4e531..7ee67cd 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -90,6 +90,8 @@ class FSAL(AdaptiveRungeKutta, ERK, abstract=True):
         def _step(rhs, cache, h, K, options, *args):
             while True:
                 t, y = fixed_step(rhs, cache, h, K)
+                if not t > cache.t:
+                    raise RuntimeError("Required step size is too small to advance.")
                 error = step_error(h, K, E)
                 error_norm = scaled_error_norm(y, cache.y, error, options)
                 if step_update(error_norm, h, options, error_exponent):
@@ -329,6 +331,8 @@ class DOP853(FSAL):
         def _step(rhs, cache, h, K, options, *args):
             while True:
                 t, y = fixed_step(rhs, cache, h, K)
+                if not t > cache.t:
+                    raise RuntimeError("Required step size is too small to advance.")
                 err5 = step_error(h, K, E5)
                 err3 = step_error(h, K, E3)
                 err5 = scaled_error_norm(y, cache.y, err5, options)
-- 
2.43.0


From 0e3722ce0f11565efe4a4b97fda6556e54131e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 17/27] fix: scale the finite difference step of the Newton
 jacobian

---
 nbkode/nbcompat/zeros.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index 57c938b..fa4dec6 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -439,20 +439,21 @@ def j_newton(
 
 @numba.njit()
 def jacobian(func, x, args=()):
-    eps = 1e-10
     J = np.zeros((len(x), len(x)), dtype=np.float64)
 
     for i in range(len(x)):
         x1 = x.copy()
         x2 = x.copy()
 
+        # Scaled to produce a change that is larger than the spacing of x.
+        eps = 1e-10 * max(1.0, np.abs(x[i]))
         x1[i] += eps
         x2[i] -= eps
 
         f1 = func(x1, *args)
         f2 = func(x2, *args)
 
-        J[:, i] = (f1 - f2) / (2 * eps)
+        J[:, i] = (f1 - f2) / (x1[i] - x2[i])
 
     return J
 
-- 
2.43.0


From 8758cb9f0c1b9f9d540071cad97eaf570a3e2fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 18/27] fix: bisect when the product of the function values
 underflows

---
 nbkode/nbcompat/zeros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index fa4dec6..26ca8e1 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -516,7 +516,7 @@ def bisect(fun, left, right, tol=1.48e-8, maxiter=50, rtol=0.0, args=()):
     yr = fun(right, *args)
     if yr == 0:
         return right
-    if not yl * yr < 0:
+    if not np.sign(yl) * np.sign(yr) < 0:
         raise ValueError(
             "In bisect, 'fun(left, *args)' must have and opposite sign to 'fun(right, *args)'."
         )
-- 
2.43.0


From 0ff84ae3ae402eb359766ccc9e7b03a71f1b8b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 19/27] fix: keep the stages of the last step until the next
 one is completed

---
 nbkode/runge_kutta/explicit.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/nbkode/runge_kutta/explicit.py b/nbkode/runge_kutta/explicit.py
index 7ee67cd..17cce00 100644
--- a/nbkode/runge_kutta/explicit.py
+++ b/nbkode/runge_kutta/explicit.py
@@ -88,14 +88,17 @@ class FSAL(AdaptiveRungeKutta, ERK, abstract=True):
 
         @numba.njit
         def _step(rhs, cache, h, K, options, *args):
+            # K holds the stages of the last completed step (see interpolators).
+            K_new = np.empty_like(K)
             while True:
-                t, y = fixed_step(rhs, cache, h, K)
+                t, y = fixed_step(rhs, cache, h, K_new)
                 if not t > cache.t:
                     raise RuntimeError("Required step size is too small to advance.")
-                error = step_error(h, K, E)
+                error = step_error(h, K_new, E)
                 error_norm = scaled_error_norm(y, cache.y, error, options)
                 if step_update(error_norm, h, options, error_exponent):
-                    cache.push(t, y, K[-1])
+                    cache.push(t, y, K_new[-1])
+                    K[:] = K_new
                     break
 
         return _step
@@ -329,12 +332,14 @@ class DOP853(FSAL):
 
         @numba.njit
         def _step(rhs, cache, h, K, options, *args):
+            # K holds the stages of the last completed step (see interpolators).
+            K_new = np.empty_like(K)
             while True:
-                t, y = fixed_step(rhs, cache, h, K)
+                t, y = fixed_step(rhs, cache, h, K_new)
                 if not t > cache.t:
                     raise RuntimeError("Required step size is too small to advance.")
-                err5 = step_error(h, K, E5)
-                err3 = step_error(h, K, E3)
+                err5 = step_error(h, K_new, E5)
+                err3 = step_error(h, K_new, E3)
                 err5 = scaled_error_norm(y, cache.y, err5, options)
                 err3 = scaled_error_norm(y, cache.y, err3, options)
                 if err5 == 0:
@@ -342,7 +347,8 @@ class DOP853(FSAL):
                 else:
                     error_norm = err5 / np.sqrt(1 + ((err3 / (10 * err5)) ** 2))
                 if step_update(error_norm, h, options, error_exponent):
-                    cache.push(t, y, K[-1])
+                    cache.push(t, y, K_new[-1])
+                    K[:] = K_new
                     break
 
         return _step
-- 
2.43.0


From 89b99d008254015f235ebb3ba084a3c4444473fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 20/27] fix: newton accepts lists of one item and complex
 starting points

---
 nbkode/nbcompat/zeros.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index 26ca8e1..e6b981a 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -226,6 +226,9 @@ def newton(
             func, x0, fprime, args, tol, maxiter, fprime2, full_output
         )
 
+    # Convert to a numpy float or complex object (lists are also accepted)
+    x0 = np.asarray(x0)[()] * 1.0
+
     (full_output, r), my_flag = _newton(
         func,
         x0,
-- 
2.43.0


From 7a56692524f47c4915dc7493267456988fd08f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 21/27] fix: newton does not emit an empty warning when it does
 not converge

---
 nbkode/nbcompat/zeros.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index e6b981a..22bb7e4 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -261,7 +261,8 @@ def newton(
                 )
             raise RuntimeError(msg)
 
-        warnings.warn(msg, RuntimeWarning)
+        if my_flag is not NewtonEnum.NOT_CONVERGED:
+            warnings.warn(msg, RuntimeWarning)
 
     return zeros._results_select(full_output, r)
 
-- 
2.43.0


From c49b1ac1eb93a686a7e63060bbabd96bc40e4002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:07 +0000
Subject: [PATCH 22/27] fix: newton reports that the secant method did not
 converge

---
 nbkode/nbcompat/zeros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/nbcompat/zeros.py b/nbkode/nbcompat/zeros.py
index 22bb7e4..b44e413 100644
--- a/nbkode/nbcompat/zeros.py
+++ b/nbkode/nbcompat/zeros.py
@@ -370,7 +370,7 @@ def _newton(
                     # warnings.warn(msg, RuntimeWarning)
                 p = (p1 + p0) / 2.0
                 return (
-                    _results_select(full_output, (p, funcalls, itr + 1, _ECONVERGED)),
+                    _results_select(full_output, (p, funcalls, itr + 1, _ECONVERR)),
                     my_flag,
                 )
             else:
-- 
2.43.0


From 1dc802c7045a264e73a5bba50c135af145654378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:36 +0000
Subject: [PATCH 23/27] fix: steps of adaptive Runge-Kutta methods that are not
 FSAL take no bound

---
 nbkode/runge_kutta/core.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/nbkode/runge_kutta/core.py b/nbkode/runge_kutta/core.py
index 707d34a..c83b4a3 100644
--- a/nbkode/runge_kutta/core.py
+++ b/nbkode/runge_kutta/core.py
@@ -118,10 +118,7 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
         step_update = cls._step_update
 
         @numba.njit
-        def _step(t_bound, rhs, cache, h, K, options):
-            if cache.t + h > t_bound:
-                return False
-
+        def _step(rhs, cache, h, K, options):
             while True:
                 t, y = fixed_step(rhs, cache, h, K)
                 if not t > cache.t:
@@ -132,8 +129,6 @@ class AdaptiveRungeKutta(VariableStep, RungeKutta, abstract=True):
                     cache.push(t, y, rhs(t, y))
                     break
 
-            return True
-
         return _step
 
     @property
-- 
2.43.0


From deec5c6545dc5b1ffbdd4807523defcbd0ba2520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:57 +0000
Subject: [PATCH 24/27] fix: a refused solver definition is not left in the
 catalogue

---
 nbkode/core.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 6cc118e..58d0ffb 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -158,16 +158,15 @@ class Solver(ABC, metaclass=MetaSolver):
                     f"LEN_HISTORY cannot be smaller than 1"
                 )
 
+            names = CaseInsensitiveDict()
             for name_or_alias in (cls.__name__,) + cls.ALIASES:
-                if name_or_alias in cls.SOLVERS:
-                    raise Exception(
-                        f"Duplicate name/alias {cls.__name__} in {cls} "
-                        f"collides with {cls.SOLVERS[name_or_alias]}"
-                    )
-                cls.SOLVERS[name_or_alias] = cls
-            if cls.GROUP not in cls.SOLVERS_BY_GROUP:
-                cls.SOLVERS_BY_GROUP[cls.GROUP] = []
-            cls.SOLVERS_BY_GROUP[cls.GROUP].append(cls)
+                for taken in (cls.SOLVERS, names):
+                    if name_or_alias in taken:
+                        raise Exception(
+                            f"Duplicate name/alias {cls.__name__} in {cls} "
+                            f"collides with {taken[name_or_alias]}"
+                        )
+                names[name_or_alias] = cls
 
             cls._fixed_step = staticmethod(cls._fixed_step_builder())
 
@@ -183,6 +182,12 @@ class Solver(ABC, metaclass=MetaSolver):
 
             cls._step = staticmethod(_step)
 
+            # Only complete definitions are registered.
+            cls.SOLVERS.update(names)
+            if cls.GROUP not in cls.SOLVERS_BY_GROUP:
+                cls.SOLVERS_BY_GROUP[cls.GROUP] = []
+            cls.SOLVERS_BY_GROUP[cls.GROUP].append(cls)
+
     @classmethod
     @abstractmethod
     def _fixed_step_builder(cls):
-- 
2.43.0


From 2db6e66995f5f3e422a76cab2e29623950bcf5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:08 +0000
Subject: [PATCH 25/27] fix: a relative tolerance that is too small is raised
 as the warning says

---
 nbkode/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nbkode/core.py b/nbkode/core.py
index 58d0ffb..67ed5ff 100644
--- a/nbkode/core.py
+++ b/nbkode/core.py
@@ -715,7 +715,9 @@ class VariableStep:
         h = kwargs.pop("first_step", None)
         super().__init__(*args, **kwargs)
         validate_max_step(self.options.max_step)
-        validate_tol(self.options.rtol, self.options.atol, self.y.size)
+        self.options.rtol, _ = validate_tol(
+            self.options.rtol, self.options.atol, self.y.size
+        )
         if h is None:
             h = select_initial_step(
                 self.rhs,
-- 
2.43.0


From fd6ce1245dadbf45e28e1b97bd6fbca100225b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:21 +0000
Subject: [PATCH 26/27] fix: a multistep method whose Bn is a NumPy number is
 found by get_solvers

IMPLICIT was then a NumPy bool, which is neither True nor False: the method
was left out of the implicit and of the explicit solvers.
---
 nbkode/multistep/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 8a28f77..2d75863 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -28,7 +28,7 @@ class Multistep(Solver, abstract=True):
 
     @classproperty
     def IMPLICIT(cls):
-        return cls.Bn != 0
+        return bool(cls.Bn != 0)
 
     @classproperty
     def LEN_HISTORY(cls):
-- 
2.43.0


From 2491e1ceece2d895f5519b9bf45b09a4f928b83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:07 +0000
Subject: [PATCH 27/27] fix: the start-up of a multistep method does not pass
 t_bound by rounding

---
 nbkode/multistep/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbkode/multistep/core.py b/nbkode/multistep/core.py
index 2d75863..d124bcc 100644
--- a/nbkode/multistep/core.py
+++ b/nbkode/multistep/core.py
@@ -63,6 +63,8 @@ class Multistep(Solver, abstract=True):
         if first_stepper_cls.FIXED_STEP and solver.t == self.t:
             for _ in range(self.ORDER - 1):
                 solver.step()
+                # Rounding might take the last step beyond t_bound.
+                self._check_time(solver.t)
                 self.cache.push(solver.t, solver.y, solver.f)
         else:
             # For variable step solver we run N times until h, 2h, 3h .. (ORDER - 1)h
-- 
2.43.0

