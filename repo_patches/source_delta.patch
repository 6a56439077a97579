From 050c4eb03b258e0797cd78709ec3ade070981830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 001/158] fix: key the unit division cache by units instead of
 object ids

---
 gpkit/units.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/units.py b/gpkit/units.py
index 39c3f18..59cb6c7 100644
--- a/gpkit/units.py
+++ b/gpkit/units.py
@@ -34,7 +34,9 @@ class GPkitUnits:
         "Cached unit division. Requires Quantity inputs."
         if numerator.units is denominator.units:
             return 1
-        key = (id(numerator.units), id(denominator.units))
+        # units themselves, because an id can be reused by another object
+        key = tuple(getattr(q.units, "units", None)
+                    for q in (numerator, denominator))
         try:
             return self.division_cache[key]
         except KeyError:
-- 
2.43.0


From a669c585bfe9d1d04e96e74f8fc7fcdd17853566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 002/158] fix: signomials to the power of zero, and the
 exponent they print

---
 gpkit/nomials/math.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index d9142b1..12c5b08 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -236,10 +236,9 @@ class Signomial(Nomial):
 
     def __pow__(self, expo):
         if isinstance(expo, int) and expo >= 0:
-            p = 1
-            while expo > 0:
+            p = Signomial(1)
+            for _ in range(expo):
                 p *= self
-                expo -= 1
             p.ast = ("pow", (self, expo))
             return p
         return NotImplemented
-- 
2.43.0


From f638d3fe22b0369acba9c0e2923dda116a17d0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 003/158] fix: adding an expression whose terms have all
 cancelled

---
 gpkit/nomials/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 12c5b08..6a1f784 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -183,7 +183,7 @@ class Signomial(Nomial):
                 return Signomial(self.hmap)
             other_hmap = NomialMap({EMPTY_HV: mag(other)})
             other_hmap.units_of_product(other)
-        if other_hmap:
+        if other_hmap is not None:
             astorder = (self, other)
             if rev:
                 astorder = tuple(reversed(astorder))
-- 
2.43.0


From 5b1ea6c68d2e1552838c1f162494698579b83304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 004/158] fix: dividing by a numpy integer

---
 gpkit/nomials/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 6a1f784..0c537e8 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -227,7 +227,7 @@ class Signomial(Nomial):
     def __truediv__(self, other):
         "Support the / operator in Python 2.x"
         if isinstance(other, Numbers):
-            out = self*other**-1
+            out = self*(1/other)
             out.ast = ("div", (self, other))
             return out
         if isinstance(other, Monomial):
-- 
2.43.0


From 258fb2468745ef9829d618dc90d1b009d8a23998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 005/158] fix: raising a monomial to a numpy integer

---
 gpkit/nomials/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 0c537e8..1c669f2 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -319,6 +319,8 @@ class Monomial(Posynomial):
 
     def __pow__(self, expo):
         if isinstance(expo, Numbers):
+            if isinstance(expo, np.integer):
+                expo = int(expo)
             (exp, c), = self.hmap.items()
             exp = exp*expo if expo else EMPTY_HV
             hmap = NomialMap({exp: c**expo})
-- 
2.43.0


From f4fa609a2544e322f905fd467c473877a3e74f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 006/158] fix: dividing zero by a monomial

---
 gpkit/nomials/math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 1c669f2..1bb3b95 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -313,7 +313,8 @@ class Monomial(Posynomial):
         "Divide other by this Monomial"
         if isinstance(other, Numbers + (Signomial,)):
             out = other * self**-1
-            out.ast = ("div", (other, self))
+            if isinstance(out, Signomial):  # zero over anything is just zero
+                out.ast = ("div", (other, self))
             return out
         return NotImplemented
 
-- 
2.43.0


From 752f7af9a0e21cca32219fe70b3214b5c9effec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 007/158] fix: attribute cost sensitivities to the cost's own
 monomials

---
 gpkit/constraints/gp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 06ed88b..fcfdecb 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -69,6 +69,7 @@ class GeometricProgram:
     >>> gp.solve()
     """
     _result = solve_log = solver_out = model = v_ss = nu_by_posy = None
+    cost_pmap = None
 
     def __init__(self, cost, constraints, substitutions, *, checkbounds=True):
         self.cost, self.substitutions = cost, substitutions
@@ -84,6 +85,7 @@ class GeometricProgram:
         cost_hmap = cost.hmap.sub(self.substitutions, cost.vks)
         if any(c <= 0 for c in cost_hmap.values()):
             raise InvalidPosynomial("a GP's cost must be Posynomial")
+        self.cost_pmap = cost_hmap.mmap(cost.hmap)
         hmapgen = ConstraintSet.as_hmapslt1(constraints, self.substitutions)
         self.hmaps = [cost_hmap] + list(hmapgen)
         self.gen()  # Generate various maps into the posy- and monomials
@@ -304,7 +306,12 @@ class GeometricProgram:
         result["variables"].update(result["constants"])
         result["sensitivities"] = {"constraints": {}}
         la, self.nu_by_posy = self._generate_nula(solver_out)
-        cost_senss = sum(nu_i*exp for (nu_i, exp) in zip(self.nu_by_posy[0],
+        # substitution may have merged or reordered the cost's monomials
+        cost_nu = np.zeros(len(self.cost.hmap))
+        for nu_i, mmap in zip(self.nu_by_posy[0], self.cost_pmap):
+            for idx, percentage in mmap.items():
+                cost_nu[idx] += percentage*nu_i
+        cost_senss = sum(nu_i*exp for (nu_i, exp) in zip(cost_nu,
                                                          self.cost.hmap))
         gpv_ss = cost_senss.copy()
         m_senss = defaultdict(float)
-- 
2.43.0


From a0813c37eba877ec804a04d2b7f1e511e7fe4562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 008/158] fix: linked sensitivities of a constant also in the
 cost

---
 gpkit/constraints/gp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index fcfdecb..6334af3 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -332,6 +332,7 @@ class GeometricProgram:
         # carry linked sensitivities over to their constants
         for v in list(v for v in gpv_ss if v.gradients):
             dlogcost_dlogv = gpv_ss.pop(v)
+            via_cost = cost_senss.get(v, None)
             val = np.array(result["constants"][v])
             for c, dv_dc in v.gradients.items():
                 with warnings.catch_warnings():  # skip pesky divide-by-zeros
@@ -339,11 +340,10 @@ class GeometricProgram:
                     dlogv_dlogc = dv_dc * result["constants"][c]/val
                     before = gpv_ss.get(c, 0)
                     gpv_ss[c] = before + dlogcost_dlogv*dlogv_dlogc
-                if v in cost_senss:
-                    if c in self.cost.vks:
-                        dlogcost_dlogv = cost_senss.pop(v)
-                        before = cost_senss.get(c, 0)
-                        cost_senss[c] = before + dlogcost_dlogv*dlogv_dlogc
+                if via_cost is not None and c in self.cost.vks:
+                    cost_senss.pop(v, None)
+                    before = cost_senss.get(c, 0)
+                    cost_senss[c] = before + via_cost*dlogv_dlogc
         result["sensitivities"]["cost"] = cost_senss
         result["sensitivities"]["variables"] = KeyDict(gpv_ss)
         result["sensitivities"]["constants"] = \
-- 
2.43.0


From 264367f1f97533203fd3a11198a3f7cedb969b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 009/158] fix: constraints losing terms when dividing by their
 greater side

---
 gpkit/nomials/math.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 1bb3b95..ccc16cb 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -459,9 +459,8 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
         except ValueError:
             raise TypeError("greater-than side '%s' is not monomial." % m_gt)
         m_c *= units.of_division(m_gt, p_lt)
-        hmap = p_lt.hmap.copy()
-        for exp in list(hmap):
-            hmap[exp-m_exp] = hmap.pop(exp)/m_c
+        # a new map, as a shifted exponent may equal one not yet shifted
+        hmap = NomialMap({exp-m_exp: c/m_c for exp, c in p_lt.hmap.items()})
         hmap = self._simplify_posy_ineq(hmap)
         return [Posynomial(hmap)] if hmap else []
 
-- 
2.43.0


From ded851275b8ed9c5638270cd8e5c487fc769e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 010/158] fix: comparing multiples of a monomial is False, not
 an error

---
 gpkit/nomials/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index ccc16cb..4950877 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -338,7 +338,7 @@ class Monomial(Posynomial):
         if isinstance(other, MONS):
             try:  # if both are monomials, return a constraint
                 return MonomialEquality(self, other)
-            except (DimensionalityError, ValueError) as e:
+            except (DimensionalityError, ValueError, PrimalInfeasible) as e:
                 print("Infeasible monomial equality: %s" % e)
                 return False
         return super().__eq__(other)
-- 
2.43.0


From 2b3ee31a1d60b5e21a77e79c89d61494a2066ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 011/158] fix: array sums keeping a zero constant term

---
 gpkit/nomials/array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index b276f5a..5e9fd9d 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -164,6 +164,8 @@ class NomialArray(ReprMixin, np.ndarray):
                 elif hmap.units and p and not np.isnan(p):
                     p /= float(hmap.units)
                 hmap[EMPTY_HV] = p + hmap.get(EMPTY_HV, 0)
+        if len(hmap) > 1 and hmap.get(EMPTY_HV) == 0:
+            del hmap[EMPTY_HV]  # numbers which cancelled
         out = Signomial(hmap)
         out.ast = ("sum", (self, None))
         return out
-- 
2.43.0


From eed8837ab5d68a2d1f793f2175e8fc6a8b66ff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:36 +0000
Subject: [PATCH 012/158] fix: unit conversion of derivatives whose units
 cancel

---
 gpkit/nomials/map.py  | 5 +++--
 gpkit/nomials/math.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 5c05a6a..1d6d565 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -66,8 +66,6 @@ class NomialMap(HashVector):
     def diff(self, varkey):
         "Differentiates a NomialMap with respect to a varkey"
         out = NomialMap()
-        out.units_of_product(self.units,
-                             1/varkey.units if varkey.units else None)
         for exp in self:
             if varkey in exp:
                 x = exp[varkey]
@@ -80,6 +78,9 @@ class NomialMap(HashVector):
                     exp.hashvalue ^= hash((varkey, x)) ^ hash((varkey, x-1))
                     exp[varkey] = x-1
                 out[exp] = c
+        # set after the terms are, as this may convert their coefficients
+        out.units_of_product(self.units,
+                             1/varkey.units if varkey.units else None)
         return out
 
     def sub(self, substitutions, varkeys, parsedsubs=False):
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 4950877..4a57c5a 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -120,10 +120,11 @@ class Signomial(Nomial):
                              " into %s" % (psub, x0, self))
         c0, = psub.values()
         c, exp = c0, HashVector()
+        unitless = self.hmap.copy()  # so that derivatives aren't converted
         for vk in self.vks:
             val = float(x0[vk])
-            diff, = self.hmap.diff(vk).sub(x0, self.vks,
-                                           parsedsubs=True).values()
+            diff, = unitless.diff(vk).sub(x0, self.vks,
+                                          parsedsubs=True).values()
             e = val*diff/c0
             if e:
                 exp[vk] = e
-- 
2.43.0


From 4903d85fcacb32112a1acafe7310e2143dcfd8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 013/158] fix: unsatisfiable constraints whose constants fill
 the greater side

---
 gpkit/nomials/math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 4a57c5a..2483069 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -432,7 +432,8 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
             self.const_coeff = coeff  # pylint: disable=attribute-defined-outside-init
         if coeff >= -self.feastol and len(hmap) == 1:
             return None   # a tautological monomial!
-        if coeff < -self.feastol:
+        if coeff < -self.feastol or (coeff <= 0
+                                     and all(c > 0 for c in hmap.values())):
             msg = "'%s' is infeasible by %.2g%%" % (self, -coeff*100)
             if fixed:
                 msg += " after substituting %s." % fixed
-- 
2.43.0


From 3cdad462f6339e3f7d609ed1b1e38ccafc850723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 014/158] fix: constraints that substitution reduces to zero <=
 constant

---
 gpkit/nomials/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 1d6d565..b63ca87 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -157,8 +157,8 @@ class NomialMap(HashVector):
         origexps = list(orig.keys())
         selfexps = list(self.keys())
         for orig_exp, self_exp in self.expmap.items():
-            if self_exp not in self:  # can occur in tautological constraints
-                continue              #     after substitution
+            if not self.get(self_exp):  # can occur in tautological constraints
+                continue                #     after substitution
             fraction = self.csmap.get(orig_exp, orig[orig_exp])/self[self_exp]
             orig_idx = origexps.index(orig_exp)
             pmap[selfexps.index(self_exp)][orig_idx] = fraction
-- 
2.43.0


From cda565a39fc9ec16337f5436e275a1a6259d58c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 015/158] fix: double-counted sensitivities of signomial
 constraints made geometric

---
 gpkit/nomials/math.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 2483069..eed529b 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -616,8 +616,7 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         self._negysig = Signomial(negy_hmap, require_positive=False)
         self._coeffsigs = {exp: Signomial(hmap, require_positive=False)
                            for exp, hmap in posy_hmaps.items()}
-        self._sigvars = {exp: (list(self._negysig.vks)
-                               + list(sig.vks))
+        self._sigvars = {exp: self._negysig.vks.union(sig.vks)
                          for exp, sig in self._coeffsigs.items()}
         return p_ineq.as_hmapslt1(substitutions)
 
-- 
2.43.0


From dd2e4ee2948b7f4a1446e2c9460504335c4ae685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 016/158] fix: sensitivities of constraints containing constant
 terms

---
 gpkit/nomials/math.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index eed529b..3277c78 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -404,6 +404,7 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
     """
     feastol = 1e-3
     # NOTE: follows .check_result's max default, but 1e-3 seems a bit lax...
+    unsubbed_scale = 1.0  # from constant terms moved at initialization
 
     def __init__(self, left, oper, right):
         ScalarSingleEquationConstraint.__init__(self, left, oper, right)
@@ -438,6 +439,8 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
             if fixed:
                 msg += " after substituting %s." % fixed
             raise PrimalInfeasible(msg)
+        if pmap is None:
+            self.unsubbed_scale = 1/coeff
         scaled = hmap/coeff
         scaled.units = hmap.units
         del scaled[EMPTY_HV]
@@ -496,8 +499,10 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
                 scale = (1-self.const_coeff)/self.const_coeff
                 for idx, percentage in self.const_mmap.items():
                     nu_[idx] += percentage * la*scale
+                la = la + la*scale  # of the whole constraint, with constants
                 del self.const_mmap  # not needed after dual has been derived
             nu = nu_
+        la = la*self.unsubbed_scale
         self.v_ss = HashVector()
         if self.parent:
             self.parent.v_ss = self.v_ss
-- 
2.43.0


From c12afacb0477a79f240d570910df61cf46500d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 017/158] fix: sensitivities of terms merged early in a longer
 substitution

---
 gpkit/nomials/map.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index b63ca87..47ffd93 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -190,3 +190,4 @@ def subinplace(cp, exp, o_exp, vk, cval, squished):
     elif exp in squished:
         exp.hashvalue ^= hash((vk, x))  # remove (key, value) from hashvalue
         del exp[vk]
+        squished.add(exp.copy())  # it may have further substitutions
-- 
2.43.0


From d5b14eb3facf855e4f2b5595f29fb6a86fefc539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 018/158] fix: deleting from a KeyDict damaged its copies and
 lost remaining elements

---
 gpkit/keydict.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index bc86f5d..4492110 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -250,20 +250,21 @@ class KeyDict(KeyMap, dict):
         "Overloads del [] to work with all keys"
         if not hasattr(key, "key"):  # not a keyed object
             self.update_keymap()
-            keys = self.keymap[key]
+            keys = self.keymap.get(key)  # without adding a blank entry
             if not keys:
                 raise KeyError(key)
-            for k in keys:
+            for k in list(keys):
                 del self[k]
         else:
-            key = key.key
-            veckey, idx = self.parse_and_index(key)
-            if idx is None:
-                super().__delitem__(key)
-            else:
-                super().__getitem__(veckey)[idx] = np.nan
-                if isnan(super().__getitem__(veckey)).all():
-                    super().__delitem__(veckey)
+            self.update_keymap()
+            key, idx = self.parse_and_index(key)
+            if idx is not None:
+                self._copyonwrite(key)
+                value = super().__getitem__(key)
+                value[idx] = np.nan
+                if not np.all(isnan(value)):
+                    return  # other elements of the vector remain
+            super().__delitem__(key)
             copiedonwrite = set()  # to save time, .update() does not copy
             mapkeys = set([key])
             if key.keys:
-- 
2.43.0


From 13766225bcdb0877914e7451dbac184b0f5fd7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 019/158] fix: KeyDicts kept single-precision and aliased
 copies of array values

---
 gpkit/keydict.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 4492110..e34cfd7 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -151,6 +151,7 @@ class KeyDict(KeyMap, dict):
             super().update(args[0])
             self.keymap.update(args[0].keymap)
             self._unmapped_keys.update(args[0]._unmapped_keys)  # pylint:disable=protected-access
+            args[0].owned = set()  # arrays are now shared: either copies on write
         else:
             for k, v in dict(*args, **kwargs).items():
                 self[k] = v
@@ -225,13 +226,14 @@ class KeyDict(KeyMap, dict):
             return  # successfully set a single index!
         if key.shape: # now if we're setting an array...
             if getattr(value, "shape", None):   # is the value an array?
-                if value.dtype == INT_DTYPE:
-                    value = np.array(value, "f")  # convert to float
+                isnumeric = value.dtype.kind in "biuf"  # convert to float
+                value = np.array(value, float if isnumeric else value.dtype)
                 if dict.__contains__(self, key):
                     old = super().__getitem__(key)
                     if old.dtype != value.dtype:
                         # e.g. replacing a number with a linked function
-                        newly_typed_array = np.array(old, dtype=value.dtype)
+                        dtype = np.result_type(old.dtype, value.dtype)
+                        newly_typed_array = np.array(old, dtype=dtype)
                         super().__setitem__(key, newly_typed_array)
                         self.owned.add(key)
                     self._copyonwrite(key)
@@ -240,7 +242,7 @@ class KeyDict(KeyMap, dict):
                     return  # successfully set only some indexes!
             elif not is_sweepvar(value): # or needs to be made one?
                 if not hasattr(value, "__len__"):
-                    value = np.full(key.shape, value, "f")
+                    value = np.full(key.shape, value, float)
                 elif not isinstance(value[0], np.ndarray):
                     value = np.array([clean_value(key, v) for v in value])
         super().__setitem__(key, value)
-- 
2.43.0


From f8ef90da7cc94a3dfab6845e7eaadc46c7e6a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 020/158] fix: failed KeySet lookups left blank entries behind

---
 gpkit/keydict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index e34cfd7..0b49717 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -296,4 +296,4 @@ class KeySet(KeyMap, set):
     def __getitem__(self, key):
         "Gets the keys corresponding to a particular key."
         key, _ = self.parse_and_index(key)
-        return self.keymap[key]
+        return self.keymap[key] if key in self.keymap else set()
-- 
2.43.0


From 399f696fc868fb0441826a49685a5d7a62a3f0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 021/158] fix: arrays containing sweeps could not be checked
 for nans

---
 gpkit/small_scripts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index 3d282d2..b42a86b 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -17,7 +17,7 @@ def isnan(element):
     "Determine if something of arbitrary type is a numpy nan."
     try:
         return np.isnan(element)
-    except TypeError:
+    except (TypeError, ValueError):  # e.g. a function or a sweep tuple
         return False
 
 
-- 
2.43.0


From b95142c6b54808f61e33a2fc1ee744516f357587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 022/158] fix: solver options of one solve leaked into all
 later ones

---
 gpkit/constraints/gp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 6334af3..84228d9 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -191,8 +191,7 @@ class GeometricProgram:
             print(" for %i free variables" % len(self.varlocs))
             print("  in %i posynomial inequalities." % len(self.k))
 
-        solverargs = DEFAULT_SOLVER_KWARGS.get(solvername, {})
-        solverargs.update(kwargs)
+        solverargs = {**DEFAULT_SOLVER_KWARGS.get(solvername, {}), **kwargs}
         starttime = time()
         solver_out, infeasibility, original_stdout = {}, None, sys.stdout
         try:
-- 
2.43.0


From 46af9f1b6d73c6f32cd8828aa14153b1259a767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 023/158] fix: stdout was not restored after a solver which
 replaced it

---
 gpkit/constraints/gp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 84228d9..4a9c3cb 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -195,7 +195,8 @@ class GeometricProgram:
         starttime = time()
         solver_out, infeasibility, original_stdout = {}, None, sys.stdout
         try:
-            sys.stdout = SolverLog(original_stdout, verbosity=verbosity-2)
+            log = SolverLog(original_stdout, verbosity=verbosity-2)
+            sys.stdout = log
             solver_out = solverfn(c=self.cs, A=self.A, meq_idxs=self.meq_idxs,
                                   k=self.k, p_idxs=self.p_idxs, **solverargs)
         except Infeasible as e:
@@ -206,8 +207,8 @@ class GeometricProgram:
         except Exception as e:
             raise UnknownInfeasible("Something unexpected went wrong.") from e
         finally:
-            self.solve_log = "\n".join(sys.stdout)
             sys.stdout = original_stdout
+            self.solve_log = "\n".join(log)
             self.solver_out = solver_out
 
         solver_out["solver"] = solvername
-- 
2.43.0


From d735e35724ee7cecd36ce857a65a418f6e97c86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 024/158] fix: verbose solves of infeasible models crashed
 instead of raising Infeasible

---
 gpkit/constraints/gp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 4a9c3cb..1846d7f 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -225,11 +225,15 @@ class GeometricProgram:
                        " bounding the right variables would prevent this.")
             elif isinstance(infeasibility, UnknownInfeasible):
                 msg = "The solver failed for an unknown reason."
+            else:
+                msg = "The model had no solution."
             if (verbosity > 0 and solver_out["soltime"] < 1
-                    and hasattr(self, "model")):  # fast, top-level model
+                    and self.model is not None):  # fast, top-level model
                 print(msg + "\nSince the model solved in less than a second,"
                       " let's run `.debug()` to analyze what happened.\n`")
-                return self.model.debug(solver=solver)
+                debugsol = self.model.debug(solver=solver)
+                if debugsol is not None:
+                    return debugsol
             # else, raise a clarifying error
             msg += (" Running `.debug()` may pinpoint the trouble. You can"
                     " also try another solver, or increase the verbosity.")
-- 
2.43.0


From 6b396a63c5ca197bc07870e15262985b00afe3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 025/158] fix: failed points of verbose sweeps were replaced by
 debug solutions

---
 gpkit/constraints/prog_factories.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 3468b0c..d538ce4 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -142,6 +142,7 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
             evaluate_linked(constants, linked)
         program, solvefn = genfunction(self, constants)
         self.program.append(program)  # NOTE: SIDE EFFECTS
+        program.model = None  # a failed point is not replaced by a debug
         try:
             result = solvefn(solver, verbosity=verbosity-1, **solveargs)
             if solveargs.get("process_result", True):
-- 
2.43.0


From bdaaa5ea94a1170b33fd65353473ebc1a11817ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 026/158] fix: solution check let constraints evaluating to nan
 pass

---
 gpkit/constraints/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 1846d7f..099919d 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -385,7 +385,7 @@ class GeometricProgram:
                              " solver-returned cost: %s vs %s." %
                              (primal_exp_vals[self.m_idxs[0]].sum(), cost))
         for mi in self.m_idxs[1:]:
-            if primal_exp_vals[mi].sum() > 1 + tol:
+            if not primal_exp_vals[mi].sum() <= 1 + tol:  # also catches nan
                 raise Infeasible("Primal solution violates constraint: %s is "
                                  "greater than 1" % primal_exp_vals[mi].sum())
         # check dual sol #
-- 
2.43.0


From f653ae2981b4bce35f6dfea084602cd37873f325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 027/158] fix: debug crashed for models without constants

---
 gpkit/constraints/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 06e5240..5dc4d04 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -173,7 +173,7 @@ class Model(CostedConstraintSet):
         solveargs["verbosity"] = verbosity - 1
         solveargs["process_result"] = False
 
-        bounded = Bounded(self)
+        bounded, tants = Bounded(self), None
         if self.substitutions:
             tants = ConstantsRelaxed(bounded)
             feas = Model(tants.relaxvars.prod()**30 * self.cost, tants)
@@ -187,7 +187,8 @@ class Model(CostedConstraintSet):
                 sol = feas.sp(use_pccp=False).localsolve(**solveargs)
             # limited results processing
             bounded.check_boundaries(sol)
-            tants.check_relaxed(sol)
+            if tants is not None:
+                tants.check_relaxed(sol)
         except Infeasible:
             if verbosity:
                 print("<DEBUG> Model is not feasible with relaxed constants"
-- 
2.43.0


From f21160da4a95a84ed66bab8f3af06eac72422978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 028/158] fix: ConstraintsRelaxed failed for nested or vector
 constraints

---
 gpkit/constraints/relax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 5014723..1c73168 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -80,15 +80,15 @@ class ConstraintsRelaxed(ConstraintSet):
     def __init__(self, original_constraints):
         if not isinstance(original_constraints, ConstraintSet):
             original_constraints = ConstraintSet(original_constraints)
-        self.original_constraints = original_constraints
         original_substitutions = original_constraints.substitutions
+        self.original_constraints = list(original_constraints.flat())
         with NamedVariables("Relax"):
-            self.relaxvars = VectorVariable(len(original_constraints), "C")
+            self.relaxvars = VectorVariable(len(self.original_constraints), "C")
 
         with SignomialsEnabled():
             relaxed_constraints = [
                 c.relaxed(self.relaxvars[i])
-                for i, c in enumerate(original_constraints.flat())]
+                for i, c in enumerate(self.original_constraints)]
 
         ConstraintSet.__init__(self, {
             "minimum relaxation": self.relaxvars >= 1,
-- 
2.43.0


From 7ec398a251520bc3e6ef77d60d31d8eb61007420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 029/158] fix: debug crashed when all constants were unused or
 zero

---
 gpkit/constraints/model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 5dc4d04..75a9ae8 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -173,11 +173,12 @@ class Model(CostedConstraintSet):
         solveargs["verbosity"] = verbosity - 1
         solveargs["process_result"] = False
 
-        bounded, tants = Bounded(self), None
-        if self.substitutions:
-            tants = ConstantsRelaxed(bounded)
+        bounded = Bounded(self)
+        tants = ConstantsRelaxed(bounded) if self.substitutions else None
+        if tants is not None and tants.relaxvars.size:
             feas = Model(tants.relaxvars.prod()**30 * self.cost, tants)
-        else:
+        else:  # there are no constants to relax
+            tants = None
             feas = Model(self.cost, bounded)
 
         try:
-- 
2.43.0


From 9cb817f4cf1cae0f9da510ef50ad70ee5cf7950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 030/158] fix: sensitivities depended on other programs made
 from the constraints

---
 gpkit/constraints/gp.py |  5 ++++-
 gpkit/nomials/math.py   | 21 ++++++++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 099919d..3a6354f 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -319,9 +319,12 @@ class GeometricProgram:
                                                          self.cost.hmap))
         gpv_ss = cost_senss.copy()
         m_senss = defaultdict(float)
-        for las, nus, c in zip(la[1:], self.nu_by_posy[1:], self.hmaps[1:]):
+        for las, nus, hmap in zip(la[1:], self.nu_by_posy[1:], self.hmaps[1:]):
+            c = hmap
             while getattr(c, "parent", None) is not None:
                 c = c.parent
+            # c may since have been translated again, for another program
+            vars(c).update(getattr(hmap, "dualstate", {}))
             v_ss, c_senss = c.sens_from_dual(las, nus, result)
             for vk, x in v_ss.items():
                 gpv_ss[vk] = x + gpv_ss.get(vk, 0)
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 3277c78..04c42db 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -475,7 +475,9 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
         for posy in self.unsubbed:
             fixed, _, _ = parse_subs(posy.vks, substitutions, clean=True)
             hmap = posy.hmap.sub(fixed, posy.vks, parsedsubs=True)
-            self.pmap = hmap.mmap(posy.hmap)  # pylint: disable=attribute-defined-outside-init
+            # pylint: disable=attribute-defined-outside-init
+            self.pmap, self.const_mmap, self.const_coeff = \
+                hmap.mmap(posy.hmap), None, None
             del hmap.expmap, hmap.csmap  # needed only for the mmap call above
             hmap = self._simplify_posy_ineq(hmap, self.pmap, fixed)
             if hmap is not None:
@@ -483,6 +485,9 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
                     raise InvalidGPConstraint("'%s' became Signomial after sub"
                                               "stituting %s" % (self, fixed))
                 hmap.parent = self
+                hmap.dualstate = {"pmap": self.pmap,
+                                  "const_mmap": self.const_mmap,
+                                  "const_coeff": self.const_coeff}
                 out.append(hmap)
         return out
 
@@ -495,12 +500,11 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
                 for idx, percentage in mmap.items():
                     nu_[idx] += percentage*nu[i]
             del self.pmap  # not needed after dual has been derived
-            if hasattr(self, "const_mmap"):
+            if self.const_mmap is not None:
                 scale = (1-self.const_coeff)/self.const_coeff
                 for idx, percentage in self.const_mmap.items():
                     nu_[idx] += percentage * la*scale
                 la = la + la*scale  # of the whole constraint, with constants
-                del self.const_mmap  # not needed after dual has been derived
             nu = nu_
         la = la*self.unsubbed_scale
         self.v_ss = HashVector()
@@ -548,6 +552,8 @@ class MonomialEquality(PosynomialInequality):
         out = super().as_hmapslt1(substitutions)
         for h in out:
             h.from_meq = True  # pylint: disable=attribute-defined-outside-init
+        if out:  # begin again at the first of these
+            out[0].dualstate["_las"] = []
         return out
 
     def __bool__(self):
@@ -557,7 +563,7 @@ class MonomialEquality(PosynomialInequality):
 
     def sens_from_dual(self, la, nu, _):
         "Returns the variable/constraint sensitivities from lambda/nu"
-        self._las.append(la)
+        self._las = self._las + [la]
         if len(self._las) == 1:
             return {}, 0
         la = self._las[0] - self._las[1]
@@ -623,7 +629,12 @@ class SignomialInequality(ScalarSingleEquationConstraint):
                            for exp, hmap in posy_hmaps.items()}
         self._sigvars = {exp: self._negysig.vks.union(sig.vks)
                          for exp, sig in self._coeffsigs.items()}
-        return p_ineq.as_hmapslt1(substitutions)
+        hmaps = p_ineq.as_hmapslt1(substitutions)
+        for hmap in hmaps:
+            hmap.dualstate = {"_mons": self._mons, "_negysig": self._negysig,
+                              "_coeffsigs": self._coeffsigs,
+                              "_sigvars": self._sigvars}
+        return hmaps
 
     def sens_from_dual(self, la, nu, result):
         """ We want to do the following chain:
-- 
2.43.0


From 7b04c158b406b083d0a56b68a8849964f3c531ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 031/158] fix: sweep results whose points differ in their
 constraints or warnings

---
 gpkit/small_classes.py  | 30 ++++++++++++++++++++++++++----
 gpkit/solution_array.py |  2 ++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index b66d714..e74e9a3 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -90,7 +90,8 @@ class DictOfLists(dict):
             _enlist_dict(sol, self)
             self.initialized = True  # pylint: disable=attribute-defined-outside-init
         else:
-            _append_dict(sol, self)
+            _append_dict(sol, self, self._appended)
+        self._appended = getattr(self, "_appended", 0) + 1  # pylint: disable=attribute-defined-outside-init
 
     def atindex(self, i):
         "Indexes into each list independently."
@@ -112,16 +113,32 @@ def _enlist_dict(d_in, d_out):
     return d_out
 
 
-def _append_dict(d_in, d_out):
-    "Recursively travels dict d_out and appends items found in d_in."
+def _append_dict(d_in, d_out, n):
+    "Recursively travels dict d_out, holding n items, and appends those of d_in"
     for k, v in d_in.items():
         if isinstance(v, dict):
-            d_out[k] = _append_dict(v, d_out[k])
+            if k not in d_out:
+                d_out[k] = v.__class__()
+            _append_dict(v, d_out[k], n)
         else:
+            if k not in d_out:  # absent from the earlier items
+                d_out[k] = [_absent(v) for _ in range(n)]
             d_out[k].append(v)
+    for k in [k for k in d_out if k not in d_in]:  # absent from this item
+        if isinstance(d_out[k], dict):
+            _append_dict({}, d_out[k], n)
+        else:
+            d_out[k].append(_absent(d_out[k][-1]))
     return d_out
 
 
+def _absent(v):
+    "Stands in for the value of something (like v) that is absent"
+    if isinstance(v, (list, set)):
+        return v.__class__()
+    return np.full(np.shape(v), np.nan) if np.shape(v) else np.nan
+
+
 def _index_dict(idx, d_in, d_out):
     "Recursively travels dict d_in, placing items at idx into dict d_out."
     for k, v in d_in.items():
@@ -143,6 +160,11 @@ def _enray(d_in, d_out):
         else:
             if len(v) == 1:
                 v, = v
+            elif isinstance(v[0], (list, set)):  # may differ in length
+                v_out = np.empty(len(v), dtype=object)
+                for i, vi in enumerate(v):
+                    v_out[i] = vi
+                v = v_out
             else:
                 v = np.array(v)
             d_out[k] = v
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 8b59259..b08d31f 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -237,6 +237,8 @@ def warnings_table(self, _, **kwargs):
         if not hasattr(data_vec, "shape"):
             data_vec = [data_vec]
         for i, data in enumerate(data_vec):
+            if not len(data):
+                continue
             data = sorted(data, key=lambda l: l[0])  # sort by msg
             title = wtype
             if len(data_vec) > 1:
-- 
2.43.0


From f30c22682d68e54f6efc9aadc3968c4c8cb1b067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 032/158] fix: SolutionArray.atindex took an element of unswept
 vector constants

---
 gpkit/small_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index e74e9a3..6f15a3a 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -146,6 +146,8 @@ def _index_dict(idx, d_in, d_out):
             d_out[k] = _index_dict(idx, v, v.__class__())
         else:
             try:
+                if getattr(k, "shape", None) and np.shape(v) == k.shape:
+                    raise TypeError("this vector is the same at every index")
                 d_out[k] = v[idx]
             except (IndexError, TypeError):  # if not an array, return as is
                 d_out[k] = v
-- 
2.43.0


From d9c3e6f3aa83c70e8a19b7521b8fe4ebd4ebf103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 033/158] fix: Model.sweep lost zero and vector constants, and
 all on failure

---
 gpkit/constraints/model.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 75a9ae8..1aa6b34 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -140,13 +140,15 @@ class Model(CostedConstraintSet):
             original_val = self.substitutions.get(sweepvar, None)
             self.substitutions.update({sweepvar: ('sweep', sweepvals)})
             try:
-                sols.append(self.solve(**solveargs))
-            except InvalidGPConstraint:
-                sols.append(self.localsolve(**solveargs))
-            if original_val:
-                self.substitutions[sweepvar] = original_val
-            else:
-                del self.substitutions[sweepvar]
+                try:
+                    sols.append(self.solve(**solveargs))
+                except InvalidGPConstraint:
+                    sols.append(self.localsolve(**solveargs))
+            finally:
+                if original_val is not None:
+                    self.substitutions[sweepvar] = original_val
+                else:
+                    del self.substitutions[sweepvar]
         return sols if len(sols) > 1 else sols[0]
 
     def autosweep(self, sweeps, tol=0.01, samplepoints=100, **solveargs):
-- 
2.43.0


From 9e183d7c2d4d6b90be14a471c68bd0ac75b4faf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 034/158] fix: KeyDict entries that are sweeps of a vector
 could not be replaced

---
 gpkit/keydict.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 0b49717..2d72d02 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -142,7 +142,9 @@ class KeyDict(KeyMap, dict):
         if not hasattr(self, "owned"):  # backwards pickle compatibility
             self.owned = set()
         if key not in self.owned:
-            super().__setitem__(key, super().__getitem__(key).copy())
+            value = super().__getitem__(key)
+            if hasattr(value, "copy"):  # else it's a sweep
+                super().__setitem__(key, value.copy())
             self.owned.add(key)
 
     def update(self, *args, **kwargs):
@@ -228,7 +230,7 @@ class KeyDict(KeyMap, dict):
             if getattr(value, "shape", None):   # is the value an array?
                 isnumeric = value.dtype.kind in "biuf"  # convert to float
                 value = np.array(value, float if isnumeric else value.dtype)
-                if dict.__contains__(self, key):
+                if hasattr(dict.get(self, key), "dtype"):  # not a sweep
                     old = super().__getitem__(key)
                     if old.dtype != value.dtype:
                         # e.g. replacing a number with a linked function
-- 
2.43.0


From 6908b407edfc3e4b89a1c41c35ac3011152eafd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 035/158] fix: elements beside a swept one were swept too, even
 if free

---
 gpkit/nomials/substitution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index 4e26b9a..5c221b5 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -37,7 +37,9 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
     sweepsub, sweepval = splitsweep(sub)
     if sweepsub:  # if the whole key is swept
         sub = sweepval
+    wholesweep = sweepsub
     for key in keys:
+        sweepsub = wholesweep
         if not key.shape or not getattr(sub, "shape", hasattr(sub, "__len__")):
             value = sub
         else:
-- 
2.43.0


From 5cb0b8ff000a69efd43508616a7409e177b18b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 036/158] fix: units of swept quantities were ignored

---
 gpkit/constraints/prog_factories.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index d538ce4..b563069 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -4,7 +4,8 @@ import numpy as np
 from ad import adnumber
 from ..nomials import parse_subs
 from ..solution_array import SolutionArray
-from ..keydict import KeyDict
+from ..keydict import KeyDict, clean_value
+from ..small_classes import Numbers
 from ..small_scripts import maybe_flatten
 from ..exceptions import Infeasible
 
@@ -120,6 +121,10 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
     # sort sweeps by the eqstr of their varkey
     sweepvars, sweepvals = zip(*sorted(list(sweep.items()),
                                        key=lambda vkval: vkval[0].eqstr))
+    sweepvals = [[clean_value(var, v) for v in
+                  ([vals] if isinstance(vals, Numbers)
+                   and not getattr(vals, "shape", None) else vals)]
+                 for var, vals in zip(sweepvars, sweepvals)]
     if len(sweep) == 1:
         sweep_grids = np.array(list(sweepvals))
     else:
-- 
2.43.0


From ae0be9627b2c45bbe52576fb65d354e234261bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 037/158] fix: skipsweepfailures did not skip points with
 infeasible constants

---
 gpkit/constraints/prog_factories.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index b563069..c57ae22 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -145,10 +145,10 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
                           for (var, sweep_vect) in sweep_vects.items()})
         if linked:
             evaluate_linked(constants, linked)
-        program, solvefn = genfunction(self, constants)
-        self.program.append(program)  # NOTE: SIDE EFFECTS
-        program.model = None  # a failed point is not replaced by a debug
         try:
+            program, solvefn = genfunction(self, constants)
+            self.program.append(program)  # NOTE: SIDE EFFECTS
+            program.model = None  # a failed point is not replaced by a debug
             result = solvefn(solver, verbosity=verbosity-1, **solveargs)
             if solveargs.get("process_result", True):
                 self.process_result(result)
-- 
2.43.0


From d4ea474130b8ff8eb4cc026392dac90063ca5172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 038/158] fix: vector sweeps with elements of different lengths
 failed

---
 gpkit/nomials/substitution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index 5c221b5..0727429 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -47,7 +47,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
                 pywarnings.filterwarnings("error")
                 try:
                     sub = np.array(sub) if not hasattr(sub, "shape") else sub
-                except Warning:  # pragma: no cover  #TODO: coverage this
+                except (Warning, ValueError):
                     # ragged nested sequences, eg [[2]], [3, 4]], in py3.7+
                     sub = np.array(sub, dtype=object)
             if key.shape == sub.shape:
-- 
2.43.0


From 15c4ebd648bd79596fffb2700dd1e25fd31189fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:28 +0000
Subject: [PATCH 039/158] fix: vectors could not be given a list of values and
 sweeps

---
 gpkit/keydict.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 2d72d02..b9a0fd5 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -246,7 +246,13 @@ class KeyDict(KeyMap, dict):
                 if not hasattr(value, "__len__"):
                     value = np.full(key.shape, value, float)
                 elif not isinstance(value[0], np.ndarray):
-                    value = np.array([clean_value(key, v) for v in value])
+                    value = [clean_value(key, v) for v in value]
+                    if any(is_sweepvar(v) for v in value):
+                        sweeps, value = value, np.empty(key.shape, "object")
+                        for i, v in enumerate(sweeps):
+                            value[i] = v
+                    else:
+                        value = np.array(value)
         super().__setitem__(key, value)
         self.owned.add(key)
 
-- 
2.43.0


From 0a4c3a17c6478ac1b7a243c38ddd8596d722b184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 040/158] fix: sweeping vector elements over arrays raised
 ValueError

---
 gpkit/constraints/prog_factories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index c57ae22..2620b3f 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -163,9 +163,9 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
         raise RuntimeWarning("No sweeps solved successfully.") from last_error
 
     solution["sweepvariables"] = KeyDict()
-    ksweep = KeyDict(sweep)
+    sweptkeys = {var.veckey or var for var in sweep}
     for var, val in list(solution["constants"].items()):
-        if var in ksweep:
+        if var in sweptkeys:
             solution["sweepvariables"][var] = val
             del solution["constants"][var]
         elif linked:  # if any variables are linked, we check all of them
-- 
2.43.0


From dd56640946042cd673fb07b414e1ee3f10261a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 041/158] fix: leaving a nested SignomialsEnabled block
 disabled the outer one

---
 gpkit/globals.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/gpkit/globals.py b/gpkit/globals.py
index 62b5bff..8369884 100644
--- a/gpkit/globals.py
+++ b/gpkit/globals.py
@@ -65,9 +65,18 @@ class SignomialsEnabled(metaclass=SignomialsEnabledMeta):  # pylint: disable=no-
         >>> gpkit.Model(x, constraints).localsolve()
     """
     _true = False  # default signomial permissions
-    # pylint: disable=multiple-statements
-    def __enter__(self): SignomialsEnabled._true = True
-    def __exit__(self, type_, val, traceback): SignomialsEnabled._true = False
+
+    def __init__(self):
+        self._outer = []  # permissions outside each entry of this environment
+
+    def __enter__(self):
+        "Enters an environment where signomials are permitted."
+        self._outer.append(SignomialsEnabled._true)
+        SignomialsEnabled._true = True
+
+    def __exit__(self, type_, val, traceback):
+        "Restores the permissions there were outside."
+        SignomialsEnabled._true = self._outer.pop()
 
 
 class Vectorize:
-- 
2.43.0


From d89d9a42d4353509d0667d2d50eb6dd7a95c7a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 042/158] fix: relaxing or bounding inside a named environment
 renamed the variables

---
 gpkit/constraints/bounded.py | 4 ++--
 gpkit/constraints/relax.py   | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/bounded.py b/gpkit/constraints/bounded.py
index 8f87eda..3fbb5a6 100644
--- a/gpkit/constraints/bounded.py
+++ b/gpkit/constraints/bounded.py
@@ -1,7 +1,7 @@
 "Implements Bounded"
 from collections import defaultdict
 import numpy as np
-from .. import Variable
+from ..nomials import Variable
 from .set import ConstraintSet
 from ..small_scripts import appendsolwarning
 
@@ -22,7 +22,7 @@ def varkey_bounds(varkeys, lower, upper):
     """
     constraints = []
     for varkey in varkeys:
-        variable = Variable(**varkey.descr)
+        variable = Variable(varkey)
         if variable.units:  # non-dimensionalize the variable monomial
             variable.units = variable.hmap.units = None
         constraint = []
diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 1c73168..3e6b0ed 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -2,6 +2,7 @@
 from .set import ConstraintSet
 from ..nomials import Variable, VectorVariable, parse_subs, NomialArray
 from ..keydict import KeyDict
+from ..varkey import VarKey
 from .. import NamedVariables, SignomialsEnabled
 from ..small_scripts import appendsolwarning, mag
 
@@ -187,15 +188,15 @@ class ConstantsRelaxed(ConstraintSet):
             # make the relaxation variable, free to get as large as it needs
             relaxedd = newconstd.copy()
             relaxedd["unitrepr"] = "-"  # and unitless, importantly
-            relaxvar = Variable(**relaxedd)
+            relaxvar = Variable(VarKey(**relaxedd))
             relaxvars.append(relaxvar)
             # the newly freed const can acquire a new value
             del substitutions[const]
-            freed = Variable(**const.descr)
+            freed = Variable(VarKey(**const.descr))
             self.freedvars.append(freed)
             # becuase the make the newconst will take its old value
             newconstd["lineage"] += (("OriginalValues", 0),)
-            newconst = Variable(**newconstd)
+            newconst = Variable(VarKey(**newconstd))
             substitutions[newconst] = val
             self._derelax_map[newconst.key] = const
             # add constraints so the newly freed's wiggle room
-- 
2.43.0


From f4f81653fb9b58d141bb3f79040f9e1c37f1b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 043/158] fix: values of variables made in Vectorize lost
 units, were rounded or misplaced

---
 gpkit/nomials/variables.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gpkit/nomials/variables.py b/gpkit/nomials/variables.py
index 5997dc9..2efb3d1 100644
--- a/gpkit/nomials/variables.py
+++ b/gpkit/nomials/variables.py
@@ -7,7 +7,7 @@ from .math import Monomial
 from .map import NomialMap
 from ..globals import NamedVariables, Vectorize
 from ..varkey import VarKey
-from ..small_classes import Strings, Numbers, HashVector
+from ..small_classes import Strings, Numbers, Quantity, HashVector
 from ..small_scripts import is_sweepvar
 
 
@@ -139,13 +139,12 @@ class ArrayVariable(NomialArray):  # pylint: disable=too-many-locals
         if value_option:
             values = descr.pop(value_option)
         if value_option and not hasattr(values, "__call__"):
-            if Vectorize.vectorization:
-                if not hasattr(values, "shape"):
-                    values = np.full(shape, values, "f")
-                else:
-                    values = np.broadcast_to(values, reversed(shape)).T
+            if isinstance(values, Quantity):
+                values = Quantity(np.array(values.magnitude), values.units)
             elif not hasattr(values, "shape"):
                 values = np.array(values)
+            if Vectorize.vectorization:
+                values = np.broadcast_to(values.T, tuple(reversed(shape))).T
             if values.shape != shape:
                 raise ValueError("the value's shape %s is different than"
                                  " the vector's %s." % (values.shape, shape))
-- 
2.43.0


From 21c90726eb89d7415be73b8bb122aef7a5228afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 044/158] fix: a Model given just a vector inequality lost all
 its constraints

---
 gpkit/constraints/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 1aa6b34..c84c688 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -62,7 +62,8 @@ class Model(CostedConstraintSet):
             substitutions, = args
 
         cost = cost or Monomial(1)
-        constraints = constraints or []
+        if constraints is None:
+            constraints = []
         if setup_vars:
             # add all the vars created in .setup to the Model's varkeys
             # even if they aren't used in any constraints
-- 
2.43.0


From ef85bb07ae0f36f0cbdde874e4867f4b9213f0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 045/158] fix: constraint sets within numpy arrays were not
 flattened

---
 gpkit/constraints/set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index 830d97b..166f75a 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -53,7 +53,7 @@ def flatiter(iterable, yield_if_hasattr=None):
             yield constraint
         else:
             try:  # numpy array
-                yield from constraint.flat
+                yield from flatiter(constraint.flat, yield_if_hasattr)
             except TypeError:  # ConstrainSet
                 yield from constraint.flat(yield_if_hasattr)
             except AttributeError:  # probably a list or dict
-- 
2.43.0


From 84d2159a7bdf0714a3bfbab94ad4def687bce77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:20 +0000
Subject: [PATCH 046/158] fix: adding plain numbers to dimensionless units,
 such as degrees, failed

---
 gpkit/nomials/map.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 47ffd93..fd7d495 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -2,7 +2,6 @@
 from collections import defaultdict
 import numpy as np
 from .. import units
-from ..exceptions import DimensionalityError
 from ..small_classes import HashVector, Strings, qty, EMPTY_HV
 from .substitution import parse_subs
 
@@ -55,10 +54,8 @@ class NomialMap(HashVector):
     def __add__(self, other):
         "Adds NomialMaps together"
         if self.units != other.units:
-            try:
-                other *= float(other.units/self.units)
-            except (TypeError, AttributeError):  # if one of those is None
-                raise DimensionalityError(self.units, other.units)
+            other *= float((other.units or DIMLESS_QUANTITY)
+                           / (self.units or DIMLESS_QUANTITY))
         hmap = HashVector.__add__(self, other)
         hmap.units = self.units
         return hmap
-- 
2.43.0


From f0e606928d873db1634387adc39acb1018faddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 047/158] fix: adding a zero derivative leaves no zero term in
 the sum

---
 gpkit/nomials/map.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index fd7d495..5d1c1de 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -58,6 +58,8 @@ class NomialMap(HashVector):
                            / (self.units or DIMLESS_QUANTITY))
         hmap = HashVector.__add__(self, other)
         hmap.units = self.units
+        if len(hmap) > 1 and hmap.get(EMPTY_HV) == 0:
+            del hmap[EMPTY_HV]  # added zero, such as a derivative's
         return hmap
 
     def diff(self, varkey):
-- 
2.43.0


From 8478dd0e94c4132885f06e46e266869c3e47542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 048/158] fix: derivatives by absent variables have the units
 of other derivatives

---
 gpkit/nomials/math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 04c42db..1201f44 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -79,7 +79,8 @@ class Signomial(Nomial):
         var = var.key
         if var not in self.vks:
             diff = NomialMap({EMPTY_HV: 0.0})
-            diff.units = None
+            diff.units_of_product(self.units,
+                                  1/var.units if var.units else None)
         else:
             diff = self.hmap.diff(var)
         return Signomial(diff, require_positive=False)
-- 
2.43.0


From 540e2c5777088e378837cf6f1294828e198261ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 049/158] fix: GeometricProgram no longer converts values in
 the caller's substitutions

---
 gpkit/constraints/gp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 3a6354f..da1d670 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -72,7 +72,8 @@ class GeometricProgram:
     cost_pmap = None
 
     def __init__(self, cost, constraints, substitutions, *, checkbounds=True):
-        self.cost, self.substitutions = cost, substitutions
+        # copied, as the values of its items may be converted below
+        self.cost, self.substitutions = cost, type(substitutions)(substitutions)
         for key, sub in self.substitutions.items():
             if isinstance(sub, FixedScalar):
                 sub = sub.value
-- 
2.43.0


From 87f89a2c0e531c9170cc7c11a58858cf325abb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 050/158] fix: signomial inequalities that hold everywhere can
 have units

---
 gpkit/nomials/math.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 1201f44..a7bd715 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -591,7 +591,11 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         else:
             raise ValueError("operator %s is not supported." % self.oper)
         self.unsubbed = [plt - pgt]
-        self.bounded = self.as_gpconstr({}).bounded
+        if self.unsubbed[0].hmap and all(
+                c < 0 for c in self.unsubbed[0].hmap.values()):
+            self.bounded = set()  # it holds everywhere
+        else:
+            self.bounded = self.as_gpconstr({}).bounded
 
     def as_hmapslt1(self, substitutions):
         "Returns the posys <= 1 representation of this constraint."
-- 
2.43.0


From 5b0d0547ec2c73e755bf3b2ee8ffbbbc751e2708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 051/158] fix: showing top sensitivities no longer erases small
 ones from the solution

---
 gpkit/solution_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index b08d31f..2a65688 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -783,7 +783,7 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
         if np.isnan(v).all() or np.nanmax(np.abs(v)) <= minval:
             continue  # no values below minval
         if minval and hidebelowminval and getattr(v, "shape", None):
-            v[np.abs(v) <= minval] = np.nan
+            v = np.where(np.abs(v) <= minval, np.nan, v)  # a copy
         model = lineagestr(k.lineage) if sortbymodel else ""
         msenss = -sortmodelsbysenss.get(model, 0) if sortmodelsbysenss else 0
         if hasattr(msenss, "shape"):
-- 
2.43.0


From 8811eb8de0601231ec642182342c22ab57a16d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:46 +0000
Subject: [PATCH 052/158] fix: compare vectors of swept and unswept solutions
 along the right axes

---
 gpkit/solution_array.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 2a65688..33a8d6e 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -286,16 +286,7 @@ def cast(function, val1, val2):
     "Relative difference between val1 and val2 (positive if val2 is larger)"
     with pywarnings.catch_warnings():  # skip those pesky divide-by-zeros
         pywarnings.simplefilter("ignore")
-        if hasattr(val1, "shape") and hasattr(val2, "shape"):
-            if val1.ndim == val2.ndim:
-                return function(val1, val2)
-            lessdim, dimmest = sorted([val1, val2], key=lambda v: v.ndim)
-            dimdelta = dimmest.ndim - lessdim.ndim
-            add_axes = (slice(None),)*lessdim.ndim + (np.newaxis,)*dimdelta
-            if dimmest is val1:
-                return function(dimmest, lessdim[add_axes])
-            if dimmest is val2:
-                return function(lessdim[add_axes], dimmest)
+        # any additional dimension is a sweep's, and so comes first
         return function(val1, val2)
 
 
-- 
2.43.0


From 60f67bedb912c8ad804c9846ec5a16a6fcb30c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:40 +0000
Subject: [PATCH 053/158] fix: comparing solutions failed for variables without
 sensitivities

---
 gpkit/solution_array.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 33a8d6e..05d98db 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -361,8 +361,9 @@ class SolutionArray(DictOfLists):
         for key in svks:
             if abs(cast(np.divide, svars[key], ovars[key]) - 1) >= reltol:
                 return False
-            if abs(self["sensitivities"]["variables"][key]
-                   - other["sensitivities"]["variables"][key]) >= sens_abstol:
+            if abs(self["sensitivities"]["variables"].get(key, 0)
+                   - other["sensitivities"]["variables"].get(key, 0)
+                  ) >= sens_abstol:
                 return False
         return True
 
@@ -460,7 +461,7 @@ class SolutionArray(DictOfLists):
         if senssdiff:
             ssenss = self["sensitivities"]["variables"]
             osenss = other["sensitivities"]["variables"]
-            senss_delta = {vk: cast(sub, ssenss[vk], osenss[vk])
+            senss_delta = {vk: cast(sub, ssenss.get(vk, 0), osenss.get(vk, 0))
                            for vk in svks.intersection(ovks)}
             lines += var_table(senss_delta,
                                "Sensitivity Differences |above %g|" % sensstol,
-- 
2.43.0


From a9d5440a13374db0a912e57b00a7538977dc15c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 054/158] fix: almost_equal failed for solutions with vectors

---
 gpkit/solution_array.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 05d98db..2b9b9c6 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -359,11 +359,13 @@ class SolutionArray(DictOfLists):
         if svks != ovks:
             return False
         for key in svks:
-            if abs(cast(np.divide, svars[key], ovars[key]) - 1) >= reltol:
+            reldiff = cast(np.divide, svars[key], ovars[key]) - 1
+            if np.any(np.abs(reldiff) >= reltol):
                 return False
-            if abs(self["sensitivities"]["variables"].get(key, 0)
-                   - other["sensitivities"]["variables"].get(key, 0)
-                  ) >= sens_abstol:
+            sensdiff = cast(sub,
+                            self["sensitivities"]["variables"].get(key, 0),
+                            other["sensitivities"]["variables"].get(key, 0))
+            if np.any(np.abs(sensdiff) >= sens_abstol):
                 return False
         return True
 
-- 
2.43.0


From 467b1058e332284a68e6e2ad77ea2f98102026f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 055/158] fix: diff left the file of the other solution open

---
 gpkit/solution_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 2b9b9c6..ec45060 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -407,7 +407,8 @@ class SolutionArray(DictOfLists):
             if other[-4:] == ".pgz":
                 other = SolutionArray.decompress_file(other)
             else:
-                other = pickle.load(open(other, "rb"))
+                with open(other, "rb") as savedfile:
+                    other = pickle.load(savedfile)
         svars, ovars = self["variables"], other["variables"]
         lines = ["Solution Diff",
                  "=============",
-- 
2.43.0


From d826d765d2a7ffaa3950e8df4a6ce7cb59fe8ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 056/158] fix: diff failed for solutions without comparable
 values

---
 gpkit/solution_array.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index ec45060..6b8bb73 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -271,13 +271,15 @@ TABLEFNS = {"sensitivities": senss_table,
 
 def unrolled_absmax(values):
     "From an iterable of numbers and arrays, returns the largest magnitude"
-    finalval, absmaxest = None, 0
+    finalval, absmaxest = 0, 0
     for val in values:
-        absmaxval = np.abs(val).max()
+        if np.isnan(val).all():
+            continue
+        absmaxval = np.nanmax(np.abs(val))
         if absmaxval >= absmaxest:
             absmaxest, finalval = absmaxval, val
     if getattr(finalval, "shape", None):
-        return finalval[np.unravel_index(np.argmax(np.abs(finalval)),
+        return finalval[np.unravel_index(np.nanargmax(np.abs(finalval)),
                                          finalval.shape)]
     return finalval
 
-- 
2.43.0


From badfaa78b18dcf2d41d0984691b72a7859a19409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 057/158] fix: localsolve ignored initial guesses given by name
 or Variable

---
 gpkit/constraints/sgp.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 3217212..409926f 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -5,8 +5,8 @@ from collections import defaultdict
 import numpy as np
 from ..exceptions import (InvalidGPConstraint, Infeasible, UnnecessarySGP,
                           InvalidPosynomial, InvalidSGPConstraint)
-from ..keydict import KeyDict
-from ..nomials import Variable
+from ..keydict import KeyDict, clean_value
+from ..nomials import Variable, parse_subs
 from .gp import GeometricProgram
 from ..nomials import PosynomialInequality, Posynomial
 from .. import NamedVariables
@@ -149,7 +149,7 @@ solutions and can be solved with 'Model.solve()'.""")
                     "Unsolved after %s iterations. Check `m.program.results`;"
                     " if they're converging, try `.localsolve(...,"
                     " iteration_limit=NEWLIMIT)`." % len(self.gps))
-            gp = self.gp(x0, cleanx0=True)
+            gp = self.gp(x0, cleanx0=bool(self.gps))  # clean the user's x0
             self.gps.append(gp)  # NOTE: SIDE EFFECTS
             if verbosity > 1:
                 print("\nGP Solve %i" % len(self.gps))
@@ -216,8 +216,9 @@ solutions and can be solved with 'Model.solve()'.""")
         "Update self._gp for x0 and return it."
         if not x0:
             return self._gp  # return last generated
-        if not cleanx0:
-            x0 = KeyDict(x0)
+        if not cleanx0:  # it may have names, Variables, vectors, and units
+            x0 = {vk: clean_value(vk, v) for vk, v in
+                  parse_subs(self._gp.x0.varkeys, x0)[0].items()}
         self._gp.x0.update({vk: x0[vk] for vk in self.sgpvks if vk in x0})
         p_idx = 0
         for sgpc in self.sgpconstraints:
-- 
2.43.0


From e26c1617526f145a79a8f7e718941314c6c1ddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:31 +0000
Subject: [PATCH 058/158] fix: signomials were never approximated about
 variables absent at first

---
 gpkit/constraints/sgp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 409926f..39cdb77 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -78,6 +78,8 @@ class SequentialGeometricProgram:
                 if not hasattr(cs, "as_gpconstr"):
                     raise InvalidSGPConstraint(cs)
                 self.sgpconstraints.append(cs)
+                # the approximation may lack some of the constraint's variables
+                self.sgpvks.update(getattr(cs, "vks", ()))
                 for hmaplt1 in cs.as_gpconstr(x0).as_hmapslt1({}):
                     constraint = (Posynomial(hmaplt1) <= self.slack)
                     constraint.generated_by = cs
-- 
2.43.0


From cca1bccd8aec42d8e88059954d8922850d56de0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:31 +0000
Subject: [PATCH 059/158] fix: initial guesses replaced the values of constants
 in signomials

---
 gpkit/constraints/sgp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 39cdb77..2e6723a 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -221,7 +221,8 @@ solutions and can be solved with 'Model.solve()'.""")
         if not cleanx0:  # it may have names, Variables, vectors, and units
             x0 = {vk: clean_value(vk, v) for vk, v in
                   parse_subs(self._gp.x0.varkeys, x0)[0].items()}
-        self._gp.x0.update({vk: x0[vk] for vk in self.sgpvks if vk in x0})
+        self._gp.x0.update({vk: x0[vk] for vk in self.sgpvks if vk in x0
+                            and vk not in self._gp.substitutions})
         p_idx = 0
         for sgpc in self.sgpconstraints:
             for hmaplt1 in sgpc.as_gpconstr(self._gp.x0).as_hmapslt1({}):
-- 
2.43.0


From 3d341e6071569091c7e1067f5c6a5dd3fe0af934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:08 +0000
Subject: [PATCH 060/158] fix: signomial approximations whose terms merge
 corrupted the program

---
 gpkit/constraints/sgp.py | 88 ++++++++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 35 deletions(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 2e6723a..d72f836 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -63,7 +63,7 @@ class SequentialGeometricProgram:
         else:
             self.gpconstraints.append(self.slack >= 1)
         cost *= self.slack**pccp_penalty
-        self.approxconstraints = []
+        self.cost, self.checkbounds = cost, checkbounds
         self.sgpvks = set()
         x0 = KeyDict(substitutions)
         x0.varkeys = model.varkeys  # for string access and so forth
@@ -80,20 +80,25 @@ class SequentialGeometricProgram:
                 self.sgpconstraints.append(cs)
                 # the approximation may lack some of the constraint's variables
                 self.sgpvks.update(getattr(cs, "vks", ()))
-                for hmaplt1 in cs.as_gpconstr(x0).as_hmapslt1({}):
-                    constraint = (Posynomial(hmaplt1) <= self.slack)
-                    constraint.generated_by = cs
-                    self.approxconstraints.append(constraint)
-                    self.sgpvks.update(constraint.vks)
         if not self.sgpconstraints:
             raise UnnecessarySGP("""Model valid as a Geometric Program.
 
 SequentialGeometricPrograms should only be created with Models containing
 Signomial Constraints, since Models without Signomials have global
 solutions and can be solved with 'Model.solve()'.""")
+        self._approximate(substitutions, x0)
+
+    def _approximate(self, substitutions, x0):
+        "Creates self._gp from approximations at x0"
+        self.approxconstraints = []
+        for cs, hmaplt1 in self._approximations(x0):
+            constraint = (Posynomial(hmaplt1) <= self.slack)
+            constraint.generated_by = cs
+            self.approxconstraints.append(constraint)
+            self.sgpvks.update(constraint.vks)
         self._gp = GeometricProgram(
-            cost, self.approxconstraints + self.gpconstraints,
-            substitutions, checkbounds=checkbounds)
+            self.cost, self.approxconstraints + self.gpconstraints,
+            substitutions, checkbounds=self.checkbounds)
         self._gp.x0 = x0
         self.a_idxs = defaultdict(list)
         cost_mons = self._gp.k[0]
@@ -102,6 +107,11 @@ solutions and can be solved with 'Model.solve()'.""")
             if cost_mons <= m_idx <= sp_mons:
                 self.a_idxs[self._gp.p_idxs[m_idx]].append(row_idx)
 
+    def _approximations(self, x0):
+        "Pairs of signomial constraints and their posynomials <= 1 at x0"
+        return [(cs, hmaplt1) for cs in self.sgpconstraints
+                for hmaplt1 in cs.as_gpconstr(x0).as_hmapslt1({})]
+
     # pylint: disable=too-many-locals,too-many-branches,too-many-statements
     def localsolve(self, solver=None, *, verbosity=1, x0=None, reltol=1e-4,
                    iteration_limit=50, **solveargs):
@@ -223,32 +233,40 @@ solutions and can be solved with 'Model.solve()'.""")
                   parse_subs(self._gp.x0.varkeys, x0)[0].items()}
         self._gp.x0.update({vk: x0[vk] for vk in self.sgpvks if vk in x0
                             and vk not in self._gp.substitutions})
-        p_idx = 0
-        for sgpc in self.sgpconstraints:
-            for hmaplt1 in sgpc.as_gpconstr(self._gp.x0).as_hmapslt1({}):
-                approxc = self.approxconstraints[p_idx]
+        approximations = self._approximations(self._gp.x0)
+        hmaps = []
+        if len(approximations) == len(self.approxconstraints):
+            for approxc, (_, hmaplt1) in zip(self.approxconstraints,
+                                             approximations):
                 approxc.unsubbed = [Posynomial(hmaplt1)/self.slack]
-                p_idx += 1  # p_idx=0 is the cost; sp constraints are after it
-                hmap, = approxc.as_hmapslt1(self._gp.substitutions)
-                self._gp.hmaps[p_idx] = hmap
-                m_idx = self._gp.m_idxs[p_idx].start
-                a_idxs = list(self.a_idxs[p_idx])  # A's entries we can modify
-                for i, (exp, c) in enumerate(hmap.items()):
-                    self._gp.exps[m_idx + i] = exp
-                    self._gp.cs[m_idx + i] = c
-                    for var, x in exp.items():
-                        try:  # modify a particular A entry
-                            row_idx = a_idxs.pop()
-                            self._gp.A.row[row_idx] = m_idx + i
-                            self._gp.A.col[row_idx] = self._gp.varidxs[var]
-                            self._gp.A.data[row_idx] = x
-                        except IndexError:  # numbers of exps increased
-                            self.a_idxs[p_idx].append(len(self._gp.A.row))
-                            self._gp.A.row.append(m_idx + i)
-                            self._gp.A.col.append(self._gp.varidxs[var])
-                            self._gp.A.data.append(x)
-                for row_idx in a_idxs:  # number of exps decreased
-                    self._gp.A.row[row_idx] = 0  # zero out this entry
-                    self._gp.A.col[row_idx] = 0
-                    self._gp.A.data[row_idx] = 0
+                hmaps.extend(approxc.as_hmapslt1(self._gp.substitutions))
+        if ([len(hmap) for hmap in hmaps]
+                != self._gp.k[1:1+len(self.approxconstraints)]
+                or any(var not in self._gp.varidxs
+                       for hmap in hmaps for exp in hmap for var in exp)):
+            # the approximations' terms differ, so self._gp can't be updated
+            self._approximate(self._gp.substitutions, self._gp.x0)
+            return self._gp
+        for p_idx, hmap in enumerate(hmaps, 1):  # p_idx=0 is the cost
+            self._gp.hmaps[p_idx] = hmap
+            m_idx = self._gp.m_idxs[p_idx].start
+            a_idxs = list(self.a_idxs[p_idx])  # A's entries we can modify
+            for i, (exp, c) in enumerate(hmap.items()):
+                self._gp.exps[m_idx + i] = exp
+                self._gp.cs[m_idx + i] = c
+                for var, x in exp.items():
+                    try:  # modify a particular A entry
+                        row_idx = a_idxs.pop()
+                        self._gp.A.row[row_idx] = m_idx + i
+                        self._gp.A.col[row_idx] = self._gp.varidxs[var]
+                        self._gp.A.data[row_idx] = x
+                    except IndexError:  # numbers of exps increased
+                        self.a_idxs[p_idx].append(len(self._gp.A.row))
+                        self._gp.A.row.append(m_idx + i)
+                        self._gp.A.col.append(self._gp.varidxs[var])
+                        self._gp.A.data.append(x)
+            for row_idx in a_idxs:  # number of exps decreased
+                self._gp.A.row[row_idx] = 0  # zero out this entry
+                self._gp.A.col[row_idx] = 0
+                self._gp.A.data[row_idx] = 0
         return self._gp
-- 
2.43.0


From 5f161798229f13fbaa7a7b1f1e6387afb3899c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:08 +0000
Subject: [PATCH 061/158] fix: local solves with small costs could end while
 the cost was rising

---
 gpkit/constraints/sgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index d72f836..74f2eee 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -181,7 +181,7 @@ solutions and can be solved with 'Model.solve()'.""")
             if prevcost is None:
                 continue
             rel_improvement = (prevcost - cost)/(prevcost + cost)
-            if cost*(1 - EPS) > prevcost + EPS and verbosity > -1:
+            if cost*(1 - EPS) > prevcost*(1 + EPS) and verbosity > -1:
                 pywarnings.warn(
                     "SGP not convergent: Cost rose by %.2g%% on GP solve %i."
                     " Details can be found in `m.program.results` or by"
-- 
2.43.0


From 0a942d6c822a93a31eb1c9f7dba66caef1fa7a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 062/158] fix: elements of vectors in swept solutions could not
 be queried

---
 gpkit/keydict.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index b9a0fd5..9ffce5c 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -22,6 +22,13 @@ def clean_value(key, value):
     return value
 
 
+def element(value, idx):
+    "The element of a vector's value at idx, for each point if it was swept"
+    if getattr(value, "ndim", 0) > len(idx):  # sweep dimensions come first
+        idx = (Ellipsis,) + tuple(idx)
+    return value[idx]
+
+
 class KeyMap:
     """Helper class to provide KeyMapping to interfaces.
 
@@ -91,8 +98,9 @@ class KeyMap:
         if super().__contains__(key):  # pylint: disable=no-member
             if idx:
                 try:
-                    value = super().__getitem__(key)[idx]  # pylint: disable=no-member
-                    return True if is_sweepvar(value) else not isnan(value)
+                    value = element(super().__getitem__(key), idx)  # pylint: disable=no-member
+                    return (True if is_sweepvar(value)
+                            else not np.all(isnan(value)))
                 except TypeError:
                     raise TypeError("%s has an idx, but its value in this"
                                     " KeyDict is the scalar %s."
@@ -181,7 +189,7 @@ class KeyDict(KeyMap, dict):
                 self._copyonwrite(k)
             val = dict.__getitem__(self, k)
             if idx:
-                val = val[idx]
+                val = element(val, idx)
             if len(keys) == 1:
                 return val
             got[k] = val
-- 
2.43.0


From bd6bce939e88cb59b7ac4e7735b3e76fa8538b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 063/158] fix: signomials tautological at the first
 approximation stayed left out

---
 gpkit/constraints/sgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 74f2eee..22b7d80 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -241,7 +241,7 @@ solutions and can be solved with 'Model.solve()'.""")
                 approxc.unsubbed = [Posynomial(hmaplt1)/self.slack]
                 hmaps.extend(approxc.as_hmapslt1(self._gp.substitutions))
         if ([len(hmap) for hmap in hmaps]
-                != self._gp.k[1:1+len(self.approxconstraints)]
+                != self._gp.k[1:1+len(approximations)]
                 or any(var not in self._gp.varidxs
                        for hmap in hmaps for exp in hmap for var in exp)):
             # the approximations' terms differ, so self._gp can't be updated
-- 
2.43.0


From c77386643176738b9537c40bf745af7d4c2dd688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 064/158] fix: autosweeps of a vector's element swept the whole
 vector

---
 gpkit/constraints/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index c84c688..27fc143 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -160,7 +160,9 @@ class Model(CostedConstraintSet):
         """
         sols = []
         for sweepvar, sweepvals in sweeps.items():
-            sweepvar = self[sweepvar].key
+            if not hasattr(sweepvar, "key"):
+                sweepvar = self[sweepvar]
+            sweepvar = sweepvar.key
             start, end = sweepvals
             bst = autosweep_1d(self, tol, sweepvar, [start, end], **solveargs)
             sols.append(bst.sample_at(np.linspace(start, end, samplepoints)))
-- 
2.43.0


From 2be3537335818e3a2d9f1917a7db92300f31424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 065/158] fix: autosweeps lost constants which were zero, and
 all on failure

---
 gpkit/tools/autosweep.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 5a262a9..55ccaae 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -226,6 +226,17 @@ class SolutionOracle:
 def autosweep_1d(model, logtol, sweepvar, bounds, **solvekwargs):
     "Autosweep a model over one sweepvar"
     original_val = model.substitutions.get(sweepvar, None)
+    try:
+        return _autosweep_1d(model, logtol, sweepvar, bounds, **solvekwargs)
+    finally:
+        if original_val is not None:
+            model.substitutions[sweepvar] = original_val
+        elif sweepvar in model.substitutions:
+            del model.substitutions[sweepvar]
+
+
+def _autosweep_1d(model, logtol, sweepvar, bounds, **solvekwargs):
+    "Autosweeps, leaving the last value of sweepvar in model.substitutions"
     start_time = time()
     solvekwargs.setdefault("verbosity", 1)
     solvekwargs["verbosity"] -= 1
@@ -245,10 +256,6 @@ def autosweep_1d(model, logtol, sweepvar, bounds, **solvekwargs):
     if solvekwargs["verbosity"] > -1:
         print("Solved in %2i passes, cost logtol +/-%.3g" % (bst.nsols, tol))
         print("Autosweeping took %.3g seconds." % (time() - start_time))
-    if original_val:
-        model.substitutions[sweepvar] = original_val
-    else:
-        del model.substitutions[sweepvar]
     return bst
 
 
-- 
2.43.0


From b8cc668ce8155d849b0ca832b33342f8c30c207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 066/158] fix: autosweeps without splits had no tol

---
 gpkit/tools/autosweep.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 55ccaae..5b378dd 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -274,6 +274,7 @@ def recurse_splits(model, bst, variable, logtol, solvekwargs, sols):
         bst.tol = max(tols)
         return bst.tol
     bst.add_splitcost(x, lb, ub)
+    bst.tol = tol
     return tol
 
 
-- 
2.43.0


From 16ebd21024e0639a753ba1eeffd48b29d5f08c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 067/158] fix: vectors in autosweep solutions could not be
 queried

---
 gpkit/tools/autosweep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 5b378dd..5b177e4 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -83,7 +83,7 @@ class BinarySweepTree:  # pylint: disable=too-many-instance-attributes
         bst = self.min_bst(value)
         lo, hi = bst.bounds
         loval, hival = [sol(posy) for sol in bst.sols]
-        lo, hi, loval, hival = np.log(list(map(mag, [lo, hi, loval, hival])))
+        lo, hi, loval, hival = [np.log(mag(v)) for v in [lo, hi, loval, hival]]
         interp = (hi-np.log(value))/float(hi-lo)
         return np.exp(interp*loval + (1-interp)*hival)
 
@@ -173,7 +173,7 @@ class SolutionOracle:
     def _is_cost(self, key):
         if hasattr(key, "hmap") and key.hmap == self.bst.costposy.hmap:
             return True
-        return key == "cost"
+        return isinstance(key, str) and key == "cost"
 
     def __getval(self, key):
         "Gets values from the BST and units them"
-- 
2.43.0


From 2d15e8ee008eacbbe80f3d2e9aab62dd5697fa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 068/158] fix: autosweeps of variables without any sensitivity
 failed

---
 gpkit/tools/autosweep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 5b177e4..d6e7b71 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -282,7 +282,8 @@ def get_tol(costs, bounds, sols, variable):  # pylint: disable=too-many-locals
     "Gets the intersection point and corresponding bounds from two solutions."
     y0, y1 = costs
     x0, x1 = np.log(bounds)
-    s0, s1 = [sol["sensitivities"]["variables"][variable] for sol in sols]
+    s0, s1 = [sol["sensitivities"]["variables"].get(variable, 0)
+              for sol in sols]
     # y0 + s0*(x - x0) == y1 + s1*(x - x1)
     num = y1-y0 + x0*s0-x1*s1
     denom = s0-s1
-- 
2.43.0


From cc2892f59150eabd99bde47cca52272c6171ed9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 069/158] fix: relaxed vector constants lost their values

---
 gpkit/varkey.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gpkit/varkey.py b/gpkit/varkey.py
index 4fe35db..edd30d8 100644
--- a/gpkit/varkey.py
+++ b/gpkit/varkey.py
@@ -44,9 +44,8 @@ class VarKey(ReprMixin):  # pylint:disable=too-many-instance-attributes
                 vecdescr = self.descr.copy()
                 del vecdescr["idx"]
                 self.veckey = VarKey(**vecdescr)
-            else:
-                self.keys.add(self.veckey)
-                self.keys.add(self.str_without(["idx", "modelnums"]))
+            self.keys.add(self.veckey)
+            self.keys.add(self.str_without(["idx", "modelnums"]))
 
     def __getstate__(self):
         "Stores varkey as its metadata dictionary, removing functions"
-- 
2.43.0


From 47d72cdf06dd613a404dc6e6dbbd2479936e446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 070/158] fix: negative constants could not be kept when
 relaxing constants

---
 gpkit/constraints/relax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 3e6b0ed..cb6b178 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -171,8 +171,8 @@ class ConstantsRelaxed(ConstraintSet):
         self._derelax_map = {}
         relaxvars, self.freedvars, relaxation_constraints = [], [], {}
         for const, val in sorted(constants.items(), key=lambda i: i[0].eqstr):
-            if val == 0:
-                substitutions[const] = 0
+            if val <= 0:  # can't be the value of a free variable
+                substitutions[const] = val
                 continue
             if include_only and const.name not in include_only:
                 continue
-- 
2.43.0


From 469924fa37be24e4db7fa54cfc2345eba9dd9777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 071/158] fix: relaxing constants of a model without any failed

---
 gpkit/constraints/relax.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index cb6b178..212f6b0 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -235,6 +235,8 @@ class ConstantsRelaxed(ConstraintSet):
 
 def get_relaxed(relaxvals, mapped_list):
     "Returns 'relaxed' vals (those above an arbitrary threshold of 1.01)."
+    if not len(relaxvals):
+        return []
     sortrelaxed = sorted(zip(relaxvals, mapped_list), key=lambda x: -x[0])
     mostrelaxed = max(sortrelaxed[0][0], 1.01)
     for i, (val, _) in enumerate(sortrelaxed):
-- 
2.43.0


From c49db5260dce50b61c59197216317a7f23c5672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 072/158] fix: linked constants computed from others were
 missing, stale or in wrong units

---
 gpkit/constraints/prog_factories.py | 78 +++++++++++++++++++----------
 1 file changed, 52 insertions(+), 26 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 2620b3f..6c3cdc2 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -6,41 +6,67 @@ from ..nomials import parse_subs
 from ..solution_array import SolutionArray
 from ..keydict import KeyDict, clean_value
 from ..small_classes import Numbers
-from ..small_scripts import maybe_flatten
+from ..small_scripts import maybe_flatten, isnan
 from ..exceptions import Infeasible
 
 
 def evaluate_linked(constants, linked):
     "Evaluates the values and gradients of linked variables."
+    for v in linked:  # values left from a previous point of a sweep
+        constants.pop(v, None)
     kdc = KeyDict({k: adnumber(maybe_flatten(v), k)
                    for k, v in constants.items()})
-    kdc_plain = None
     array_calulated = {}
-    for v, f in linked.items():
-        try:
-            if v.veckey and v.veckey.original_fn:
-                if v.veckey not in array_calulated:
-                    ofn = v.veckey.original_fn
-                    array_calulated[v.veckey] = np.array(ofn(kdc))
-                out = array_calulated[v.veckey][v.idx]
-            else:
-                out = f(kdc)
-            constants[v] = out.x
-            v.descr["gradients"] = {adn.tag: grad
-                                    for adn, grad in out.d().items()
-                                    if adn.tag}  # else it's user-created
-        except Exception as exception:  # pylint: disable=broad-except
-            from .. import settings
-            if settings.get("ad_errors_raise", None):
-                raise
-            print("Warning: skipped auto-differentiation of linked variable"
-                  " %s because %s was raised. Set `gpkit.settings"
-                  "[\"ad_errors_raise\"] = True` to raise such Exceptions"
-                  " directly.\n" % (v, repr(exception)))
-            if kdc_plain is None:
-                kdc_plain = KeyDict(constants)
-            constants[v] = f(kdc_plain)
+    pending = dict(linked)
+    while pending:
+        waiting = {}  # for other linked variables
+        for v, f in pending.items():
+            gradients = None
+            try:
+                if v.veckey and v.veckey.original_fn:
+                    if v.veckey not in array_calulated:
+                        ofn = v.veckey.original_fn
+                        array_calulated[v.veckey] = np.array(
+                            in_units_of(v, ofn(kdc)))
+                    out = array_calulated[v.veckey][v.idx]
+                else:
+                    out = in_units_of(v, f(kdc))
+                value = out.x
+                gradients = {adn.tag: grad for adn, grad in out.d().items()
+                             if adn.tag}  # else it's user-created
+            except Exception as exception:  # pylint: disable=broad-except
+                if isinstance(exception, KeyError) and len(pending) > 1:
+                    waiting[v] = f
+                    continue
+                from .. import settings
+                if settings.get("ad_errors_raise", None):
+                    raise
+                print("Warning: skipped auto-differentiation of linked variable"
+                      " %s because %s was raised. Set `gpkit.settings"
+                      "[\"ad_errors_raise\"] = True` to raise such Exceptions"
+                      " directly.\n" % (v, repr(exception)))
+                value = in_units_of(v, f(KeyDict(constants)))
+                out = adnumber(maybe_flatten(value), v)
+            if len(pending) > 1 and isnan(value).any():
+                array_calulated.pop(v.veckey, None)
+                waiting[v] = f  # for part of a vector
+                continue
+            constants[v], kdc[v] = value, out
             v.descr.pop("gradients", None)
+            if gradients is not None:
+                v.descr["gradients"] = gradients
+        if len(waiting) == len(pending):  # nothing can be evaluated
+            for f in waiting.values():
+                f(KeyDict(constants))  # raises the reason
+            break
+        pending = waiting
+
+
+def in_units_of(key, value):
+    "Returns what a linked function gave in the units of its variable."
+    if hasattr(value, "units"):
+        return value.to(key.units or "dimensionless").magnitude
+    return value
 
 
 def progify(program, return_attr=None):
-- 
2.43.0


From a916dfe3ef6602a5bf272bb4d0893247b4fbd95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 073/158] fix: relaxing constants computed from other computed
 constants failed

---
 gpkit/constraints/relax.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 212f6b0..8088044 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -1,5 +1,6 @@
 """Models for assessing primal feasibility"""
 from .set import ConstraintSet
+from .prog_factories import evaluate_linked
 from ..nomials import Variable, VectorVariable, parse_subs, NomialArray
 from ..keydict import KeyDict
 from ..varkey import VarKey
@@ -163,10 +164,11 @@ class ConstantsRelaxed(ConstraintSet):
         substitutions = KeyDict(constraints.substitutions)
         constants, _, linked = parse_subs(constraints.vks, substitutions)
         if linked:
-            kdc = KeyDict(constants)
+            evaluate_linked(constants, linked)
             constrained_varkeys = constraints.constrained_varkeys()
-            constants.update({k: f(kdc) for k, f in linked.items()
-                              if k in constrained_varkeys})
+            for key in linked:
+                if key not in constrained_varkeys:
+                    del constants[key]
 
         self._derelax_map = {}
         relaxvars, self.freedvars, relaxation_constraints = [], [], {}
-- 
2.43.0


From b1d94b1b70e9a624e48b9fc5864256b6864360e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 074/158] fix: solving a program used the latest gradients of
 linked constants, not its own

---
 gpkit/constraints/gp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index da1d670..69d9b6b 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -83,6 +83,8 @@ class GeometricProgram:
             if not isinstance(sub, (Numbers, np.ndarray)):
                 raise TypeError("substitution {%s: %s} has invalid value type"
                                 " %s." % (key, sub, type(sub)))
+        self.gradients = {k: k.gradients for k in self.substitutions
+                          if k.gradients}
         cost_hmap = cost.hmap.sub(self.substitutions, cost.vks)
         if any(c <= 0 for c in cost_hmap.values()):
             raise InvalidPosynomial("a GP's cost must be Posynomial")
@@ -338,11 +340,11 @@ class GeometricProgram:
             m_senss[lineagestr(vk)] += abs(senss)
         result["sensitivities"]["models"] = dict(m_senss)
         # carry linked sensitivities over to their constants
-        for v in list(v for v in gpv_ss if v.gradients):
+        for v in list(v for v in gpv_ss if v in self.gradients):
             dlogcost_dlogv = gpv_ss.pop(v)
             via_cost = cost_senss.get(v, None)
             val = np.array(result["constants"][v])
-            for c, dv_dc in v.gradients.items():
+            for c, dv_dc in self.gradients[v].items():
                 with warnings.catch_warnings():  # skip pesky divide-by-zeros
                     warnings.simplefilter("ignore")
                     dlogv_dlogc = dv_dc * result["constants"][c]/val
-- 
2.43.0


From 78cf97a43e7f8e693dc1e74120aa96d9e5b00340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 075/158] fix: constants which are no longer linked kept the
 gradients of their functions

---
 gpkit/constraints/prog_factories.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 6c3cdc2..e50b193 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -14,6 +14,10 @@ def evaluate_linked(constants, linked):
     "Evaluates the values and gradients of linked variables."
     for v in linked:  # values left from a previous point of a sweep
         constants.pop(v, None)
+    for v in constants:  # gradients left from when these were linked
+        v.descr.pop("gradients", None)
+    if not linked:
+        return
     kdc = KeyDict({k: adnumber(maybe_flatten(v), k)
                    for k, v in constants.items()})
     array_calulated = {}
@@ -83,8 +87,7 @@ def progify(program, return_attr=None):
         "Return program version of self"
         if not constants:
             constants, _, linked = parse_subs(self.varkeys, self.substitutions)
-            if linked:
-                evaluate_linked(constants, linked)
+            evaluate_linked(constants, linked)
         prog = program(self.cost, self, constants, **initargs)
         prog.model = self  # NOTE SIDE EFFECTS
         if return_attr:
@@ -169,8 +172,7 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
     for i in range(N_passes):
         constants.update({var: sweep_vect[i]
                           for (var, sweep_vect) in sweep_vects.items()})
-        if linked:
-            evaluate_linked(constants, linked)
+        evaluate_linked(constants, linked)
         try:
             program, solvefn = genfunction(self, constants)
             self.program.append(program)  # NOTE: SIDE EFFECTS
-- 
2.43.0


From 508c1d65d71b907cde6e6e3913389f0e717bd5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 076/158] fix: functions replacing those of vector elements
 were ignored

---
 gpkit/constraints/prog_factories.py | 5 +++--
 gpkit/nomials/variables.py          | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index e50b193..d20e7aa 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -27,9 +27,10 @@ def evaluate_linked(constants, linked):
         for v, f in pending.items():
             gradients = None
             try:
-                if v.veckey and v.veckey.original_fn:
+                # f may have replaced the element's own function
+                ofn = getattr(f, "original_fn", None)
+                if ofn and ofn is (v.veckey and v.veckey.original_fn):
                     if v.veckey not in array_calulated:
-                        ofn = v.veckey.original_fn
                         array_calulated[v.veckey] = np.array(
                             in_units_of(v, ofn(kdc)))
                     out = array_calulated[v.veckey][v.idx]
diff --git a/gpkit/nomials/variables.py b/gpkit/nomials/variables.py
index 2efb3d1..9206c80 100644
--- a/gpkit/nomials/variables.py
+++ b/gpkit/nomials/variables.py
@@ -182,6 +182,7 @@ def veclinkedfn(linkedfn, i):
     def newlinkedfn(c):
         "Linked function that pulls out a particular index"
         return np.array(linkedfn(c))[i]
+    newlinkedfn.original_fn = linkedfn
     return newlinkedfn
 
 
-- 
2.43.0


From b7da1f9262263b298a2e0ecfc908f423dc705797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 077/158] fix: evaluated variables needing other evaluated
 variables failed in some orders

---
 gpkit/constraints/set.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index 166f75a..15545ff 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -189,9 +189,18 @@ class ConstraintSet(list, ReprMixin):
                 constraint.process_result(result)
         evalfn_vars = {v.veckey or v for v in self.unique_varkeys
                        if v.evalfn and v not in result["variables"]}
-        for v in evalfn_vars:
-            val = v.evalfn(result["variables"])
-            result["variables"][v] = result["freevariables"][v] = val
+        while evalfn_vars:
+            waiting = set()  # for other evaluated variables
+            for v in evalfn_vars:
+                try:
+                    val = v.evalfn(result["variables"])
+                except KeyError:
+                    waiting.add(v)
+                    continue
+                result["variables"][v] = result["freevariables"][v] = val
+            if waiting == evalfn_vars:
+                waiting.pop().evalfn(result["variables"])  # raises the reason
+            evalfn_vars = waiting
 
     def __repr__(self):
         "Returns namespaced string."
-- 
2.43.0


From 881240f64c13a93592e4748f22f47308d6be2f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 078/158] fix: vectors of quantities given by linked functions
 lost their units

---
 gpkit/constraints/prog_factories.py | 2 ++
 gpkit/nomials/variables.py          | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index d20e7aa..e65083d 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -71,6 +71,8 @@ def in_units_of(key, value):
     "Returns what a linked function gave in the units of its variable."
     if hasattr(value, "units"):
         return value.to(key.units or "dimensionless").magnitude
+    if isinstance(value, (list, tuple)):
+        return [in_units_of(key, v) for v in value]
     return value
 
 
diff --git a/gpkit/nomials/variables.py b/gpkit/nomials/variables.py
index 9206c80..80bac78 100644
--- a/gpkit/nomials/variables.py
+++ b/gpkit/nomials/variables.py
@@ -181,7 +181,10 @@ def veclinkedfn(linkedfn, i):
     "Generate an indexed linking function."
     def newlinkedfn(c):
         "Linked function that pulls out a particular index"
-        return np.array(linkedfn(c))[i]
+        value = linkedfn(c)
+        for j in i:  # instead of making an array, which would strip units
+            value = value[j]
+        return value
     newlinkedfn.original_fn = linkedfn
     return newlinkedfn
 
-- 
2.43.0


From 382209d39ac37e301b64e6a631f06f9b2e9369f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 079/158] fix: vector functions of partly linked vectors could
 be evaluated too early

---
 gpkit/constraints/prog_factories.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index e65083d..a42d972 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -20,9 +20,9 @@ def evaluate_linked(constants, linked):
         return
     kdc = KeyDict({k: adnumber(maybe_flatten(v), k)
                    for k, v in constants.items()})
-    array_calulated = {}
     pending = dict(linked)
     while pending:
+        array_calulated = {}
         waiting = {}  # for other linked variables
         for v, f in pending.items():
             gradients = None
@@ -53,7 +53,6 @@ def evaluate_linked(constants, linked):
                 value = in_units_of(v, f(KeyDict(constants)))
                 out = adnumber(maybe_flatten(value), v)
             if len(pending) > 1 and isnan(value).any():
-                array_calulated.pop(v.veckey, None)
                 waiting[v] = f  # for part of a vector
                 continue
             constants[v], kdc[v] = value, out
-- 
2.43.0


From af84f2eef52ec36e39a6f940470e06d1a93a482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 080/158] fix: Bounded and debug() bound the constrained
 variables of setup()

---
 gpkit/constraints/set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index 15545ff..dc0a368 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -161,7 +161,7 @@ class ConstraintSet(list, ReprMixin):
 
     def constrained_varkeys(self):
         "Return all varkeys in non-ConstraintSet constraints"
-        return self.vks - self.unique_varkeys
+        return set().union(*(c.vks for c in self.flat()))
 
     flat = flatiter
 
-- 
2.43.0


From 40b827368690539a30ac90581ee3d66f402ec010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 081/158] fix: warnings keep the values they were raised for

---
 gpkit/constraints/loose.py |  4 +++-
 gpkit/constraints/tight.py |  4 +++-
 gpkit/small_scripts.py     |  4 ++++
 gpkit/solution_array.py    | 12 ++++++------
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/gpkit/constraints/loose.py b/gpkit/constraints/loose.py
index 84d410d..01c798f 100644
--- a/gpkit/constraints/loose.py
+++ b/gpkit/constraints/loose.py
@@ -1,6 +1,6 @@
 "Implements Loose"
 from .set import ConstraintSet
-from ..small_scripts import appendsolwarning
+from ..small_scripts import appendsolwarning, SolWarning
 
 
 class Loose(ConstraintSet):
@@ -24,6 +24,8 @@ class Loose(ConstraintSet):
                        " (Allowable sensitivity: %.4g)" %
                        (cstr, c_senss, self.senstol))
                 constraint.relax_sensitivity = c_senss
+                msg = SolWarning(msg)  # the constraint may be solved again
+                msg.relax_sensitivity = c_senss
                 appendsolwarning(msg, constraint, result,
                                  "Unexpectedly Tight Constraints")
                 if self.raiseerror:
diff --git a/gpkit/constraints/tight.py b/gpkit/constraints/tight.py
index 063c4e7..f346e4f 100644
--- a/gpkit/constraints/tight.py
+++ b/gpkit/constraints/tight.py
@@ -1,7 +1,7 @@
 "Implements Tight"
 from .set import ConstraintSet
 from ..small_scripts import mag
-from ..small_scripts import appendsolwarning
+from ..small_scripts import appendsolwarning, SolWarning
 from .. import SignomialsEnabled
 
 
@@ -36,5 +36,7 @@ class Tight(ConstraintSet):
                     leftval = leftval.magnitude
                 constraint.tightvalues = (leftval, constraint.oper, rightval)
                 constraint.rel_diff = rel_diff
+                msg = SolWarning(msg)  # the constraint may be solved again
+                msg.tightvalues, msg.rel_diff = constraint.tightvalues, rel_diff
                 appendsolwarning(msg, constraint, result,
                                  "Unexpectedly Loose Constraints")
diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index b42a86b..4dcf091 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -3,6 +3,10 @@ from collections.abc import Iterable
 import numpy as np
 
 
+class SolWarning(str):
+    "A warning's message, with the values it was raised for as attributes"
+
+
 def appendsolwarning(msg, data, result, category="uncategorized"):
     "Append a particular category of warnings to a solution."
     if "warnings" not in result:
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 6b8bb73..11ceb59 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -244,14 +244,14 @@ def warnings_table(self, _, **kwargs):
             if len(data_vec) > 1:
                 title += " in sweep %i" % i
             if wtype == "Unexpectedly Tight Constraints" and data[0][1]:
-                data = [(-int(1e5*c.relax_sensitivity),
-                         "%+6.2g" % c.relax_sensitivity, id(c), c)
-                        for _, c in data]
+                data = [(-int(1e5*msg.relax_sensitivity),
+                         "%+6.2g" % msg.relax_sensitivity, id(c), c)
+                        for msg, c in data]
                 lines += constraint_table(data, title, **kwargs)
             elif wtype == "Unexpectedly Loose Constraints" and data[0][1]:
-                data = [(-int(1e5*c.rel_diff),
-                         "%.4g %s %.4g" % c.tightvalues, id(c), c)
-                        for _, c in data]
+                data = [(-int(1e5*msg.rel_diff),
+                         "%.4g %s %.4g" % msg.tightvalues, id(c), c)
+                        for msg, c in data]
                 lines += constraint_table(data, title, **kwargs)
             else:
                 lines += [title] + ["-"*len(wtype)]
-- 
2.43.0


From b88f46bc44a5d8157454849cd0e34d671d257862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 082/158] fix: atindex of element keys with as many points as
 elements

---
 gpkit/small_classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index 6f15a3a..0f03ece 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -146,7 +146,8 @@ def _index_dict(idx, d_in, d_out):
             d_out[k] = _index_dict(idx, v, v.__class__())
         else:
             try:
-                if getattr(k, "shape", None) and np.shape(v) == k.shape:
+                if (getattr(k, "shape", None) and not k.idx
+                        and np.shape(v) == k.shape):
                     raise TypeError("this vector is the same at every index")
                 d_out[k] = v[idx]
             except (IndexError, TypeError):  # if not an array, return as is
-- 
2.43.0


From 85b928f900d8a137b3bd8af196b43d89fa4d0b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 083/158] fix: calling a solution with a monomial it only
 partly knows

---
 gpkit/solution_array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 11ceb59..9e8796a 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -352,6 +352,8 @@ class SolutionArray(DictOfLists):
 
     def __call__(self, posy):
         posy_subbed = self.subinto(posy)
+        if getattr(posy_subbed, "vks", None):  # not all variables were found
+            return posy_subbed
         return getattr(posy_subbed, "c", posy_subbed)
 
     def almost_equal(self, other, reltol=1e-3, sens_abstol=0.01):
-- 
2.43.0


From ffae0f0c8703e5e9b46bffc85be7a61b15367500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 084/158] fix: unpickled nomials do not keep the hashes of
 another process

---
 gpkit/small_classes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index 0f03ece..3f8d9cf 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -197,6 +197,12 @@ class HashVector(dict):
             self.hashvalue = reduce(xor, map(hash, self.items()), 0)
         return self.hashvalue
 
+    def __getstate__(self):
+        "Leaves out the hash, which differs from one process to another"
+        state = self.__dict__.copy()
+        state.pop("hashvalue", None)
+        return state
+
     def copy(self):
         "Return a copy of this"
         hv = self.__class__(self)
-- 
2.43.0


From d5b8df564ac894489266c41e41e790ea0214ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 085/158] fix: pickled vector variables and arrays keep their
 key and their name

---
 gpkit/nomials/array.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index 5e9fd9d..970d1b3 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -118,6 +118,17 @@ class NomialArray(ReprMixin, np.ndarray):
         # Input is an already formed ndarray instance cast to our class type
         return np.asarray(input_array).view(cls)
 
+    def __reduce__(self):
+        "Pickles also the attributes (such as key) of the array"
+        function, args, state = np.ndarray.__reduce__(self)
+        return function, args, (state, self.__dict__)
+
+    def __setstate__(self, state):
+        if len(state) == 2:
+            state, attributes = state
+            self.__dict__.update(attributes)
+        np.ndarray.__setstate__(self, state)
+
     def __array_finalize__(self, obj):
         "Finalizer. Required for objects inheriting from np.ndarray."
 
-- 
2.43.0


From f43ff713603fcec1e4938782ce9e7fbc9d385cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 086/158] fix: tables of solutions saved without their
 constraints

---
 gpkit/solution_array.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 9e8796a..9d23e47 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -135,6 +135,8 @@ def insenss_table(data, _, maxval=0.1, **kwargs):
 def tight_table(self, _, ntightconstrs=5, tight_senss=1e-2, **kwargs):
     "Return constraint tightness lines"
     title = "Most Sensitive Constraints"
+    if "constraints" not in self["sensitivities"]:  # saved without them
+        return []
     if len(self) > 1:
         title += " (in last sweep)"
         data = sorted(((-float("%+6.2g" % s[-1]), str(c)),
@@ -150,6 +152,8 @@ def tight_table(self, _, ntightconstrs=5, tight_senss=1e-2, **kwargs):
 def loose_table(self, _, min_senss=1e-5, **kwargs):
     "Return constraint tightness lines"
     title = "Insensitive Constraints |below %+g|" % min_senss
+    if "constraints" not in self["sensitivities"]:  # saved without them
+        return []
     if len(self) > 1:
         title += " (in last sweep)"
         data = [(0, "", id(c), c)
-- 
2.43.0


From 62490729e46491f91319581f0d4489dc64a920f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 087/158] fix: saving again a solution that was saved without
 its constraints

---
 gpkit/solution_array.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 9d23e47..ca5eb45 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -41,21 +41,22 @@ class SolSavingEnvironment:
             for constraint_attr in ["bounded", "meq_bounded", "vks",
                                     "v_ss", "unsubbed", "varkeys"]:
                 store = {}
-                for constraint in self.solarray["sensitivities"]["constraints"]:
+                for constraint in self.solarray["sensitivities"].get(
+                        "constraints", {}):  # may have been saved without
                     if getattr(constraint, constraint_attr, None):
                         store[constraint] = getattr(constraint, constraint_attr)
                         delattr(constraint, constraint_attr)
                 self.attrstore[constraint_attr] = store
         else:
             self.constraintstore = \
-                self.solarray["sensitivities"].pop("constraints")
+                self.solarray["sensitivities"].pop("constraints", None)
 
     def __exit__(self, type_, val, traceback):
         if self.saveconstraints:
             for constraint_attr, store in self.attrstore.items():
                 for constraint, value in store.items():
                     setattr(constraint, constraint_attr, value)
-        else:
+        elif self.constraintstore is not None:
             self.solarray["sensitivities"]["constraints"] = self.constraintstore
 
 def msenss_table(data, _, **kwargs):
-- 
2.43.0


From ed1670c4a5015df9fbcd673e8fdf77c13ee4d0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 088/158] fix: SolutionArray.save reports a file it could not
 finish writing

---
 gpkit/solution_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index ca5eb45..65b078c 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -493,7 +493,8 @@ class SolutionArray(DictOfLists):
         >>> pickle.load(open("solution.pkl"))
         """
         with SolSavingEnvironment(self, saveconstraints):
-            pickle.dump(self, open(filename, "wb"), **pickleargs)
+            with open(filename, "wb") as f:
+                pickle.dump(self, f, **pickleargs)
 
     def save_compressed(self, filename="solution.pgz",
                         *, saveconstraints=True, **cpickleargs):
-- 
2.43.0


From 8d4b1694a0437e7de7f156d6f7c917a35de30992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 089/158] fix: saving an autosweep reports a file it could not
 finish writing

---
 gpkit/tools/autosweep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index d6e7b71..54d2f36 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -155,7 +155,8 @@ class BinarySweepTree:  # pylint: disable=too-many-instance-attributes
             >>> pickle.load(open("autosweep.p"))
         """
         import pickle
-        pickle.dump(self, open(filename, "wb"))
+        with open(filename, "wb") as f:
+            pickle.dump(self, f)
 
 
 class SolutionOracle:
-- 
2.43.0


From 9f50cfd4b6e32b68d519f2fc04234a152c307da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:39 +0000
Subject: [PATCH 090/158] fix: tables of constraints are not ordered by memory
 address

---
 gpkit/solution_array.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 65b078c..8875fc0 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -157,11 +157,11 @@ def loose_table(self, _, min_senss=1e-5, **kwargs):
         return []
     if len(self) > 1:
         title += " (in last sweep)"
-        data = [(0, "", id(c), c)
+        data = [((0, str(c)), "", id(c), c)
                 for c, s in self["sensitivities"]["constraints"].items()
                 if s[-1] <= min_senss]
     else:
-        data = [(0, "", id(c), c)
+        data = [((0, str(c)), "", id(c), c)
                 for c, s in self["sensitivities"]["constraints"].items()
                 if s <= min_senss]
     return constraint_table(data, title, **kwargs)
@@ -249,12 +249,12 @@ def warnings_table(self, _, **kwargs):
             if len(data_vec) > 1:
                 title += " in sweep %i" % i
             if wtype == "Unexpectedly Tight Constraints" and data[0][1]:
-                data = [(-int(1e5*msg.relax_sensitivity),
+                data = [((-int(1e5*msg.relax_sensitivity), str(c)),
                          "%+6.2g" % msg.relax_sensitivity, id(c), c)
                         for msg, c in data]
                 lines += constraint_table(data, title, **kwargs)
             elif wtype == "Unexpectedly Loose Constraints" and data[0][1]:
-                data = [(-int(1e5*msg.rel_diff),
+                data = [((-int(1e5*msg.rel_diff), str(c)),
                          "%.4g %s %.4g" % msg.tightvalues, id(c), c)
                         for msg, c in data]
                 lines += constraint_table(data, title, **kwargs)
-- 
2.43.0


From 303e34b519770da4c7080c59624893f51edda0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 091/158] fix: showing variables a solution does not have adds
 nothing to it

---
 gpkit/solution_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 8875fc0..d49d840 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -634,8 +634,8 @@ class SolutionArray(DictOfLists):
         showvars_out = set()
         for k in showvars:
             k, _ = self["variables"].parse_and_index(k)
-            keys = self["variables"].keymap[k]
-            showvars_out.update(keys)
+            # without adding a blank entry
+            showvars_out.update(self["variables"].keymap.get(k, ()))
         return showvars_out
 
     def summary(self, showvars=(), ntopsenss=5, **kwargs):
-- 
2.43.0


From cbe77e56e74768c3a259dc8b5ddebfd9989e3b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 092/158] fix: diff of selected variables lists those only in
 the argument

---
 gpkit/solution_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index d49d840..9884a9c 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -426,7 +426,9 @@ class SolutionArray(DictOfLists):
         if showvars:
             lines[0] += " (for selected variables)"
             lines[1] += "========================="
-            showvars = self._parse_showvars(showvars)
+            # pylint: disable=protected-access
+            showvars = (self._parse_showvars(showvars)
+                        | other._parse_showvars(showvars))
             svks = {k for k in showvars if k in svars}
             ovks = {k for k in showvars if k in ovars}
         if constraintsdiff and other.modelstr and self.modelstr:
-- 
2.43.0


From bcc490f9554e86fc3ed56552d5d29bde2be03bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 093/158] fix: almost_equal notices vector elements only one
 solution has

---
 gpkit/solution_array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 9884a9c..aa5be0e 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -369,7 +369,10 @@ class SolutionArray(DictOfLists):
             return False
         for key in svks:
             reldiff = cast(np.divide, svars[key], ovars[key]) - 1
-            if np.any(np.abs(reldiff) >= reltol):
+            # elements which only one of the solutions has are nan there
+            both = np.isnan(svars[key]) & np.isnan(ovars[key])
+            both |= np.equal(svars[key], ovars[key])
+            if not np.all(both | (np.abs(reldiff) < reltol)):
                 return False
             sensdiff = cast(sub,
                             self["sensitivities"]["variables"].get(key, 0),
-- 
2.43.0


From 2851d6c5e80c08929ad2cec2942fbe587670b742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 094/158] fix: tables of constraints only take a model's name
 off its variables

---
 gpkit/solution_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index aa5be0e..e4eb586 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -193,7 +193,9 @@ def constraint_table(data, title, sortbymodel=True, showmodels=True, **_):
             if model or lines:
                 lines.append([("newmodelline",), model])
             previous_model = model
-        constrstr = constrstr.replace(model, "")
+        if model:  # it's in the line above
+            constrstr = re.sub(r"(?<![\w.])%s\." % re.escape(model), "",
+                               constrstr)
         minlen, maxlen = 25, 80
         segments = [s for s in CONSTRSPLITPATTERN.split(constrstr) if s]
         constraintlines = []
-- 
2.43.0


From 71b3c2a0e7e9f468dd8ee9ff9ab509601cd72bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 095/158] fix: tables keep the rows of three-dimensional arrays
 in order

---
 gpkit/solution_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index e4eb586..2e724b9 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -847,8 +847,8 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
                 if ncols <= dim_size <= maxcolumns:
                     horiz_dim, ncols = dim_idx, dim_size
             # align the array with horiz_dim by making it the last one
-            dim_order = list(range(last_dim_index))
-            dim_order.insert(horiz_dim, last_dim_index)
+            dim_order = list(range(last_dim_index + 1))
+            dim_order.append(dim_order.pop(horiz_dim))
             flatval = val.transpose(dim_order).flatten()
             vals = [vecfmt % v for v in flatval[:ncols]]
             bracket = " ] " if len(flatval) <= ncols else ""
-- 
2.43.0


From e09c585b0ac2a8952c4ab8dc9c41555368bdac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 096/158] fix: names and labels with commas stay in their CSV
 column

---
 gpkit/solution_array.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 2e724b9..56f91cc 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -1,5 +1,6 @@
 """Defines SolutionArray class"""
 import re
+import csv
 import difflib
 from operator import sub
 import warnings as pywarnings
@@ -605,23 +606,24 @@ class SolutionArray(DictOfLists):
         lines = var_table(data, "", rawlines=True, maxcolumns=valcols,
                           tables=("cost", "sweepvariables", "freevariables",
                                   "constants", "sensitivities"))
-        with open(filename, "w") as f:
-            f.write("Model Name,Variable Name,Value(s)" + ","*valcols
-                    + "Units,Description\n")
+        with open(filename, "w", newline="") as f:
+            writer = csv.writer(f, lineterminator="\n")
+            writer.writerow(["Model Name", "Variable Name", "Value(s)"]
+                            + [""]*(valcols - 1) + ["Units", "Description"])
+            modelname = ""
             for line in lines:
                 if line[0] == ("newmodelline",):
-                    f.write(line[1])
+                    modelname = line[1]
                 elif not line[1]:  # spacer line
-                    f.write("\n")
+                    writer.writerow([])
                 else:
-                    f.write("," + line[0].replace(" : ", "") + ",")
-                    vals = line[1].replace("[", "").replace("]", "").strip()
-                    for el in vals.split():
-                        f.write(el + ",")
-                    f.write(","*(valcols - len(vals.split())))
-                    f.write((line[2].replace("[", "").replace("]", "").strip()
-                             + ","))
-                    f.write(line[3].strip() + "\n")
+                    vals = line[1].replace("[", "").replace("]", "").split()
+                    writer.writerow([modelname, line[0].replace(" : ", "")]
+                                    + vals + [""]*(valcols - len(vals))
+                                    + [line[2].replace("[", "")
+                                       .replace("]", "").strip(),
+                                       line[3].strip()])
+                    modelname = ""
 
     def subinto(self, posy):
         "Returns NomialArray of each solution substituted into posy."
-- 
2.43.0


From 2af99d9176216de753b4adc555172e53fe95ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 097/158] fix: tables show variables whose value is zero

---
 gpkit/solution_array.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 56f91cc..505437d 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -760,7 +760,7 @@ class SolutionArray(DictOfLists):
 # pylint: disable=too-many-branches,too-many-locals,too-many-statements
 def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
               varfmt="%s : ", valfmt="%-.4g ", vecfmt="%-8.3g",
-              minval=0, sortbyvals=False, hidebelowminval=False,
+              minval=None, sortbyvals=False, hidebelowminval=False,
               included_models=None, excluded_models=None, sortbymodel=True,
               maxcolumns=5, skipifempty=True, sortmodelsbysenss=None, **_):
     """
@@ -782,7 +782,7 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
     vecfmt : string
         format for vector values
     minval : float
-        skip values with all(abs(value)) < minval
+        if specified, skip values with all(abs(value)) <= minval
     sortbyvals : boolean
         If true, rows are sorted by their average value instead of by name.
     included_models : Iterable of strings
@@ -794,7 +794,9 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
         return []
     decorated, models = [], set()
     for i, (k, v) in enumerate(data.items()):
-        if np.isnan(v).all() or np.nanmax(np.abs(v)) <= minval:
+        if np.isnan(v).all():
+            continue  # no values at all
+        if minval is not None and np.nanmax(np.abs(v)) <= minval:
             continue  # no values below minval
         if minval and hidebelowminval and getattr(v, "shape", None):
             v = np.where(np.abs(v) <= minval, np.nan, v)  # a copy
-- 
2.43.0


From 6a21bb486a52c2951659bc9c4cc5876f2b72c343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 098/158] fix: the table of insensitive variables shows the
 least sensitive

---
 gpkit/solution_array.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 505437d..e884878 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -91,7 +91,8 @@ def msenss_table(data, _, **kwargs):
     return lines + [""] if len(lines) > 3 else []
 
 
-def senss_table(data, showvars=(), title="Variable Sensitivities", **kwargs):
+def senss_table(data, showvars=(), title="Variable Sensitivities",
+                minval=1e-3, **kwargs):
     "Returns sensitivity table lines"
     if "variables" in data.get("sensitivities", {}):
         data = data["sensitivities"]["variables"]
@@ -99,7 +100,7 @@ def senss_table(data, showvars=(), title="Variable Sensitivities", **kwargs):
         data = {k: data[k] for k in showvars if k in data}
     return var_table(data, title, sortbyvals=True, skipifempty=True,
                      valfmt="%+-.2g  ", vecfmt="%+-8.2g",
-                     printunits=False, minval=1e-3, **kwargs)
+                     printunits=False, minval=minval, **kwargs)
 
 
 def topsenss_table(data, showvars, nvars=5, **kwargs):
@@ -131,6 +132,7 @@ def insenss_table(data, _, maxval=0.1, **kwargs):
     if "constants" in data.get("sensitivities", {}):
         data = data["sensitivities"]["variables"]
     data = {k: s for k, s in data.items() if np.mean(np.abs(s)) < maxval}
+    kwargs["minval"] = None  # the least sensitive ones too
     return senss_table(data, title="Insensitive Fixed Variables", **kwargs)
 
 
-- 
2.43.0


From 29de2c7975518d30d1437f873688c4263bff168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 099/158] fix: showing no top sensitivities does not show all
 of them

---
 gpkit/solution_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index e884878..a9b3a98 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -124,7 +124,8 @@ def topsenss_filter(data, showvars, nvars=5):
         topk.remove(k)
         if nvars > 3:  # always show at least 3
             nvars -= 1
-    return {k: data[k] for k in topk[-nvars:]}, filter_already_shown
+    topk = topk[max(len(topk) - nvars, 0):]
+    return {k: data[k] for k in topk}, filter_already_shown
 
 
 def insenss_table(data, _, maxval=0.1, **kwargs):
-- 
2.43.0


From 81e8304206ae70e841decb5d01c04c79211773da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 100/158] fix: values saved for matlab keep their precision and
 size

---
 gpkit/solution_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index a9b3a98..6b7b9e1 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -540,7 +540,7 @@ class SolutionArray(DictOfLists):
         "Saves primal solution as matlab file"
         from scipy.io import savemat
         savemat(filename,
-                {name.replace(".", "_"): np.array(self["variables"][key], "f")
+                {name.replace(".", "_"): np.array(self["variables"][key], float)
                  for name, key in self.varnames(showvars, excluded).items()})
 
     def todataframe(self, showvars=None,
-- 
2.43.0


From a4bfcb79634292205218556cb60d63f61734dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 101/158] fix: models are included and excluded whether or not
 they head sections

---
 gpkit/solution_array.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 6b7b9e1..d67964c 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -795,7 +795,7 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
     """
     if not data:
         return []
-    decorated, models = [], set()
+    decorated = []
     for i, (k, v) in enumerate(data.items()):
         if np.isnan(v).all():
             continue  # no values at all
@@ -803,11 +803,16 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
             continue  # no values below minval
         if minval and hidebelowminval and getattr(v, "shape", None):
             v = np.where(np.abs(v) <= minval, np.nan, v)  # a copy
-        model = lineagestr(k.lineage) if sortbymodel else ""
+        model = lineagestr(k.lineage)
+        if included_models and model and model not in included_models:
+            continue
+        if excluded_models and model in excluded_models:
+            continue
+        if not sortbymodel:
+            model = ""
         msenss = -sortmodelsbysenss.get(model, 0) if sortmodelsbysenss else 0
         if hasattr(msenss, "shape"):
             msenss = np.mean(msenss)
-        models.add(model)
         b = bool(getattr(v, "shape", None))
         s = k.str_without(("lineage", "vec"))
         if not sortbyvals:
@@ -818,12 +823,6 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
             decorated.append((model, sort, msenss, b, (varfmt % s), i, k, v))
     if not decorated and skipifempty:
         return []
-    if included_models:
-        included_models = set(included_models)
-        included_models.add("")
-        models = models.intersection(included_models)
-    if excluded_models:
-        models = models.difference(excluded_models)
     decorated.sort()
     previous_model, lines = None, []
     for varlist in decorated:
@@ -831,8 +830,6 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
             model, _, msenss, isvector, varstr, _, var, val = varlist
         else:
             msenss, model, isvector, varstr, _, var, val = varlist
-        if model not in models:
-            continue
         if model != previous_model:
             if lines:
                 lines.append(["", "", "", ""])
-- 
2.43.0


From 43bebca51af76d85095357879f6f72250eb44049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 102/158] fix: tables not sorted by model tell same-named
 variables apart

---
 gpkit/solution_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index d67964c..88f7ff0 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -814,7 +814,8 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
         if hasattr(msenss, "shape"):
             msenss = np.mean(msenss)
         b = bool(getattr(v, "shape", None))
-        s = k.str_without(("lineage", "vec"))
+        s = k.str_without(("lineage" if sortbymodel else "unnecessary lineage",
+                           "vec"))
         if not sortbyvals:
             decorated.append((msenss, model, b, (varfmt % s), i, k, v))
         else:  # for consistent sorting, add small offset to negative vals
-- 
2.43.0


From 7ef94e47c95df8f8fb5cf54591aa670044ab4a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 103/158] fix: LaTeX tables show every row of arrays, in as
 many columns as they have

---
 gpkit/solution_array.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 88f7ff0..faad0bb 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -825,6 +825,12 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
     if not decorated and skipifempty:
         return []
     decorated.sort()
+    coltitles = {1: [title, "Value", "Units", "Description"],  # normal
+                 2: [title, "Units", "Description"],  # no values
+                 3: [title, "Value", "Units"]  # no description
+                }.get(int(latex or 1))
+    if not coltitles:
+        raise ValueError("Unexpected latex option, %s." % latex)
     previous_model, lines = None, []
     for varlist in decorated:
         if sortbyvals:
@@ -833,13 +839,13 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
             msenss, model, isvector, varstr, _, var, val = varlist
         if model != previous_model:
             if lines:
-                lines.append(["", "", "", ""])
+                lines.append([""]*len(coltitles))
             if model:
                 if not latex:
                     lines.append([("newmodelline",), model, "", ""])
                 else:
-                    lines.append(
-                        [r"\multicolumn{3}{l}{\textbf{" + model + r"}} \\"])
+                    lines.append([r"\multicolumn{%i}{l}{\textbf{%s}}"
+                                  % (len(coltitles), model)])
             previous_model = model
         label = var.descr.get("label", "")
         units = var.unitstr(" [%s] ") if printunits else ""
@@ -878,18 +884,19 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
                     lines.append(["", valstr, "", ""])
         else:
             varstr = "$%s$" % varstr.replace(" : ", "")
-            if latex == 1:  # normal results table
-                lines.append([varstr, valstr, "$%s$" % var.latex_unitstr(),
-                              label])
-                coltitles = [title, "Value", "Units", "Description"]
-            elif latex == 2:  # no values
-                lines.append([varstr, "$%s$" % var.latex_unitstr(), label])
-                coltitles = [title, "Units", "Description"]
-            elif latex == 3:  # no description
-                lines.append([varstr, valstr, "$%s$" % var.latex_unitstr()])
-                coltitles = [title, "Value", "Units"]
-            else:
-                raise ValueError("Unexpected latex option, %s." % latex)
+            units = "$%s$" % var.latex_unitstr() if printunits else ""
+            rows = [[varstr, valstr, units, label]]
+            if isvector and latex != 2:
+                for idx in range(ncols, len(flatval), ncols):
+                    valstr = "  ".join([vecfmt % v
+                                        for v in flatval[idx:idx+ncols]])
+                    for before, after in VALSTR_REPLACES:
+                        valstr = valstr.replace(before, after)
+                    rows.append(["", valstr, "", ""])
+                if len(rows) > 1:
+                    rows[-1][1] += " ] "
+            cols = {1: (0, 1, 2, 3), 2: (0, 2, 3), 3: (0, 1, 2)}[int(latex)]
+            lines += [[row[col] for col in cols] for row in rows]
     if rawlines:
         return lines
     if not latex:
-- 
2.43.0


From 7b0092ae9a93c2fd6b8dd77418e99d7ffa0210f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 104/158] fix: a table that could not be made leaves no marks
 on the variables

---
 gpkit/solution_array.py | 68 +++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index faad0bb..0569015 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -706,39 +706,41 @@ class SolutionArray(DictOfLists):
             kwargs["sortbymodel"] = False
         for key in self.name_collision_varkeys():
             key.descr["necessarylineage"] = True
-        showvars = self._parse_showvars(showvars)
-        strs = []
-        for table in tables:
-            if table == "cost":
-                cost = self["cost"]  # pylint: disable=unsubscriptable-object
-                if kwargs.get("latex", None):  # cost is not printed for latex
-                    continue
-                strs += ["\n%s\n------------" % "Optimal Cost"]
-                if len(self) > 1:
-                    costs = ["%-8.3g" % c for c in mag(cost[:4])]
-                    strs += [" [ %s %s ]" % ("  ".join(costs),
-                                             "..." if len(self) > 4 else "")]
-                else:
-                    strs += [" %-.4g" % mag(cost)]
-                strs[-1] += unitstr(cost, into=" [%s]", dimless="")
-                strs += [""]
-            elif table in TABLEFNS:
-                strs += TABLEFNS[table](self, showvars, **kwargs)
-            elif table in self:
-                data = self[table]
-                if showvars:
-                    showvars = self._parse_showvars(showvars)
-                    data = {k: data[k] for k in showvars if k in data}
-                strs += var_table(data, self.table_titles[table], **kwargs)
-        if kwargs.get("latex", None):
-            preamble = "\n".join(("% \\documentclass[12pt]{article}",
-                                  "% \\usepackage{booktabs}",
-                                  "% \\usepackage{longtable}",
-                                  "% \\usepackage{amsmath}",
-                                  "% \\begin{document}\n"))
-            strs = [preamble] + strs + ["% \\end{document}"]
-        for key in self.name_collision_varkeys():
-            del key.descr["necessarylineage"]
+        try:
+            showvars = self._parse_showvars(showvars)
+            strs = []
+            for table in tables:
+                if table == "cost":
+                    cost = self["cost"]  # pylint: disable=unsubscriptable-object
+                    if kwargs.get("latex", None):  # cost is not printed for latex
+                        continue
+                    strs += ["\n%s\n------------" % "Optimal Cost"]
+                    if len(self) > 1:
+                        costs = ["%-8.3g" % c for c in mag(cost[:4])]
+                        strs += [" [ %s %s ]" % ("  ".join(costs),
+                                                 "..." if len(self) > 4 else "")]
+                    else:
+                        strs += [" %-.4g" % mag(cost)]
+                    strs[-1] += unitstr(cost, into=" [%s]", dimless="")
+                    strs += [""]
+                elif table in TABLEFNS:
+                    strs += TABLEFNS[table](self, showvars, **kwargs)
+                elif table in self:
+                    data = self[table]
+                    if showvars:
+                        showvars = self._parse_showvars(showvars)
+                        data = {k: data[k] for k in showvars if k in data}
+                    strs += var_table(data, self.table_titles[table], **kwargs)
+            if kwargs.get("latex", None):
+                preamble = "\n".join(("% \\documentclass[12pt]{article}",
+                                      "% \\usepackage{booktabs}",
+                                      "% \\usepackage{longtable}",
+                                      "% \\usepackage{amsmath}",
+                                      "% \\begin{document}\n"))
+                strs = [preamble] + strs + ["% \\end{document}"]
+        finally:
+            for key in self.name_collision_varkeys():
+                del key.descr["necessarylineage"]
         return "\n".join(strs)
 
     def plot(self, posys=None, axes=None):
-- 
2.43.0


From 32f51ce1c426d6d40e3550af5bcc44d33ac12ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 105/158] fix: printing an expression within one model does not
 fix its variables' names

---
 gpkit/repr_conventions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 1f07615..a3c0639 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -91,8 +91,8 @@ class ReprMixin:
     # pylint: disable=too-many-branches, too-many-statements
     def parse_ast(self, excluded=("units")):
         "Turns the AST of this object's construction into a faithful string"
-        if self.cached_strs is None:
-            self.cached_strs = {}
+        if self.cached_strs is None or "unnecessary lineage" in excluded:
+            self.cached_strs = {}  # which lineage is necessary may change
         elif frozenset(excluded) in self.cached_strs:
             return self.cached_strs[frozenset(excluded)]
         aststr = None
-- 
2.43.0


From 7b419ac66c5b5b6dada3b8db2ab8289f9a754ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 106/158] fix: vectors and their elements are told apart by
 their models where needed

---
 gpkit/constraints/set.py |  6 ++++--
 gpkit/varkey.py          | 10 ++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index dc0a368..bd58c25 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -213,9 +213,11 @@ class ConstraintSet(list, ReprMixin):
     def name_collision_varkeys(self):
         "Returns the set of contained varkeys whose names are not unique"
         if self._name_collision_varkeys is None:
+            keys, named = {key.veckey or key for key in self.varkeys}, {}
+            for key in keys:
+                named[key.name] = named.get(key.name, 0) + 1
             self._name_collision_varkeys = {
-                key for key in self.varkeys
-                if len(self.varkeys[key.str_without(["lineage", "vec"])]) > 1}
+                key for key in keys if named[key.name] > 1}
         return self._name_collision_varkeys
 
     def lines_without(self, excluded):
diff --git a/gpkit/varkey.py b/gpkit/varkey.py
index edd30d8..6e2bf47 100644
--- a/gpkit/varkey.py
+++ b/gpkit/varkey.py
@@ -59,12 +59,18 @@ class VarKey(ReprMixin):  # pylint:disable=too-many-instance-attributes
         "Restores varkey from its metadata dictionary"
         self.__init__(**state)
 
+    @property
+    def needslineage(self):
+        "Whether it (or its vector) is marked as sharing its name"
+        return self.necessarylineage or getattr(self.veckey,
+                                                "necessarylineage", None)
+
     def str_without(self, excluded=()):
         "Returns string without certain fields (such as 'lineage')."
         name = self.name
         if ("lineage" not in excluded and self.lineage
                 and ("unnecessary lineage" not in excluded
-                     or self.necessarylineage)):
+                     or self.needslineage)):
             name = self.lineagestr("modelnums" not in excluded) + "." + name
         if "idx" not in excluded:
             if self.idx:
@@ -93,7 +99,7 @@ class VarKey(ReprMixin):  # pylint:disable=too-many-instance-attributes
             name = "{%s}_{%s}" % (name, ",".join(map(str, self.idx)))
         if ("lineage" not in excluded and self.lineage
                 and ("unnecessary lineage" not in excluded
-                     or self.necessarylineage)):
+                     or self.needslineage)):
             name = "{%s}_{%s}" % (name,
                                   self.lineagestr("modelnums" not in excluded))
         return name
-- 
2.43.0


From e4fe0908f85b93409f5f0edaa9054f2e5a3add37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 107/158] fix: relaxed vectors' elements have their vector in
 common

---
 gpkit/constraints/relax.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 8088044..ee478d1 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -170,6 +170,14 @@ class ConstantsRelaxed(ConstraintSet):
                 if key not in constrained_varkeys:
                     del constants[key]
 
+        veckeys = {}
+        def newkey(descr):
+            "Makes a VarKey which has its veckey in common with its siblings"
+            if "idx" in descr:
+                veckey = VarKey(**{k: v for k, v in descr.items() if k != "idx"})
+                descr = dict(descr, veckey=veckeys.setdefault(veckey, veckey))
+            return VarKey(**descr)
+
         self._derelax_map = {}
         relaxvars, self.freedvars, relaxation_constraints = [], [], {}
         for const, val in sorted(constants.items(), key=lambda i: i[0].eqstr):
@@ -190,15 +198,15 @@ class ConstantsRelaxed(ConstraintSet):
             # make the relaxation variable, free to get as large as it needs
             relaxedd = newconstd.copy()
             relaxedd["unitrepr"] = "-"  # and unitless, importantly
-            relaxvar = Variable(VarKey(**relaxedd))
+            relaxvar = Variable(newkey(relaxedd))
             relaxvars.append(relaxvar)
             # the newly freed const can acquire a new value
             del substitutions[const]
-            freed = Variable(VarKey(**const.descr))
+            freed = Variable(const)
             self.freedvars.append(freed)
             # becuase the make the newconst will take its old value
             newconstd["lineage"] += (("OriginalValues", 0),)
-            newconst = Variable(VarKey(**newconstd))
+            newconst = Variable(newkey(newconstd))
             substitutions[newconst] = val
             self._derelax_map[newconst.key] = const
             # add constraints so the newly freed's wiggle room
-- 
2.43.0


From e7d6a56522d2e6a7e568fba601bf77f1819d96a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 108/158] fix: numbers keep their units when printed within
 expressions

---
 gpkit/nomials/core.py     | 2 +-
 gpkit/repr_conventions.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/core.py b/gpkit/nomials/core.py
index 9ab109c..ef564b8 100644
--- a/gpkit/nomials/core.py
+++ b/gpkit/nomials/core.py
@@ -40,7 +40,7 @@ class Nomial(NomialData):
         units = "" if "units" in excluded else self.unitstr(" [%s]")
         if hasattr(self, "key"):
             return self.key.str_without(excluded) + units  # pylint: disable=no-member
-        if self.ast:
+        if self.ast and (self.vks or not self.units):
             return self.parse_ast(excluded) + units
         mstrs = []
         for exp, c in self.hmap.items():
diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index a3c0639..5eac41d 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -48,6 +48,8 @@ def latex_unitstr(units):
 
 def strify(val, excluded):
     "Turns a value into as pretty a string as possible."
+    if len(getattr(val, "hmap", "")) == 1 and val.units and not val.vks:
+        val = val.c  # a number with units, as which it should be shown
     if isinstance(val, Numbers):
         isqty = hasattr(val, "magnitude")
         if isqty:
-- 
2.43.0


From 232fcaba22e236145cdb554133e3b1e90c0bd4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 109/158] fix: printed sums and products of parenthesized terms
 are parenthesized

---
 gpkit/repr_conventions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 5eac41d..2d839ce 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -5,7 +5,7 @@ import numpy as np
 from .small_classes import Quantity, Numbers
 from .small_scripts import try_str_without
 
-INSIDE_PARENS = re.compile(r"\(.*\)")
+INSIDE_PARENS = re.compile(r"\([^()]*\)")
 
 if sys.platform[:3] == "win":  # pragma: no cover
     MUL = "*"
@@ -74,7 +74,9 @@ def strify(val, excluded):
 
 def parenthesize(string, addi=True, mult=True):
     "Parenthesizes a string if it needs it and isn't already."
-    parensless = string if "(" not in string else INSIDE_PARENS.sub("", string)
+    parensless, n_removed = string, 1
+    while n_removed:  # from the inside out
+        parensless, n_removed = INSIDE_PARENS.subn("", parensless)
     bare_addi = (" + " in parensless or " - " in parensless)
     bare_mult = ("·" in parensless or "/" in parensless)
     if parensless and (addi and bare_addi) or (mult and bare_mult):
-- 
2.43.0


From 90a7ca551439b30e095815c595611c519a3d52fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 110/158] fix: printed powers, and products of negatives, apply
 to all of their base

---
 gpkit/repr_conventions.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 2d839ce..914c996 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -72,14 +72,21 @@ def strify(val, excluded):
     return val
 
 
-def parenthesize(string, addi=True, mult=True):
-    "Parenthesizes a string if it needs it and isn't already."
+def parenthesize(string, addi=True, mult=True, power=""):
+    """Parenthesizes a string if it needs it and isn't already.
+
+    If it's to have something appended to it (so that a leading minus or
+    exponents would apply to less or more than it) those exponents' characters
+    are the argument `power`.
+    """
     parensless, n_removed = string, 1
     while n_removed:  # from the inside out
         parensless, n_removed = INSIDE_PARENS.subn("", parensless)
     bare_addi = (" + " in parensless or " - " in parensless)
     bare_mult = ("·" in parensless or "/" in parensless)
-    if parensless and (addi and bare_addi) or (mult and bare_mult):
+    bare_power = power and (parensless[:1] == "-"
+                            or any(char in parensless for char in power))
+    if (addi and bare_addi) or (mult and bare_mult) or bare_power:
         return "(%s)" % string
     return string
 
@@ -129,7 +136,8 @@ class ReprMixin:
         elif oper == "neg":
             aststr = "-%s" % parenthesize(strify(values, excluded), mult=False)
         elif oper == "pow":
-            left = parenthesize(strify(values[0], excluded))
+            left = parenthesize(strify(values[0], excluded),
+                                power="^²³⁴⁵⁶⁷⁸⁹")
             x = values[1]
             if left == "1":
                 aststr = "1"
@@ -143,11 +151,13 @@ class ReprMixin:
             else:
                 aststr = "%s^%s" % (left, x)
         elif oper == "prod":  # TODO: only do if it makes a shorter string
-            aststr = "%s.prod()" % parenthesize(strify(values[0], excluded))
+            aststr = "%s.prod()" % parenthesize(strify(values[0], excluded),
+                                                power="^")
         elif oper == "sum":  # TODO: only do if it makes a shorter string
-            aststr = "%s.sum()" % parenthesize(strify(values[0], excluded))
+            aststr = "%s.sum()" % parenthesize(strify(values[0], excluded),
+                                               power="^")
         elif oper == "index":  # TODO: label vectorization idxs
-            left = parenthesize(strify(values[0], excluded))
+            left = parenthesize(strify(values[0], excluded), power="^")
             idx = values[1]
             if left[-3:] == "[:]":  # pure variable access
                 left = left[:-3]
-- 
2.43.0


From ae231da0fa54b9a7d5da012fa9fe974c6092c0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 111/158] fix: printed indices show every part of the index

---
 gpkit/repr_conventions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 914c996..ed27d4d 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -170,8 +170,8 @@ class ReprMixin:
                                 else "")
                         step = ":%s" % el.step if el.step is not None else ""
                         elstrs.append("%s:%s%s" % (start, stop, step))
-                    elif isinstance(el, Numbers):
-                        elstrs.append("%s" % el)
+                    else:
+                        elstrs.append("..." if el is Ellipsis else "%s" % el)
                 idx = ",".join(elstrs)
             elif isinstance(idx, slice):
                 start = idx.start or ""
-- 
2.43.0


From 73b091776e6d1da2fa916f9281dbe6648946ed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 112/158] fix: numbers near a fraction of pi are printed to
 three digits

---
 gpkit/repr_conventions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index ed27d4d..59740d6 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -55,7 +55,8 @@ def strify(val, excluded):
         if isqty:
             units = val
             val = val.magnitude
-        if np.pi/12 < val < 100*np.pi and abs(12*val/np.pi % 1) <= 1e-2:
+        if (np.pi/12 < val < 100*np.pi and abs(12*val/np.pi % 1)
+                <= min(1e-2, 1.5e-3*12*val/np.pi)):
             # val is in bounds and a clean multiple of PI!
             if val > 3.1:                            # product of PI
                 val = "%.3g%s" % (val/np.pi, PI_STR)
-- 
2.43.0


From cf86dfe7daf1a3afd65e6d7debd67e85624daaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 113/158] fix: negative numbers with units print within
 expressions

---
 gpkit/repr_conventions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 59740d6..b003691 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -49,7 +49,7 @@ def latex_unitstr(units):
 def strify(val, excluded):
     "Turns a value into as pretty a string as possible."
     if len(getattr(val, "hmap", "")) == 1 and val.units and not val.vks:
-        val = val.c  # a number with units, as which it should be shown
+        val = val.cs[0]  # a number with units, as which it should be shown
     if isinstance(val, Numbers):
         isqty = hasattr(val, "magnitude")
         if isqty:
-- 
2.43.0


From afa28fee49a30109d151ddc3b863718475989d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 114/158] fix: signomial inequalities of equal sides can be
 made

---
 gpkit/nomials/math.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index a7bd715..8118f09 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -591,8 +591,7 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         else:
             raise ValueError("operator %s is not supported." % self.oper)
         self.unsubbed = [plt - pgt]
-        if self.unsubbed[0].hmap and all(
-                c < 0 for c in self.unsubbed[0].hmap.values()):
+        if all(c < 0 for c in self.unsubbed[0].hmap.values()):
             self.bounded = set()  # it holds everywhere
         else:
             self.bounded = self.as_gpconstr({}).bounded
-- 
2.43.0


From a6691e99d8f48e6f7c80450446c68cd13b64bf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 115/158] fix: signomial inequalities that hold nowhere are
 refused as infeasible

---
 gpkit/nomials/math.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 8118f09..e0cdc72 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -593,6 +593,9 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         self.unsubbed = [plt - pgt]
         if all(c < 0 for c in self.unsubbed[0].hmap.values()):
             self.bounded = set()  # it holds everywhere
+        elif all(c > 0 for c in self.unsubbed[0].hmap.values()):
+            raise PrimalInfeasible("Constraint [%s] is infeasible everywhere."
+                                   % self)
         else:
             self.bounded = self.as_gpconstr({}).bounded
 
-- 
2.43.0


From 6cad795515753463158bd2eb05e066f7292595b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:41 +0000
Subject: [PATCH 116/158] fix: expressions whose terms all cancelled are
 printed as 0

---
 gpkit/nomials/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/core.py b/gpkit/nomials/core.py
index ef564b8..a3fadc0 100644
--- a/gpkit/nomials/core.py
+++ b/gpkit/nomials/core.py
@@ -65,7 +65,7 @@ class Nomial(NomialData):
             else:
                 cstr = [cstr] if (cstr != "1" or not varstrs) else []
                 mstrs.append(MUL.join(cstr + varstrs))
-        return " + ".join(sorted(mstrs)) + units
+        return (" + ".join(sorted(mstrs)) or "0") + units
 
     def latex(self, excluded=()):  # TODO: add ast parsing here
         "Latex representation, parsing `excluded` just as .str_without does"
@@ -79,6 +79,7 @@ class Nomial(NomialData):
                     neg_vars.append((var.latex(excluded), x))
             mstrs.append(nomial_latex_helper(c, pos_vars, neg_vars))
 
+        mstrs = mstrs or ["0"]
         if "units" in excluded:
             return " + ".join(sorted(mstrs))
         units = self.unitstr(r"\mathrm{~\left[ %s \right]}", ":L~")
-- 
2.43.0


From 9a2d2f93a96d6da572b5b39b3b324ffdbd196296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:54 +0000
Subject: [PATCH 117/158] fix: slices ending or going backwards from zero are
 printed as such

---
 gpkit/repr_conventions.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index b003691..715c2b7 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -92,6 +92,19 @@ def parenthesize(string, addi=True, mult=True, power=""):
     return string
 
 
+def indexstr(idx):
+    "Returns the string of (one dimension's part of) an index"
+    if not isinstance(idx, slice):
+        return "..." if idx is Ellipsis else "%s" % idx
+    backwards = idx.step is not None and idx.step < 0
+    start = "" if idx.start is None else idx.start
+    if start == 0 and not backwards:
+        start = ""
+    stop = "" if idx.stop is None or idx.stop >= sys.maxsize else idx.stop
+    step = ":%s" % idx.step if idx.step is not None else ""
+    return "%s:%s%s" % (start, stop, step)
+
+
 class ReprMixin:
     "This class combines various printing methods for easier adoption."
     lineagestr = lineagestr
@@ -163,22 +176,9 @@ class ReprMixin:
             if left[-3:] == "[:]":  # pure variable access
                 left = left[:-3]
             if isinstance(idx, tuple):
-                elstrs = []
-                for el in idx:
-                    if isinstance(el, slice):
-                        start = el.start or ""
-                        stop = (el.stop if el.stop and el.stop < sys.maxsize
-                                else "")
-                        step = ":%s" % el.step if el.step is not None else ""
-                        elstrs.append("%s:%s%s" % (start, stop, step))
-                    else:
-                        elstrs.append("..." if el is Ellipsis else "%s" % el)
-                idx = ",".join(elstrs)
-            elif isinstance(idx, slice):
-                start = idx.start or ""
-                stop = idx.stop if idx.stop and idx.stop < 1e6 else ""
-                step = ":%s" % idx.step if idx.step is not None else ""
-                idx = "%s:%s%s" % (start, stop, step)
+                idx = ",".join(map(indexstr, idx))
+            else:
+                idx = indexstr(idx)
             aststr = "%s[%s]" % (left, idx)
         else:
             raise ValueError(oper)
-- 
2.43.0


From bad25b947b694a6c28df5f496ace050713363658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 118/158] fix: arrays of expressions have LaTeX

---
 gpkit/nomials/array.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index 970d1b3..8305779 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -108,7 +108,13 @@ class NomialArray(ReprMixin, np.ndarray):
         units = self.latex_unitstr() if "units" not in excluded else ""
         if hasattr(self, "key"):
             return self.key.latex(excluded) + units  # pylint: disable=no-member
-        return np.ndarray.__str__(self)
+        if not self.shape:
+            return try_str_without(self.flatten()[0], excluded, latex=True)
+
+        return "\\left[%s\\right]" % ", ".join(
+            [try_str_without(np.ndarray.__getitem__(self, i), excluded,
+                             latex=True)
+             for i in range(self.shape[0])])  # pylint: disable=unsubscriptable-object
 
     def __hash__(self):
         return reduce(xor, map(hash, self.flat), 0)
-- 
2.43.0


From eaa5e85219070eb6f83e1562b4f3ae1a6c5776df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 119/158] fix: coefficients near one are shown in LaTeX

---
 gpkit/nomials/core.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gpkit/nomials/core.py b/gpkit/nomials/core.py
index a3fadc0..6f9f3ec 100644
--- a/gpkit/nomials/core.py
+++ b/gpkit/nomials/core.py
@@ -13,14 +13,12 @@ def nomial_latex_helper(c, pos_vars, neg_vars):
                 for (varl, x) in neg_vars]
     pvarstr = " ".join(sorted(pvarstrs))
     nvarstr = " ".join(sorted(nvarstrs))
-    cstr = "%.2g" % c
+    cstr = "%.4g" % c
     if pos_vars and cstr in ["1", "-1"]:
         cstr = cstr[:-1]
-    else:
-        cstr = "%.4g" % c
-        if "e" in cstr:  # use exponential notation
-            idx = cstr.index("e")
-            cstr = "%s \\times 10^{%i}" % (cstr[:idx], int(cstr[idx+1:]))
+    elif "e" in cstr:  # use exponential notation
+        idx = cstr.index("e")
+        cstr = "%s \\times 10^{%i}" % (cstr[:idx], int(cstr[idx+1:]))
 
     if pos_vars and neg_vars:
         return "%s\\frac{%s}{%s}" % (cstr, pvarstr, nvarstr)
-- 
2.43.0


From d08b22cc953c8ca1a03dd69e14b39e067e2c8c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 120/158] fix: models' LaTeX lists constraints within lists and
 dictionaries

---
 gpkit/constraints/set.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index bd58c25..320bfdd 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -248,15 +248,11 @@ class ConstraintSet(list, ReprMixin):
         lines = []
         root = "root" not in excluded
         if root:
-            excluded += ("root",)
+            excluded = tuple(excluded) + ("root",)
             lines.append("\\begin{array}{ll} \\text{}")
             if hasattr(self, "_rootlatex"):
                 lines.append(self._rootlatex(excluded))  # pylint: disable=no-member
-        for constraint in self:
-            cstr = try_str_without(constraint, excluded, latex=True)
-            if cstr[:6] != "    & ":  # require indentation
-                cstr = "    & " + cstr + " \\\\"
-            lines.append(cstr)
+        lines += recursively_latex(self, excluded)
         if root:
             lines.append("\\end{array}")
         return "\n".join(lines)
@@ -265,6 +261,23 @@ class ConstraintSet(list, ReprMixin):
         "Return a ConstraintSetView of this ConstraintSet."
         return ConstraintSetView(self)
 
+def recursively_latex(iterable, excluded):
+    "Generates LaTeX lines of the constraints in an iterable."
+    lines = []
+    for constraint in (iterable.values() if hasattr(iterable, "values")
+                       else iterable):
+        if hasattr(constraint, "latex"):
+            cstr = constraint.latex(excluded)
+            if cstr[:6] != "    & ":  # require indentation
+                cstr = "    & " + cstr + " \\\\"
+            lines.append(cstr)
+        elif isinstance(constraint, (list, tuple, dict, np.ndarray)):
+            lines += recursively_latex(constraint, excluded)
+        else:
+            lines.append("    & %s \\\\" % constraint)
+    return lines
+
+
 def recursively_line(iterable, excluded):
     "Generates lines in a recursive tree-like fashion, the better to indent."
     named_constraints = {}
-- 
2.43.0


From ace20c03b26673e9d8140a0bcb4595754b5d40f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 121/158] fix: large and small exponents in LaTeX are not in
 python's notation

---
 gpkit/nomials/core.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gpkit/nomials/core.py b/gpkit/nomials/core.py
index 6f9f3ec..6373fa1 100644
--- a/gpkit/nomials/core.py
+++ b/gpkit/nomials/core.py
@@ -4,13 +4,21 @@ from ..small_classes import Numbers, FixedScalar
 from ..repr_conventions import MUL, UNICODE_EXPONENTS
 
 
+def latex_exp(x):
+    "Returns the string of an exponent, without exponential notation"
+    xstr = "%.2g" % x
+    if "e" in xstr:
+        xstr = "%.0f" % x if x >= 1 else ("%.12f" % float(xstr)).rstrip("0")
+    return xstr
+
+
 def nomial_latex_helper(c, pos_vars, neg_vars):
     """Combines (varlatex, exponent) tuples,
     separated by positive vs negative exponent, into a single latex string."""
-    pvarstrs = ['%s^{%.2g}' % (varl, x) if "%.2g" % x != "1" else varl
-                for (varl, x) in pos_vars]
-    nvarstrs = ['%s^{%.2g}' % (varl, -x) if "%.2g" % -x != "1" else varl
-                for (varl, x) in neg_vars]
+    pvarstrs = ['%s^{%s}' % (varl, xstr) if xstr != "1" else varl
+                for (varl, xstr) in ((v, latex_exp(x)) for v, x in pos_vars)]
+    nvarstrs = ['%s^{%s}' % (varl, xstr) if xstr != "1" else varl
+                for (varl, xstr) in ((v, latex_exp(-x)) for v, x in neg_vars)]
     pvarstr = " ".join(sorted(pvarstrs))
     nvarstr = " ".join(sorted(nvarstrs))
     cstr = "%.4g" % c
-- 
2.43.0


From 3c048f02a6f458826bc3c83bf7264f5cd3f07b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 122/158] fix: lists of unbounded variables end only at a blank
 line

---
 gpkit/tools/docstring.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/gpkit/tools/docstring.py b/gpkit/tools/docstring.py
index 5105ca7..109d84b 100644
--- a/gpkit/tools/docstring.py
+++ b/gpkit/tools/docstring.py
@@ -18,16 +18,14 @@ def expected_unbounded(instance, doc):
             raise ValueError("multiple instances of %s" % flag)
 
         idx = doc.index(flag) + len(flag)
-        idx2 = doc[idx:].index("\n")
-        try:
-            idx3 = doc[idx:][idx2+1:].index("\n\n")
-        except ValueError:
-            idx3 = doc[idx:][idx2+1:].index("\n")
-        varstrs = doc[idx:][idx2+1:][:idx3].strip()
-        varstrs = varstrs.replace("\n", ", ")  # cross newlines
-        varstrs = re.sub(" +", " ", varstrs)   # multiple-whitespace removal
-        if varstrs:
-            for var in varstrs.split(", "):
+        varstrs = []
+        for line in doc[idx:].split("\n")[1:]:  # skipping the underline
+            if not line.strip():  # whitespace only
+                break
+            varstrs += line.split(",")
+        for var in varstrs:
+            var = re.sub(" +", " ", var.strip())  # remove repeated whitespace
+            if var:
                 if " (if " in var:  # it's a conditional!
                     var, condition = var.split(" (if ")
                     assert condition[-1] == ")"
-- 
2.43.0


From ce5b1ec0ff028300b5a9444c62143edca958e3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 123/158] fix: lines of docstrings repeated within it declare
 their own variables

---
 gpkit/tools/docstring.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gpkit/tools/docstring.py b/gpkit/tools/docstring.py
index 109d84b..97cdf03 100644
--- a/gpkit/tools/docstring.py
+++ b/gpkit/tools/docstring.py
@@ -150,7 +150,11 @@ def check_and_parse_flag(string, flag, declaration_func=None):
         else:
             skiplines = 2
         idx2 = 0 if "\n" in flag else string.index("\n")
-        for line in string[idx2:].split("\n")[skiplines:]:
+        # the (0-based) index of the flag's line
+        flagline = originalstr[:len(originalstr) - len(string)].count("\n")
+        for lineidx, line in enumerate(string[idx2:].split("\n")):
+            if lineidx < skiplines:
+                continue
             if not line.strip():  # whitespace only
                 break
             try:
@@ -168,13 +172,12 @@ def check_and_parse_flag(string, flag, declaration_func=None):
                     labelstart += 1
                 label = line[labelstart:].replace("'", "\\'")
             countstr += variable_declaration(nameval, units, label, line)
-            # note that this is a 0-based line indexing
-            lineidxs.append(originalstr[:originalstr.index(line)].count("\n"))
+            lineidxs.append(flagline + lineidx)
         if declaration_func is None:
             overallstr += countstr
         else:
             overallstr += declaration_func(string, flag, idx2, countstr)
-        string = string[idx2+len(flag):]
+        string = string[max(idx2, len(flag)):]
     return overallstr, lineidxs
 
 
-- 
2.43.0


From b0fc3d9da46065f5c36c3f1ffe7cb78c65aea8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 124/158] fix: variables' descriptions in docstrings may hold
 any text

---
 gpkit/tools/docstring.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/gpkit/tools/docstring.py b/gpkit/tools/docstring.py
index 97cdf03..d584a61 100644
--- a/gpkit/tools/docstring.py
+++ b/gpkit/tools/docstring.py
@@ -125,13 +125,16 @@ def parse_varstring(string):
 def vv_declare(string, flag, idx2, countstr):
     "Turns Variable declarations into VectorVariable ones"
     length = string[len(flag):idx2].strip()
-    return countstr.replace("Variable(", "VectorVariable(%s, " % length)
+    return re.sub(r"^(\S+ = \S+ = )Variable\(",  # only of the declarations
+                  lambda declared: (declared.group(1)
+                                    + "VectorVariable(%s, " % length),
+                  countstr, flags=re.MULTILINE)
 
 
 # pylint: disable=unused-argument
 def constant_declare(string, flag, idx2, countstr):
     "Turns Variable declarations into Constant ones"
-    return countstr.replace("')", "', constant=True)")
+    return re.sub(r"\)$", ", constant=True)", countstr, flags=re.MULTILINE)
 
 
 # pylint: disable=too-many-locals
@@ -165,12 +168,7 @@ def check_and_parse_flag(string, flag, declaration_func=None):
                                  "    %s" % line)
             nameval = line[:line.index("[")].split()
             labelstart = line.index("]") + 1
-            if labelstart >= len(line):
-                label = ""
-            else:
-                while line[labelstart] == " ":
-                    labelstart += 1
-                label = line[labelstart:].replace("'", "\\'")
+            label = line[labelstart:].strip()
             countstr += variable_declaration(nameval, units, label, line)
             lineidxs.append(flagline + lineidx)
         if declaration_func is None:
@@ -194,9 +192,9 @@ def variable_declaration(nameval, units, label, line, errorcatch=True):
                          " '%s' and the Units `%s`. %s"
                          % (line, nameval[1], units, PARSETIP))
     if len(nameval) == 2:
-        out = ("{0} = self.{0} = Variable('{0}', {1}, '{2}', '{3}')")
+        out = ("{0} = self.{0} = Variable('{0}', {1}, {2!r}, {3!r})")
         out = out.format(nameval[0], nameval[1], units, label)
     elif len(nameval) == 1:
-        out = ("{0} = self.{0} = Variable('{0}', '{1}', '{2}')")
+        out = ("{0} = self.{0} = Variable('{0}', {1!r}, {2!r})")
         out = out.format(nameval[0], units, label)
     return out + "\n"
-- 
2.43.0


From 167a75c3807e0674126c0d5c5902517a90b1c6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 125/158] fix: equalities of a single variable bound it

---
 gpkit/nomials/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index e0cdc72..7ef785d 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -530,7 +530,7 @@ class MonomialEquality(PosynomialInequality):
         self.bounded = set()
         self.meq_bounded = {}
         self._las = []
-        if self.unsubbed and len(self.vks) > 1:
+        if self.unsubbed:
             exp, = self.unsubbed[0].hmap
             for key, e in exp.items():
                 s_e = np.sign(e)
-- 
2.43.0


From 762fecf3c056a578f2b4a0d2c82de4d33dfa2456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 126/158] fix: bounds of others' variables do not stand in for
 a model's own

---
 gpkit/constraints/model.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 27fc143..f4e62c1 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -111,12 +111,11 @@ class Model(CostedConstraintSet):
             self.missingbounds[bound] = (", but would gain it from any of"
                                          " these sets of bounds: " + bsets)
         # then add everything that's not in bounded
-        if len(bounded)+len(self.missingbounds) != 2*len(self.varkeys):
-            for key in self.varkeys:
-                for bound in ("upper", "lower"):
-                    if (key, bound) not in bounded:
-                        if (key, bound) not in self.missingbounds:
-                            self.missingbounds[(key, bound)] = ""
+        for key in self.varkeys:
+            for bound in ("upper", "lower"):
+                if (key, bound) not in bounded:
+                    if (key, bound) not in self.missingbounds:
+                        self.missingbounds[(key, bound)] = ""
         if self.missingbounds:  # anything unbounded? err!
             boundstrs = "\n".join("  %s has no %s bound%s" % (v, b, x)
                                   for (v, b), x
-- 
2.43.0


From 5da8639404cd4ddace6acd1a4d9ba44b930826e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:08 +0000
Subject: [PATCH 127/158] fix: setups beginning with a comment declare their
 docstring's variables

---
 gpkit/tools/docstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/tools/docstring.py b/gpkit/tools/docstring.py
index d584a61..1d700a4 100644
--- a/gpkit/tools/docstring.py
+++ b/gpkit/tools/docstring.py
@@ -85,7 +85,7 @@ parse_variables is no longer used directly with exec, but as a decorator:
             setup_lines += 1
         next_indented_idx = setup_lines + 1
         # get the next indented line
-        while len(orig_lines[next_indented_idx]) <= indent_length + 1:
+        while orig_lines[next_indented_idx].strip()[:1] in ("", "#"):
             next_indented_idx += 1
         while orig_lines[next_indented_idx][indent_length] in [" ", "\t"]:
             indent_length += 1
-- 
2.43.0


From 829ec6bc3cd99188617b321520407572c0a62a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:08 +0000
Subject: [PATCH 128/158] fix: docstrings longer than what precedes a setup can
 be parsed

---
 gpkit/tools/docstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/tools/docstring.py b/gpkit/tools/docstring.py
index 1d700a4..75e5598 100644
--- a/gpkit/tools/docstring.py
+++ b/gpkit/tools/docstring.py
@@ -100,7 +100,7 @@ parse_variables is no longer used directly with exec, but as a decorator:
         new_src = "\n".join([l[first_indent_length:-1] for l in new_lines
                              if "#" not in l[:first_indent_length]])
         new_ast = ast.parse(new_src, "<parse_variables>")
-        ast.increment_lineno(new_ast, n=lineno-len(parse_lines))
+        ast.increment_lineno(new_ast, n=max(lineno-len(parse_lines), 0))
         code = compile(new_ast, inspect.getsourcefile(function), "exec",
                        dont_inherit=True)  # don't inherit __future__ from here
         out = {}
-- 
2.43.0


From f87d413c465430e7a2ea4fde095ac99e1153df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 129/158] fix: mosek_cli can be used repeatedly, and leaves no
 temporary files after failures

---
 gpkit/solvers/mosek_cli.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/gpkit/solvers/mosek_cli.py b/gpkit/solvers/mosek_cli.py
index 32e25d1..51d685b 100644
--- a/gpkit/solvers/mosek_cli.py
+++ b/gpkit/solvers/mosek_cli.py
@@ -32,10 +32,6 @@ def optimize_generator(path=None, **_):
         The directory in which to put the MOSEK CLI input/output files.
         By default uses a system-appropriate temp directory.
     """
-    tmpdir = path is None
-    if tmpdir:
-        path = tempfile.mkdtemp()
-    filename = path + os.sep + "gpkit_mosek"
     if "mosek_bin_dir" in settings:
         if settings["mosek_bin_dir"] not in os.environ["PATH"]:
             os.environ["PATH"] += ":" + settings["mosek_bin_dir"]
@@ -78,6 +74,17 @@ def optimize_generator(path=None, **_):
             If the format of mskexpopt's output file is unexpected.
 
         """
+        if path is not None:
+            return _optimize(path + os.sep + "gpkit_mosek", c, A, p_idxs)
+        tmpdir = tempfile.mkdtemp()
+        try:
+            return _optimize(tmpdir + os.sep + "gpkit_mosek", c, A, p_idxs)
+        finally:
+            shutil.rmtree(tmpdir, ignore_errors=False,
+                          onerror=remove_read_only)
+
+    def _optimize(filename, c, A, p_idxs):
+        "Runs mskexpopt with `filename` as prefix for its input/output files."
         write_output_file(filename, c, A, p_idxs)
 
         # run mskexpopt and print stdout
@@ -114,9 +121,6 @@ def optimize_generator(path=None, **_):
             assert_equal(f.readline(), "INDEX   ACTIVITY")
             dual_vals = read_vals(f)
 
-        if tmpdir:
-            shutil.rmtree(path, ignore_errors=False, onerror=remove_read_only)
-
         return dict(status=solsta[:-1],
                     objective=objective_val,
                     primal=primal_vals,
-- 
2.43.0


From b724706376023a41a1e2066c94412a02889a148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:21 +0000
Subject: [PATCH 130/158] fix: mosek_cli never reads the solution file of an
 earlier solve

---
 gpkit/solvers/mosek_cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/solvers/mosek_cli.py b/gpkit/solvers/mosek_cli.py
index 51d685b..dcbee6d 100644
--- a/gpkit/solvers/mosek_cli.py
+++ b/gpkit/solvers/mosek_cli.py
@@ -89,6 +89,8 @@ def optimize_generator(path=None, **_):
 
         # run mskexpopt and print stdout
         solution_filename = filename + ".sol"
+        if os.path.exists(solution_filename):  # from an earlier solve
+            os.remove(solution_filename)
         try:
             for logline in check_output(["mskexpopt", filename, "-sol",
                                          solution_filename]).split(b"\n"):
-- 
2.43.0


From a8f6bf0f12df5f1785bed816548023ce64f72805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:21 +0000
Subject: [PATCH 131/158] fix: mosek_cli refuses solution files with missing or
 extra variables

---
 gpkit/solvers/mosek_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/solvers/mosek_cli.py b/gpkit/solvers/mosek_cli.py
index dcbee6d..009adab 100644
--- a/gpkit/solvers/mosek_cli.py
+++ b/gpkit/solvers/mosek_cli.py
@@ -122,6 +122,10 @@ def optimize_generator(path=None, **_):
             assert_equal(f.readline(), "DUAL VARIABLES")
             assert_equal(f.readline(), "INDEX   ACTIVITY")
             dual_vals = read_vals(f)
+        if [len(dual_vals), len(primal_vals)] != list(A.shape):
+            raise RuntimeWarning("could not read mskexpopt output file: %i"
+                                 " primal and %i dual variables were found"
+                                 % (len(primal_vals), len(dual_vals)))
 
         return dict(status=solsta[:-1],
                     objective=objective_val,
-- 
2.43.0


From 1c7e2e0f462a52d1612cd2b21e6a67061b0b5442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:21 +0000
Subject: [PATCH 132/158] fix: mosek_cli finds mskexpopt when another
 directory's name starts like its own

---
 gpkit/solvers/mosek_cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/solvers/mosek_cli.py b/gpkit/solvers/mosek_cli.py
index 009adab..214bc02 100644
--- a/gpkit/solvers/mosek_cli.py
+++ b/gpkit/solvers/mosek_cli.py
@@ -33,8 +33,9 @@ def optimize_generator(path=None, **_):
         By default uses a system-appropriate temp directory.
     """
     if "mosek_bin_dir" in settings:
-        if settings["mosek_bin_dir"] not in os.environ["PATH"]:
-            os.environ["PATH"] += ":" + settings["mosek_bin_dir"]
+        pathdirs = os.environ["PATH"].split(os.pathsep)
+        if settings["mosek_bin_dir"] not in pathdirs:
+            os.environ["PATH"] += os.pathsep + settings["mosek_bin_dir"]
 
     def optimize(*, c, A, p_idxs, **_):
         """Interface to the MOSEK "mskexpopt" command line solver
-- 
2.43.0


From 024ef851594386b6008c18aae1ed26cfa118b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:27 +0000
Subject: [PATCH 133/158] fix: secant expansions are exact beyond twelve terms

---
 gpkit/tools/tools.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/gpkit/tools/tools.py b/gpkit/tools/tools.py
index 7c7750f..707391c 100644
--- a/gpkit/tools/tools.py
+++ b/gpkit/tools/tools.py
@@ -41,23 +41,26 @@ def te_secant(var, nterm):
         Taylor expansion of secant(x), carried to nterm terms
     """
     # The first 12 Euler Numbers
-    E2n = np.asarray([1.0,
-                      5,
-                      61,
-                      1385,
-                      50521,
-                      2702765,
-                      199360981,
-                      19391512145,
-                      2404879675441,
-                      370371188237525,
-                      69348874393137901,
-                      15514534163557086905])
-    if nterm > 12:
-        n_extend = np.asarray(range(13, nterm+1))
-        E2n_add = (8 * np.sqrt(n_extend/np.pi)
-                   * (4*n_extend/(np.pi * np.exp(1)))**(2*n_extend))
-        E2n = np.append(E2n, E2n_add)
+    E2n = [1,
+           5,
+           61,
+           1385,
+           50521,
+           2702765,
+           199360981,
+           19391512145,
+           2404879675441,
+           370371188237525,
+           69348874393137901,
+           15514534163557086905]
+    for n in range(13, nterm+1):
+        # from cos(x)*sec(x) = 1:  sum_k (-1)^k binomial(2n, 2k) E2k = 0
+        binomial, E2n_next = 1, 0
+        for k in range(n):
+            E2k = E2n[k-1] if k else 1
+            E2n_next -= (-1)**(n-k) * binomial * E2k
+            binomial = binomial*(2*n-2*k)*(2*n-2*k-1)//((2*k+1)*(2*k+2))
+        E2n.append(E2n_next)
 
     res = 1
     factorial_denom = 1
-- 
2.43.0


From 30084bdff3b5fdbf716bc854a2f216824d3bbc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:11 +0000
Subject: [PATCH 134/158] fix: sankey diagrams include the constants of labeled
 models

---
 gpkit/interactive/sankey.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/interactive/sankey.py b/gpkit/interactive/sankey.py
index 24c7f28..a1b8e7b 100644
--- a/gpkit/interactive/sankey.py
+++ b/gpkit/interactive/sankey.py
@@ -94,8 +94,9 @@ class Sankey:
         "adds links of a given constraint set to self.links"
         total_sens = 0
         switchedtarget = False
-        if not labeled and isnamedmodel(cset):
-            if cset is not self.cset:  # top-level, no need to switch targets
+        if isnamedmodel(cset):
+            if not labeled and cset is not self.cset:
+                # if top-level or labeled, no need to switch targets
                 switchedtarget = target
                 target = self.add_node(target, cset.lineage[-1][0])
             if var is None:
-- 
2.43.0


From 9cbf2ef8402123212f4088ad181941f9aee03537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:11 +0000
Subject: [PATCH 135/158] fix: each sankey diagram starts without the links of
 earlier ones

---
 gpkit/interactive/sankey.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/interactive/sankey.py b/gpkit/interactive/sankey.py
index a1b8e7b..a7d4796 100644
--- a/gpkit/interactive/sankey.py
+++ b/gpkit/interactive/sankey.py
@@ -153,6 +153,10 @@ class Sankey:
         self.minsenss = minsenss
         self.maxlinks = maxlinks
         self.showconstraints = showconstraints
+        self.links.clear()
+        self.links_to_target.clear()
+        self.nodes.clear()
+        self.last_top_node = None
 
         for key in self.solution.name_collision_varkeys():
             key.descr["necessarylineage"] = True
-- 
2.43.0


From 76c9d6b95b12a889caf611e3435b5c2fc90d8382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:11 +0000
Subject: [PATCH 136/158] fix: sankey autosaves' filenames have no directory
 separators

---
 gpkit/interactive/sankey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/interactive/sankey.py b/gpkit/interactive/sankey.py
index a7d4796..dec2f4e 100644
--- a/gpkit/interactive/sankey.py
+++ b/gpkit/interactive/sankey.py
@@ -27,7 +27,7 @@ def getcolor(value):
 
 def cleanfilename(string):
     "Parses string into valid filename"
-    return re.sub(r"\\/?|\"><:\*", "_", string)  # Replace invalid with _
+    return re.sub(r"[\\/?|\"><:*]", "_", string)  # Replace invalid with _
 
 
 # pylint: disable=too-many-instance-attributes
-- 
2.43.0


From 9e715676c06823c37243d5d50773de19b641401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 137/158] fix: numbers with units set on part of a vector lost
 their units

---
 gpkit/keydict.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 9ffce5c..79265dd 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -205,7 +205,11 @@ class KeyDict(KeyMap, dict):
             if not hasattr(key, "shape"):
                 raise e
             if not hasattr(value, "shape"):
-                value = np.full(key.shape, value)
+                given, value = value, np.empty(key.shape, "object")
+                if isinstance(given, (list, tuple)) and not is_sweepvar(given):
+                    value[...] = given
+                else:  # np.full would take units off
+                    value.fill(given)
             elif key.shape != value.shape:
                 raise KeyError("Key and value have different shapes") from e
             for subkey, subval in zip(key.flat, value.flat):
-- 
2.43.0


From 44fca43730f42bedbf427670ae58c6364448c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 138/158] fix: a list could not be set on a vector of one
 element by its name

---
 gpkit/keydict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 79265dd..07b896b 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -81,6 +81,8 @@ class KeyMap:
             raise ValueError("%s refers to multiple keys in this substitutions"
                              " KeyDict. Use `.variables_byname(%s)` to see all"
                              " of them." % (key, key))
+        if newkey.idx and key in newkey.veckey.keys:
+            return newkey.veckey, None  # the name of a one-element vector
         if self.collapse_arrays and newkey.idx:
             return newkey.veckey, newkey.idx
         return newkey, None
-- 
2.43.0


From fcbb33e0545ad8bdcadb983fb92716ad3dfb5764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:30 +0000
Subject: [PATCH 139/158] fix: expressions of several variables could not be
 plotted over a sweep

---
 gpkit/interactive/plot_sweep.py | 10 ++++++++++
 gpkit/solution_array.py         |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/gpkit/interactive/plot_sweep.py b/gpkit/interactive/plot_sweep.py
index a2d34fe..3e10e0c 100644
--- a/gpkit/interactive/plot_sweep.py
+++ b/gpkit/interactive/plot_sweep.py
@@ -1,6 +1,16 @@
 "Implements plot_sweep1d function"
 import matplotlib.pyplot as plt
 from ..exceptions import InvalidGPConstraint
+from ..small_scripts import mag
+
+
+def plottable(values):
+    "Returns numbers for what a solution gave for an expression"
+    if hasattr(values, "hmap"):
+        return mag(values.value)
+    if getattr(getattr(values, "dtype", None), "kind", None) == "O":
+        return [mag(getattr(value, "value", value)) for value in values]
+    return values
 
 
 def assign_axes(var, posys, axes):
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 0569015..05a132a 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -750,13 +750,13 @@ class SolutionArray(DictOfLists):
         if not hasattr(posys, "__len__"):
             posys = [posys]
         import matplotlib.pyplot as plt
-        from .interactive.plot_sweep import assign_axes
+        from .interactive.plot_sweep import assign_axes, plottable
         from . import GPBLU
         (swept, x), = self["sweepvariables"].items()
         posys, axes = assign_axes(swept, posys, axes)
         for posy, ax in zip(posys, axes):
             y = self(posy) if posy not in [None, "cost"] else self["cost"]
-            ax.plot(x, y, color=GPBLU)
+            ax.plot(x, plottable(y), color=GPBLU)
         if len(axes) == 1:
             axes, = axes
         return plt.gcf(), axes
-- 
2.43.0


From 834bec59d381b734d9469376deafd000027b042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:30 +0000
Subject: [PATCH 140/158] fix: plots took a name given alone as a list of
 letters, and changed lists given

---
 gpkit/interactive/plot_sweep.py | 14 +++++++++-----
 gpkit/interactive/plotting.py   |  3 ++-
 gpkit/solution_array.py         |  2 --
 gpkit/tools/autosweep.py        |  5 ++---
 4 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/gpkit/interactive/plot_sweep.py b/gpkit/interactive/plot_sweep.py
index 3e10e0c..1bc6c7c 100644
--- a/gpkit/interactive/plot_sweep.py
+++ b/gpkit/interactive/plot_sweep.py
@@ -4,6 +4,13 @@ from ..exceptions import InvalidGPConstraint
 from ..small_scripts import mag
 
 
+def listify(posys):
+    "Returns a new list of the things to be plotted"
+    if isinstance(posys, str) or not hasattr(posys, "__len__"):
+        return [posys]
+    return list(posys)
+
+
 def plottable(values):
     "Returns numbers for what a solution gave for an expression"
     if hasattr(values, "hmap"):
@@ -15,8 +22,7 @@ def plottable(values):
 
 def assign_axes(var, posys, axes):
     "Assigns axes to posys, creating and formatting if necessary"
-    if not hasattr(posys, "__iter__"):
-        posys = [posys]
+    posys = listify(posys)
     N = len(posys)
     if axes is None:
         _, axes = plt.subplots(N, 1, sharex="col", figsize=(4.5, 3+1.5*N))
@@ -73,9 +79,7 @@ def plot_1dsweepgrid(model, sweeps, posys, origsol=None, tol=0.01, **solveargs):
             origsol = model.solve(**solveargs)
         except InvalidGPConstraint:
             origsol = model.localsolve(**solveargs)
-    if not hasattr(posys, "__iter__"):
-        posys = [posys]
-
+    posys = listify(posys)
     N, S = len(posys), len(sweeps)
     f, axes = plt.subplots(N, S, sharex='col', sharey='row',
                            figsize=(4+2*S, 4+2*N))
diff --git a/gpkit/interactive/plotting.py b/gpkit/interactive/plotting.py
index ee2d6b5..5dbfb74 100644
--- a/gpkit/interactive/plotting.py
+++ b/gpkit/interactive/plotting.py
@@ -21,7 +21,8 @@ def compare(models, sweeps, posys, tol=0.001):
     posys, axes = assign_axes(sols[0].bst.sweptvar, posys, None)
     for posy, ax in zip(posys, axes):
         for i, sol in enumerate(sols):
-            if hasattr(posy, "__len__") and len(posy) == len(sols):
+            if (hasattr(posy, "__len__") and not isinstance(posy, str)
+                    and len(posy) == len(sols)):
                 p = posy[i]
             else:
                 p = posy
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 05a132a..36b33c8 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -747,8 +747,6 @@ class SolutionArray(DictOfLists):
         "Plots a sweep for each posy"
         if len(self["sweepvariables"]) != 1:
             print("SolutionArray.plot only supports 1-dimensional sweeps")
-        if not hasattr(posys, "__len__"):
-            posys = [posys]
         import matplotlib.pyplot as plt
         from .interactive.plot_sweep import assign_axes, plottable
         from . import GPBLU
diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 54d2f36..ce967f5 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -203,10 +203,9 @@ class SolutionOracle:
     def plot(self, posys=None, axes=None):
         "Plots the sweep for each posy"
         import matplotlib.pyplot as plt
-        from ..interactive.plot_sweep import assign_axes
+        from ..interactive.plot_sweep import assign_axes, listify
         from .. import GPBLU
-        if not hasattr(posys, "__len__"):
-            posys = [posys]
+        posys = listify(posys)
         for i, posy in enumerate(posys):
             if posy in [None, "cost"]:
                 posys[i] = self.bst.costposy
-- 
2.43.0


From f35fd8f5496231460f10e90a310d07296d320e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:30 +0000
Subject: [PATCH 141/158] fix: grids of sweeps by name, of the cost, or also
 over free variables raised errors

---
 gpkit/interactive/plot_sweep.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gpkit/interactive/plot_sweep.py b/gpkit/interactive/plot_sweep.py
index 1bc6c7c..8c7c174 100644
--- a/gpkit/interactive/plot_sweep.py
+++ b/gpkit/interactive/plot_sweep.py
@@ -72,6 +72,8 @@ def plot_1dsweepgrid(model, sweeps, posys, origsol=None, tol=0.01, **solveargs):
     f, _ = plot_sweep_1d(m, {'x': np.linspace(1, 2, 5)}, 'y')
     f.savefig('mysweep.png')
     """
+    sweeps = {next(iter(model.varkeys[k])) if isinstance(k, str) else k: v
+              for k, v in sweeps.items()}
     origsubs = {swept: model.substitutions[swept] for swept in sweeps
                 if swept in model.substitutions}
     if origsubs and not origsol:
@@ -102,9 +104,11 @@ def plot_1dsweepgrid(model, sweeps, posys, origsol=None, tol=0.01, **solveargs):
             subaxes = axes[:, i]
 
         sol.plot(posys, subaxes)
-        if origsubs:
+        if swept in origsubs:
             for posy, ax in zip(posys, subaxes):
-                ax.plot(origsubs[swept], origsol(posy), "ko", markersize=4)
+                y = (origsol["cost"] if posy is None or isinstance(posy, str)
+                     and posy == "cost" else plottable(origsol(posy)))
+                ax.plot(origsubs[swept], y, "ko", markersize=4)
         format_and_label_axes(swept, posys, subaxes, ylabel=(i == 0))
         model.substitutions.update(origsubs)
 
-- 
2.43.0


From fe1116c8e6ba78886eba1548ecde3d5c172dfa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:08 +0000
Subject: [PATCH 142/158] fix: plots of convergence showed the final cost at
 every iteration

---
 gpkit/interactive/plotting.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/gpkit/interactive/plotting.py b/gpkit/interactive/plotting.py
index 5dbfb74..37a895f 100644
--- a/gpkit/interactive/plotting.py
+++ b/gpkit/interactive/plotting.py
@@ -51,16 +51,12 @@ def plot_convergence(model):
     """
     fig, ax = plt.subplots()
 
-    it = np.array([])
-    cost = np.array([])
-    for n in range(len(model.program.gps)):
-        try:
-            cost = np.append(cost, model.program.gps[n].result['cost'])
-            it = np.append(it, n+1)
-        except TypeError:
-            pass
+    # the program's gps may all be one object, updated at each iteration
+    cost = np.array([float(solver_out["objective"])
+                     for solver_out in model.program.solver_outs])
+    it = np.arange(1, len(cost)+1)
     ax.plot(it, cost, '-o')
     ax.set_xlabel('Iteration')
     ax.set_ylabel('Cost')
-    ax.set_xticks(range(1, len(model.program.gps)+1))
+    ax.set_xticks(it)
     return fig, ax
-- 
2.43.0


From 18ef36ec9a0dad13549b5c4a20dda1e36e70134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:08 +0000
Subject: [PATCH 143/158] fix: a variable's key alone could not be plotted

---
 gpkit/interactive/plot_sweep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/interactive/plot_sweep.py b/gpkit/interactive/plot_sweep.py
index 8c7c174..1be0e3f 100644
--- a/gpkit/interactive/plot_sweep.py
+++ b/gpkit/interactive/plot_sweep.py
@@ -6,7 +6,8 @@ from ..small_scripts import mag
 
 def listify(posys):
     "Returns a new list of the things to be plotted"
-    if isinstance(posys, str) or not hasattr(posys, "__len__"):
+    if (isinstance(posys, str) or hasattr(posys, "hmap")
+            or hasattr(posys, "veckey") or not hasattr(posys, "__len__")):
         return [posys]
     return list(posys)
 
-- 
2.43.0


From ceb8be8e7fe728fae99680830b487d0f9e58a932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 144/158] fix: plots over a swept element of a vector had lines
 for its other elements

---
 gpkit/solution_array.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 36b33c8..5a2da42 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -751,6 +751,11 @@ class SolutionArray(DictOfLists):
         from .interactive.plot_sweep import assign_axes, plottable
         from . import GPBLU
         (swept, x), = self["sweepvariables"].items()
+        if np.ndim(x) > 1:  # just the vector's elements that were swept
+            x = np.reshape(x, (len(x), -1))
+            unswept = (x == x[0]).all(axis=0) | np.isnan(x).any(axis=0)
+            if not unswept.all():
+                x = x[:, ~unswept]
         posys, axes = assign_axes(swept, posys, axes)
         for posy, ax in zip(posys, axes):
             y = self(posy) if posy not in [None, "cost"] else self["cost"]
-- 
2.43.0


From b32b7810c0cdd4016cdec9190a8a72316b034eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 145/158] fix: linked functions of plain numbers could not use
 several linked variables

---
 gpkit/constraints/prog_factories.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index a42d972..06e8582 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -46,11 +46,17 @@ def evaluate_linked(constants, linked):
                 from .. import settings
                 if settings.get("ad_errors_raise", None):
                     raise
+                try:
+                    value = in_units_of(v, f(KeyDict(constants)))
+                except KeyError:
+                    if len(pending) == 1:
+                        raise
+                    waiting[v] = f
+                    continue
                 print("Warning: skipped auto-differentiation of linked variable"
                       " %s because %s was raised. Set `gpkit.settings"
                       "[\"ad_errors_raise\"] = True` to raise such Exceptions"
                       " directly.\n" % (v, repr(exception)))
-                value = in_units_of(v, f(KeyDict(constants)))
                 out = adnumber(maybe_flatten(value), v)
             if len(pending) > 1 and isnan(value).any():
                 waiting[v] = f  # for part of a vector
-- 
2.43.0


From 14035da99731fddab7d815af38e34efead6024c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 146/158] fix: reducing an array of numpy numbers along an axis
 raised an AttributeError

---
 gpkit/nomials/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index 8305779..7edcb4c 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -145,7 +145,7 @@ class NomialArray(ReprMixin, np.ndarray):
         if out_arr.ndim:
             return np.ndarray.__array_wrap__(self, out_arr, context)  # pylint: disable=too-many-function-args
         val = out_arr.item()
-        return np.float(val) if isinstance(val, np.generic) else val
+        return float(val) if isinstance(val, np.generic) else val
 
     __eq__ = array_constraint("=", eq)
     __le__ = array_constraint("<=", le)
-- 
2.43.0


From 2c71a7e74a07a999983ee2e28ad09b256cb2a5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 147/158] fix: sums of arrays which hold zeros or quantities
 had wrong units or raised

---
 gpkit/nomials/array.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index 7edcb4c..4b6e74f 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -10,7 +10,7 @@ from operator import eq, le, ge, xor
 from functools import reduce  # pylint: disable=redefined-builtin
 import numpy as np
 from .map import NomialMap
-from ..small_classes import HashVector, EMPTY_HV
+from ..small_classes import HashVector, EMPTY_HV, qty
 from ..small_scripts import try_str_without
 from ..constraints import ArrayConstraint
 from ..repr_conventions import ReprMixin
@@ -170,9 +170,14 @@ class NomialArray(ReprMixin, np.ndarray):
         if args or kwargs or not self.shape:
             return np.ndarray.sum(self, *args, **kwargs)
         hmap = NomialMap()
-        for p in self.flat:  # pylint:disable=not-an-iterable
+        # like elsewhere, zeros may be added to anything
+        nonzero = [p for p in self.flat if hasattr(p, "hmap") or p]
+        if not nonzero:
+            return np.ndarray.sum(self)
+        for p in nonzero:
             if not hmap and hasattr(p, "units"):
-                hmap.units = p.units
+                hmap.units = (p.units if hasattr(p, "hmap")
+                              else qty(p.units))
             if hasattr(p, "hmap"):
                 hmap += p.hmap
             else:
-- 
2.43.0


From 36a13212521276d6ca26c08dde95eda283d263a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:12 +0000
Subject: [PATCH 148/158] fix: sensitivities of signomial equalities and
 repeated constraints were of one half

---
 gpkit/constraints/gp.py  | 12 +++++++++++-
 gpkit/constraints/sgp.py |  1 +
 gpkit/nomials/math.py    |  3 ++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 69d9b6b..ee5f4e0 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -3,6 +3,7 @@ import sys
 import warnings
 from time import time
 from collections import defaultdict
+from itertools import chain
 import numpy as np
 from ..repr_conventions import lineagestr
 from ..small_classes import CootMatrix, SolverLog, Numbers, FixedScalar
@@ -312,6 +313,7 @@ class GeometricProgram:
         result["variables"] = KeyDict(result["freevariables"])
         result["variables"].update(result["constants"])
         result["sensitivities"] = {"constraints": {}}
+        all_senss, all_v_ss = result["sensitivities"]["constraints"], {}
         la, self.nu_by_posy = self._generate_nula(solver_out)
         # substitution may have merged or reordered the cost's monomials
         cost_nu = np.zeros(len(self.cost.hmap))
@@ -331,9 +333,17 @@ class GeometricProgram:
             v_ss, c_senss = c.sens_from_dual(las, nus, result)
             for vk, x in v_ss.items():
                 gpv_ss[vk] = x + gpv_ss.get(vk, 0)
+            c_senss = c_senss*getattr(c, "direction", 1)
             while getattr(c, "generated_by", None):
                 c = c.generated_by
-            result["sensitivities"]["constraints"][c] = abs(c_senss)
+            if c in all_senss:  # repeated, or the other half of an equality
+                c_senss += all_senss[c]
+                v_ss = {vk: v_ss.get(vk, 0) + all_v_ss[c].get(vk, 0)
+                        for vk in chain(v_ss, all_v_ss[c])}
+                c.v_ss = v_ss
+            all_senss[c], all_v_ss[c] = c_senss, v_ss
+        for c, c_senss in all_senss.items():
+            all_senss[c] = abs(c_senss)
             m_senss[lineagestr(c)] += abs(c_senss)
         # add fixed variables sensitivities to models
         for vk, senss in gpv_ss.items():
diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 22b7d80..2adc06f 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -94,6 +94,7 @@ solutions and can be solved with 'Model.solve()'.""")
         for cs, hmaplt1 in self._approximations(x0):
             constraint = (Posynomial(hmaplt1) <= self.slack)
             constraint.generated_by = cs
+            constraint.direction = getattr(hmaplt1, "direction", 1)
             self.approxconstraints.append(constraint)
             self.sgpvks.update(constraint.vks)
         self._gp = GeometricProgram(
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 7ef785d..3775020 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -551,8 +551,9 @@ class MonomialEquality(PosynomialInequality):
     def as_hmapslt1(self, substitutions):
         "Tags posynomials for dual feasibility checking"
         out = super().as_hmapslt1(substitutions)
-        for h in out:
+        for h, direction in zip(out, (1, -1)):
             h.from_meq = True  # pylint: disable=attribute-defined-outside-init
+            h.direction = direction  # pylint: disable=attribute-defined-outside-init
         if out:  # begin again at the first of these
             out[0].dualstate["_las"] = []
         return out
-- 
2.43.0


From d241eb6a77c2626bd47d298eb199aefde3583ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:12 +0000
Subject: [PATCH 149/158] fix: sensitivities of converged local solves counted
 their slack

---
 gpkit/constraints/sgp.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 2adc06f..5e9ef79 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -9,6 +9,7 @@ from ..keydict import KeyDict, clean_value
 from ..nomials import Variable, parse_subs
 from .gp import GeometricProgram
 from ..nomials import PosynomialInequality, Posynomial
+from ..repr_conventions import lineagestr
 from .. import NamedVariables
 
 
@@ -62,6 +63,7 @@ class SequentialGeometricProgram:
             self.slack = 1
         else:
             self.gpconstraints.append(self.slack >= 1)
+            self.gpconstraints[0].lineage = self.slack.key.lineage
         cost *= self.slack**pccp_penalty
         self.cost, self.checkbounds = cost, checkbounds
         self.sgpvks = set()
@@ -203,9 +205,11 @@ solutions and can be solved with 'Model.solve()'.""")
             if excess_slack <= EPS:
                 del self.result["freevariables"][self.slack.key]  # pylint: disable=no-member
                 del self.result["variables"][self.slack.key]  # pylint: disable=no-member
-                del self.result["sensitivities"]["variables"][self.slack.key]  # pylint: disable=no-member
-                slackconstraint = self.gpconstraints[0]
-                del self.result["sensitivities"]["constraints"][slackconstraint]
+                senss = self.result["sensitivities"]
+                del senss["variables"][self.slack.key]  # pylint: disable=no-member
+                del senss["cost"][self.slack.key]  # pylint: disable=no-member
+                del senss["constraints"][self.gpconstraints[0]]
+                del senss["models"][lineagestr(self.slack.key)]  # pylint: disable=no-member
             elif verbosity > -1:
                 pywarnings.warn(
                     "Final solution let signomial constraints slacken by"
-- 
2.43.0


From d978ed33fa38e2b11340f83a8c85c8ececd50011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:42 +0000
Subject: [PATCH 150/158] fix: localsolve passes use_pccp and pccp_penalty on
 to its program

---
 gpkit/constraints/model.py          |  3 ++-
 gpkit/constraints/prog_factories.py | 15 +++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index f4e62c1..224b4de 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -78,7 +78,8 @@ class Model(CostedConstraintSet):
     solve = solvify(progify(GeometricProgram, "solve"))
 
     sp = progify(SequentialGeometricProgram)
-    localsolve = solvify(progify(SequentialGeometricProgram, "localsolve"))
+    localsolve = solvify(progify(SequentialGeometricProgram, "localsolve"),
+                         "use_pccp", "pccp_penalty")
 
     def verify_docstring(self):  # pylint:disable=too-many-locals,too-many-branches,too-many-statements
         "Verifies docstring bounds are sufficient but not excessive."
diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 06e8582..9d37478 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -1,5 +1,6 @@
 "Scripts for generating, solving and sweeping programs"
 from time import time
+from functools import partial
 import numpy as np
 from ad import adnumber
 from ..nomials import parse_subs
@@ -104,8 +105,11 @@ def progify(program, return_attr=None):
     return programfn
 
 
-def solvify(genfunction):
-    "Returns function for making/solving/sweeping a program."
+def solvify(genfunction, *initargnames):
+    """Returns function for making/solving/sweeping a program.
+
+    Arguments named in `initargnames` are used to make it, others to solve it.
+    """
     def solvefn(self, solver=None, *, verbosity=1, skipsweepfailures=False,
                 **solveargs):
         """Forms a mathematical program and attempts to solve it.
@@ -132,15 +136,18 @@ def solvify(genfunction):
          RuntimeWarning if an error occurs in solving or parsing the solution.
          """
         constants, sweep, linked = parse_subs(self.varkeys, self.substitutions)
+        generate = partial(genfunction, **{name: solveargs.pop(name)
+                                           for name in initargnames
+                                           if name in solveargs})
         solution = SolutionArray()
         solution.modelstr = str(self)
 
         # NOTE SIDE EFFECTS: self.program and self.solution set below
         if sweep:
-            run_sweep(genfunction, self, solution, skipsweepfailures,
+            run_sweep(generate, self, solution, skipsweepfailures,
                       constants, sweep, linked, solver, verbosity, **solveargs)
         else:
-            self.program, progsolve = genfunction(self)
+            self.program, progsolve = generate(self)
             result = progsolve(solver, verbosity=verbosity, **solveargs)
             if solveargs.get("process_result", True):
                 self.process_result(result)
-- 
2.43.0


From f924f21caf27c9fd2aad9ffd1ef4796411ecd9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:10 +0000
Subject: [PATCH 151/158] fix: a name several variables share is refused, not
 taken as None, in substitutions

Scalars have no veckey, so all of them compared equal and the key became
None; setting it failed with an AttributeError and left the dictionary unusable.
---
 gpkit/keydict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 07b896b..acfbb92 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -76,7 +76,8 @@ class KeyMap:
             raise KeyError(key)
         newkey, *otherkeys = self.cset.varkeys[key]
         if otherkeys:
-            if all(k.veckey == newkey.veckey for k in otherkeys):
+            if newkey.veckey and all(k.veckey == newkey.veckey
+                                     for k in otherkeys):
                 return newkey.veckey, None
             raise ValueError("%s refers to multiple keys in this substitutions"
                              " KeyDict. Use `.variables_byname(%s)` to see all"
-- 
2.43.0


From 699f4230e68bf545a42e2f6fa17ae5a1618d3ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:39 +0000
Subject: [PATCH 152/158] fix: elements of a vector set by a list of integers
 can take any number

The list became an integer array, to which element values were then rounded
down and in which elements could not be deleted.
---
 gpkit/keydict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index acfbb92..502807e 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -268,6 +268,8 @@ class KeyDict(KeyMap, dict):
                             value[i] = v
                     else:
                         value = np.array(value)
+                        if value.dtype.kind in "biu":  # convert to float
+                            value = value.astype(float)
         super().__setitem__(key, value)
         self.owned.add(key)
 
-- 
2.43.0


From 0dcb2307865cc5cf3b7ae33967330fcca137f42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:40 +0000
Subject: [PATCH 153/158] fix: part of a vector can be set to a numpy scalar

A numpy scalar has an (empty) shape, and was refused although the same
number as a float is written to each element.
---
 gpkit/keydict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 502807e..8a5c6e0 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -207,7 +207,7 @@ class KeyDict(KeyMap, dict):
             # NOTE: this try/except takes ~4% of the time in this loop
             if not hasattr(key, "shape"):
                 raise e
-            if not hasattr(value, "shape"):
+            if not getattr(value, "shape", None):
                 given, value = value, np.empty(key.shape, "object")
                 if isinstance(given, (list, tuple)) and not is_sweepvar(given):
                     value[...] = given
-- 
2.43.0


From 79d30431d3a11d4ab72a104a48253de0ed4cd66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:43 +0000
Subject: [PATCH 154/158] fix: a KeyDict filled again after being emptied no
 longer shares its arrays

It still counted as owning the arrays it had held before, and so wrote to
those of the KeyDict it was updated from.
---
 gpkit/keydict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 8a5c6e0..4347166 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -164,7 +164,8 @@ class KeyDict(KeyMap, dict):
             super().update(args[0])
             self.keymap.update(args[0].keymap)
             self._unmapped_keys.update(args[0]._unmapped_keys)  # pylint:disable=protected-access
-            args[0].owned = set()  # arrays are now shared: either copies on write
+            # arrays are now shared: either copies on write
+            self.owned, args[0].owned = set(), set()
         else:
             for k, v in dict(*args, **kwargs).items():
                 self[k] = v
-- 
2.43.0


From f32179a79a365fb904b39d28e09f54689ee2e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:39 +0000
Subject: [PATCH 155/158] fix: a solver may flush the standard output it prints
 to

SolverLog replaces sys.stdout during a solve but had no flush, so that a
solver's `print(..., flush=True)` made every solve with it fail with an
UnknownInfeasible.
---
 gpkit/small_classes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index 3f8d9cf..ca42284 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -80,6 +80,11 @@ class SolverLog(list):
         if self.verbosity > 0:  # pragma: no cover
             self.output.write(writ)
 
+    def flush(self):
+        "Does nothing but, if there is one, flush the output it writes to."
+        if self.verbosity > 0:  # pragma: no cover
+            self.output.flush()
+
 
 class DictOfLists(dict):
     "A hierarchy of dicionaries, with lists at the bottom."
-- 
2.43.0


From bb3284766c8b50dca6d4427ad79441f5b1f790e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:29 +0000
Subject: [PATCH 156/158] fix: KeyDict's copy, pop, popitem, setdefault and
 clear follow its keys

They were those of dict, which know nothing of the key map and of arrays
shared until they're written to: a copy was a plain dict whose vectors
changed with the original's, pop and setdefault missed names and elements,
and a cleared KeyDict still claimed to contain its former keys.
---
 gpkit/keydict.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 4347166..15400a5 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -148,6 +148,37 @@ class KeyDict(KeyMap, dict):
     def get(self, key, *alternative):
         return alternative[0] if alternative and key not in self else self[key]
 
+    def copy(self):
+        "Returns a KeyDict (not a dict) that does not change with this one"
+        return self.__class__(self)
+
+    def setdefault(self, key, default=None):
+        "Returns the key's value, setting it to the default if there's none"
+        if key not in self:
+            self[key] = default
+        return self[key]
+
+    def pop(self, key, *alternative):
+        "Removes a key and returns its value, or the alternative if there's none"
+        if alternative and key not in self:
+            return alternative[0]
+        value = self[key]
+        del self[key]
+        return value
+
+    def popitem(self):
+        "Removes and returns the item inserted last"
+        if not self:
+            raise KeyError("popitem(): dictionary is empty")
+        key = list(self)[-1]
+        return key, self.pop(key)
+
+    def clear(self):
+        "Removes all items"
+        super().clear()
+        self.keymap = defaultdict(set)  # its sets may be another's too
+        self._unmapped_keys, self.owned = set(), set()
+
     def _copyonwrite(self, key):
         "Copys arrays before they are written to"
         if not hasattr(self, "owned"):  # backwards pickle compatibility
-- 
2.43.0


From a0ed5f1f0ecc72e31fbffed8cfb6930e6ce08a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:15 +0000
Subject: [PATCH 157/158] fix: equalities that follow from one another no
 longer make a model infeasible

---
 gpkit/solvers/cvxopt.py | 44 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/gpkit/solvers/cvxopt.py b/gpkit/solvers/cvxopt.py
index 5df673e..0b5b46e 100644
--- a/gpkit/solvers/cvxopt.py
+++ b/gpkit/solvers/cvxopt.py
@@ -2,11 +2,27 @@
 import numpy as np
 from cvxopt import spmatrix, matrix
 from cvxopt.solvers import gp
-from gpkit.exceptions import UnknownInfeasible, DualInfeasible
+from gpkit.exceptions import (UnknownInfeasible, DualInfeasible,
+                              PrimalInfeasible)
 
 
-# pylint: disable=too-many-locals
-def optimize(*, c, A, k, meq_idxs, use_leqs=True, **kwargs):
+def implied_rows(A):
+    "Indexes of the rows which are combinations of those before them"
+    basis, implied = [], []
+    for i, row in enumerate(A):
+        rest = row
+        for unit in basis + basis:  # twice, for precision
+            rest = rest - unit.dot(rest)*unit
+        norm = np.linalg.norm(rest)
+        if norm <= 1e-9*np.linalg.norm(row):
+            implied.append(i)
+        else:
+            basis.append(rest/norm)
+    return implied
+
+
+# pylint: disable=too-many-locals,too-many-statements
+def optimize(*, c, A, k, meq_idxs, use_leqs=True, implied_leqs=(), **kwargs):
     """Interface to the CVXOPT solver
 
         Definitions
@@ -38,6 +54,7 @@ def optimize(*, c, A, k, meq_idxs, use_leqs=True, **kwargs):
                 "dual_sol": floats array of size p
                     Optimal value of the dual variables, in logspace.
     """
+    options = dict(kwargs)
     log_c = np.log(np.array(c))
     lse_mons, lin_mons, leq_mons = [], [], []
     lse_posys, lin_posys, leq_posys = [], [], []
@@ -45,7 +62,7 @@ def optimize(*, c, A, k, meq_idxs, use_leqs=True, **kwargs):
         start = sum(k[:i])
         mons = range(start, start+k[i])
         if use_leqs and start in meq_idxs.all:
-            if start in meq_idxs.first_half:
+            if start in meq_idxs.first_half and i not in implied_leqs:
                 leq_posys.append(i)
                 leq_mons.extend(mons)
         elif i != 0 and n_monomials == 1:
@@ -77,12 +94,25 @@ def optimize(*, c, A, k, meq_idxs, use_leqs=True, **kwargs):
                  [int(r) for r in A_lse.row]+[0],
                  [int(r) for r in A_lse.col]+[maxcol], tc="d")
     g = matrix(log_c_lse)
+    failure = None
     try:
         solution = gp(k_lse, F, g, **kwargs)
+        if solution["status"] != "optimal":
+            failure = UnknownInfeasible("solution status "
+                                        + repr(solution["status"]))
     except ValueError as e:
-        raise DualInfeasible() from e
-    if solution["status"] != "optimal":
-        raise UnknownInfeasible("solution status " + repr(solution["status"]))
+        failure = DualInfeasible()
+        failure.__cause__ = e
+    if failure:
+        implied = implied_rows(A_leq.toarray()) if leq_mons else []
+        if not implied:
+            raise failure
+        # the solver needs independent equalities; others follow from those
+        out = optimize(c=c, A=A, k=k, meq_idxs=meq_idxs,
+                       implied_leqs=[leq_posys[i] for i in implied], **options)
+        if max(abs(A_leq.dot(out["primal"]) + log_c_leq)) > 1e-6:
+            raise PrimalInfeasible() from failure
+        return out
     la = np.zeros(len(k))
     la[lin_posys] = list(solution["zl"])
     la[lse_posys] = [1.] + list(solution["znl"])
-- 
2.43.0


From eb006651d78883e7747f0d2e65d2d3294569daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:00 +0000
Subject: [PATCH 158/158] fix: numpy integers can be coefficients without
 overflowing or refusing powers

---
 gpkit/nomials/array.py | 4 ++--
 gpkit/small_scripts.py | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index 4b6e74f..5717bb6 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -11,7 +11,7 @@ from functools import reduce  # pylint: disable=redefined-builtin
 import numpy as np
 from .map import NomialMap
 from ..small_classes import HashVector, EMPTY_HV, qty
-from ..small_scripts import try_str_without
+from ..small_scripts import try_str_without, mag
 from ..constraints import ArrayConstraint
 from ..repr_conventions import ReprMixin
 
@@ -185,7 +185,7 @@ class NomialArray(ReprMixin, np.ndarray):
                     p = p.to(hmap.units).magnitude
                 elif hmap.units and p and not np.isnan(p):
                     p /= float(hmap.units)
-                hmap[EMPTY_HV] = p + hmap.get(EMPTY_HV, 0)
+                hmap[EMPTY_HV] = mag(p) + hmap.get(EMPTY_HV, 0)
         if len(hmap) > 1 and hmap.get(EMPTY_HV) == 0:
             del hmap[EMPTY_HV]  # numbers which cancelled
         out = Signomial(hmap)
diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index 4dcf091..111610e 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -43,7 +43,10 @@ def try_str_without(item, excluded, *, latex=False):
 
 def mag(c):
     "Return magnitude of a Number or Quantity"
-    return getattr(c, "magnitude", c)
+    magnitude = getattr(c, "magnitude", c)
+    if isinstance(magnitude, np.integer):  # whose powers are limited
+        return float(magnitude)
+    return magnitude
 
 
 def is_sweepvar(sub):
-- 
2.43.0

