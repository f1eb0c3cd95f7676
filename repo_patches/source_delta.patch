From 486974e21ac366f26655b6d98394b7adfe2f1d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 01/34] fix: assigning units leaves a quantity unchanged when
 the conversion fails

---
 quantities/quantity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 74a425f..d9d5252 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -206,8 +206,10 @@ class Quantity(np.ndarray):
                 %(from_u._dimensionality, to_u._dimensionality)
             )
         mag = self.magnitude
-        mag *= cf
-        self._dimensionality = to_u.dimensionality
+        # nothing may fail once the first element has been overwritten
+        new = np.asarray(mag * cf).astype(mag.dtype, casting='same_kind')
+        mag[...] = new
+        self._dimensionality = to_dims
 
     def rescale(self, units=None, dtype=None):
         """
-- 
2.43.0


From 35a0895d0ca82c2a9cbb3b2fac2ec3592bd1e3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 02/34] fix: refuse to change the units of every kind of view
 of a Quantity

---
 quantities/quantity.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index d9d5252..fafbd6c 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -64,12 +64,21 @@ def scale_other_units(f):
         return f(self, other, *args)
     return g
 
+def is_view_of_quantity(q):
+    """True if q shares its data with a Quantity, directly or not"""
+    base = q.base
+    while isinstance(base, np.ndarray):
+        if isinstance(base, Quantity):
+            return True
+        base = base.base
+    return False
+
 def protected_multiplication(f):
     @wraps(f)
     def g(self, other, *args):
         if getattr(other, 'dimensionality', None):
             try:
-                assert not isinstance(self.base, Quantity)
+                assert not is_view_of_quantity(self)
             except AssertionError:
                 raise ValueError('can not modify units of a view of a Quantity')
         return f(self, other, *args)
@@ -93,7 +102,7 @@ def protected_power(f):
     def g(self, other, *args):
         if other != 1:
             try:
-                assert not isinstance(self.base, Quantity)
+                assert not is_view_of_quantity(self)
             except AssertionError:
                 raise ValueError('can not modify units of a view of a Quantity')
         return f(self, other, *args)
@@ -186,7 +195,7 @@ class Quantity(np.ndarray):
     @units.setter
     def units(self, units):
         try:
-            assert not isinstance(self.base, Quantity)
+            assert not is_view_of_quantity(self)
         except AssertionError:
             raise ValueError('can not modify units of a view of a Quantity')
         try:
@@ -538,11 +547,12 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.fill)
     def fill(self, value):
+        dims = getattr(value, 'dimensionality', self._dimensionality)
+        if dims != self._dimensionality and is_view_of_quantity(self):
+            raise ValueError('can not modify units of a view of a Quantity')
         self.magnitude.fill(value)
-        try:
-            self._dimensionality = value.dimensionality
-        except AttributeError:
-            pass
+        if dims is not self._dimensionality:
+            self._dimensionality = dims
 
     @with_doc(np.ndarray.put)
     def put(self, indicies, values, mode='raise', dtype='d'):
-- 
2.43.0


From c713ab5530ada721b8080c1fcd360367fae4d6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 03/34] fix: clip, var and std reject an unsuitable output
 before writing to it

---
 quantities/quantity.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index fafbd6c..4f30e7d 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -666,10 +666,12 @@ class Quantity(np.ndarray):
                 "both min and max must be Quantities with compatible units"
             )
 
+        if out is not None and not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
         clipped = self.magnitude.clip(
             min.rescale(self._dimensionality).magnitude,
             max.rescale(self._dimensionality).magnitude,
-            out
+            None if out is None else out.magnitude
         )
         dim = self.dimensionality
         if out is None:
@@ -728,7 +730,9 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.var)
     def var(self, axis=None, dtype=None, out=None, ddof=0):
-        ret = self.magnitude.var(axis, dtype, out, ddof)
+        if out is not None and not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        ret = self.magnitude.var(axis, dtype, None if out is None else out.magnitude, ddof)
         dim = self._dimensionality**2
         if out is None:
             return Quantity(ret, dim)
@@ -739,7 +743,9 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.std)
     def std(self, axis=None, dtype=None, out=None, ddof=0):
-        ret = self.magnitude.std(axis, dtype, out, ddof)
+        if out is not None and not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        ret = self.magnitude.std(axis, dtype, None if out is None else out.magnitude, ddof)
         dim = self.dimensionality
         if out is None:
             return Quantity(ret, dim)
-- 
2.43.0


From 5b0c310a32f5543226f023f78eb3bc7d8c415301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 04/34] fix: augmented multiplication, division and powers
 update the units with numpy 2

---
 quantities/quantity.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 4f30e7d..cbfca48 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -338,11 +338,20 @@ class Quantity(np.ndarray):
                 return obj
         # For NumPy > 2.0 we either do the prepare or the wrap
         else:
-            if not isinstance(obj, Quantity):
+            if context is not None or not isinstance(obj, Quantity):
                 return self.__array_prepare__(obj, context)
             else:
                 return super().__array_wrap__(obj, context, return_scalar)
 
+    def _assign(self, result):
+        """Take over the values and the units of `result`, or raise and leave self as it was"""
+        if result.shape != self.shape:
+            raise ValueError('result of shape %s does not fit a quantity of shape %s'
+                             % (result.shape, self.shape))
+        new = result.magnitude.astype(self.dtype, casting='same_kind')
+        self.magnitude[...] = new
+        self._dimensionality = result._dimensionality
+        return self
 
     @with_doc(np.ndarray.__add__)
     @scale_other_units
@@ -389,7 +398,7 @@ class Quantity(np.ndarray):
     @with_doc(np.ndarray.__imul__)
     @protected_multiplication
     def __imul__(self, other):
-        return super().__imul__(other)
+        return self._assign(self * other)
 
     @with_doc(np.ndarray.__rmul__)
     def __rmul__(self, other):
@@ -399,7 +408,12 @@ class Quantity(np.ndarray):
     @with_doc(np.ndarray.__itruediv__)
     @protected_multiplication
     def __itruediv__(self, other):
-        return super().__itruediv__(other)
+        return self._assign(self / other)
+
+    @with_doc(np.ndarray.__ifloordiv__)
+    @protected_multiplication
+    def __ifloordiv__(self, other):
+        return self._assign(self // other)
 
     @with_doc(np.ndarray.__rtruediv__)
     def __rtruediv__(self, other):
@@ -415,7 +429,7 @@ class Quantity(np.ndarray):
     @check_uniform
     @protected_power
     def __ipow__(self, other):
-        return super().__ipow__(other)
+        return self._assign(self ** other)
 
     def __round__(self, decimals=0):
         return np.around(self, decimals)
@@ -725,7 +739,7 @@ class Quantity(np.ndarray):
     def nanmean(self, axis=None, dtype=None, out=None):
         import numpy as np
         return Quantity(
-            np.nanmean(self.magnitude, axis, dtype, out),
+            np.nanmean(self.magnitude, axis, dtype, getattr(out, 'magnitude', out)),
             self.dimensionality)
 
     @with_doc(np.ndarray.var)
@@ -757,7 +771,7 @@ class Quantity(np.ndarray):
     @with_doc(np.nanstd)
     def nanstd(self, axis=None, dtype=None, out=None, ddof=0):
         return Quantity(
-            np.nanstd(self.magnitude, axis, dtype, out, ddof),
+            np.nanstd(self.magnitude, axis, dtype, getattr(out, 'magnitude', out), ddof),
             self._dimensionality
         )
 
-- 
2.43.0


From cb3d34c5cf7d40ce89b2ee2d67fcf81c2c7eae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 05/34] fix: an uncertain quantity can be created from another
 one

---
 quantities/uncertainquantity.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 319a6cc..6b2dad7 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -26,10 +26,7 @@ class UncertainQuantity(Quantity):
         if uncertainty is not None:
             ret.uncertainty = Quantity(uncertainty, ret._dimensionality)
         elif isinstance(data, UncertainQuantity):
-            is_copy = id(data) == id(ret)
-            if is_copy or ret._dimensionality != uncertainty._dimensionality:
-                uncertainty = data.uncertainty.rescale(ret.units)
-            ret.uncertainty = uncertainty
+            ret.uncertainty = data.uncertainty.rescale(ret.units)
 
         return ret
 
-- 
2.43.0


From 621d7e73bc9cafa44ffc9c625366bd99c40cef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 06/34] fix: the units of an uncertain quantity can be assigned

---
 quantities/uncertainquantity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 6b2dad7..dfd136c 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -32,8 +32,9 @@ class UncertainQuantity(Quantity):
 
     @Quantity.units.setter  # type: ignore[attr-defined]
     def units(self, units):
-        super()._set_units(units)
-        self.uncertainty.units = self._dimensionality
+        uncertainty = self.uncertainty.rescale(units)
+        Quantity.units.fset(self, units)
+        self._uncertainty = uncertainty
 
     @property
     def _reference(self):
-- 
2.43.0


From f761dad2ef405c671061d4b83797690cc7fab041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 07/34] fix: arithmetic between an uncertain quantity and an
 exact quantity or unit keeps the uncertainty

---
 quantities/uncertainquantity.py | 4 ++++
 quantities/unitquantity.py      | 8 ++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index dfd136c..f2ef968 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -88,6 +88,8 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__add__, use_header=False)
     @scale_other_units
     def __add__(self, other):
+        if not isinstance(other, UncertainQuantity):
+            other = other.view(UncertainQuantity)
         res = super().__add__(other)
         u = (self.uncertainty**2+other.uncertainty**2)**0.5
         return UncertainQuantity(res, uncertainty=u)
@@ -100,6 +102,8 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__sub__, use_header=False)
     @scale_other_units
     def __sub__(self, other):
+        if not isinstance(other, UncertainQuantity):
+            other = other.view(UncertainQuantity)
         res = super().__sub__(other)
         u = (self.uncertainty**2+other.uncertainty**2)**0.5
         return UncertainQuantity(res, uncertainty=u)
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index d5487fc..6f508d4 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -167,7 +167,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__add__, use_header=False)
     def __add__(self, other):
-        return self.view(Quantity).__add__(other)
+        return self.view(Quantity) + other
 
     @with_doc(Quantity.__radd__, use_header=False)
     def __radd__(self, other):
@@ -178,7 +178,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__sub__, use_header=False)
     def __sub__(self, other):
-        return self.view(Quantity).__sub__(other)
+        return self.view(Quantity) - other
 
     @with_doc(Quantity.__rsub__, use_header=False)
     def __rsub__(self, other):
@@ -200,7 +200,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__mul__, use_header=False)
     def __mul__(self, other):
-        return self.view(Quantity).__mul__(other)
+        return self.view(Quantity) * other
 
     @with_doc(Quantity.__rmul__, use_header=False)
     def __rmul__(self, other):
@@ -208,7 +208,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__truediv__, use_header=False)
     def __truediv__(self, other):
-        return self.view(Quantity).__truediv__(other)
+        return self.view(Quantity) / other
 
     @with_doc(Quantity.__rtruediv__, use_header=False)
     def __rtruediv__(self, other):
-- 
2.43.0


From 1a8938c5916a52e465781889eab175eb464c734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 08/34] fix: augmented arithmetic on an uncertain quantity
 updates its uncertainty

---
 quantities/uncertainquantity.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index f2ef968..2c60069 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -138,6 +138,19 @@ class UncertainQuantity(Quantity):
     def __neg__(self):
         return self*-1
 
+    def _assign(self, result):
+        super()._assign(result)
+        self._uncertainty = result._uncertainty
+        return self
+
+    @with_doc(Quantity.__iadd__, use_header=False)
+    def __iadd__(self, other):
+        return self._assign(self + other)
+
+    @with_doc(Quantity.__isub__, use_header=False)
+    def __isub__(self, other):
+        return self._assign(self - other)
+
     @with_doc(Quantity.__truediv__, use_header=False)
     def __truediv__(self, other):
         res = super().__truediv__(other)
-- 
2.43.0


From a2a39284b1e86c0a7c31c077412464c5940f30dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 09/34] fix: copies and deep copies are complete and share
 nothing with their source

---
 quantities/quantity.py          |  3 +--
 quantities/uncertainquantity.py | 18 +++++++++++++++++-
 quantities/unitquantity.py      | 10 ++++++++++
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index cbfca48..56b9dae 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -837,8 +837,7 @@ class Quantity(np.ndarray):
                 state)
 
     def __deepcopy__(self, memo_dict):
-        # constructor copies by default
-        return Quantity(self.magnitude, self.dimensionality)
+        return super().__deepcopy__(memo_dict)
 
 
 def _reconstruct_quantity(subtype, baseclass, baseshape, basetype,):
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 2c60069..181560f 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -1,9 +1,11 @@
 """
 """
 
-import numpy as np
+import copy
 import warnings
 
+import numpy as np
+
 from . import markup, QuantitiesDeprecationWarning
 from .quantity import Quantity, scale_other_units
 from .registry import unit_registry
@@ -285,6 +287,20 @@ class UncertainQuantity(Quantity):
     def nanargmax(self,axis=None, out=None):
         return np.nanargmax(self.magnitude)
 
+    @with_doc(np.ndarray.copy)
+    def copy(self, order='C'):
+        ret = super().copy(order)
+        ret._uncertainty = self._uncertainty.copy(order)
+        return ret
+
+    def __copy__(self):
+        return self.copy()
+
+    def __deepcopy__(self, memo_dict):
+        ret = super().__deepcopy__(memo_dict)
+        ret._uncertainty = copy.deepcopy(self._uncertainty, memo_dict)
+        return ret
+
     def __setstate__(self, state):
         ndarray_state = state[:-2]
         units, sigma = state[-2:]
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 6f508d4..dd35242 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -284,6 +284,13 @@ class UnitQuantity(Quantity):
                 )
             )
 
+    # units are immutable
+    def __copy__(self):
+        return self
+
+    def __deepcopy__(self, memo_dict):
+        return self
+
 unit_registry['UnitQuantity'] = UnitQuantity
 
 
@@ -434,6 +441,9 @@ class Dimensionless(UnitQuantity):
             self.__getstate__()
         )
 
+    def copy(self):
+        return type(self)(self._name)
+
     @property
     def _dimensionality(self):
         return Dimensionality()
-- 
2.43.0


From a8003ee6f03c6c55e019ab15b6caefe0fe97ecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 10/34] fix: set_default_units changes all of the named
 defaults or none

---
 quantities/unitquantity.py | 62 ++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index dd35242..907209d 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -320,14 +320,22 @@ class IrreducibleUnit(UnitQuantity):
     def set_default_unit(cls, unit):
         if unit is None:
             return
+        cls._default_unit = cls._check_default_unit(unit)
+
+    @classmethod
+    def _check_default_unit(cls, unit):
         if isinstance(unit, str):
             unit = unit_registry[unit]
         try:
             # check that conversions are possible:
             get_conversion_factor(cls._default_unit, unit)
-        except ValueError:
+        except (ValueError, AssertionError):
             raise TypeError('default unit must be of same type')
-        cls._default_unit = unit
+        if not isinstance(unit, UnitQuantity):
+            # nobody else may modify the default
+            unit = unit.copy()
+            unit.flags.writeable = False
+        return unit
 
 
 class UnitMass(IrreducibleUnit):
@@ -488,25 +496,33 @@ def set_default_units(
         except AssertionError:
             raise ValueError('system must be "SI" or "cgs", got "%s"' % system)
         if system == 'si':
-            UnitCurrent.set_default_unit('A')
-            UnitLength.set_default_unit('m')
-            UnitMass.set_default_unit('kg')
+            defaults = [
+                (UnitCurrent, 'A'), (UnitLength, 'm'), (UnitMass, 'kg'),
+            ]
         elif system == 'cgs':
-            UnitLength.set_default_unit('cm')
-            UnitMass.set_default_unit('g')
-        UnitLuminousIntensity.set_default_unit('cd')
-        UnitSubstance.set_default_unit('mol')
-        UnitTemperature.set_default_unit('degK')
-        UnitTime.set_default_unit('s')
-
-    UnitCurrency.set_default_unit(currency)
-    UnitCurrent.set_default_unit(current)
-    UnitInformation.set_default_unit(information)
-    UnitLength.set_default_unit(length)
-    UnitLuminousIntensity.set_default_unit(luminous_intensity)
-    UnitMass.set_default_unit(mass)
-    UnitSubstance.set_default_unit(substance)
-    UnitTemperature.set_default_unit(temperature)
-    UnitTime.set_default_unit(time)
-
-
+            defaults = [(UnitLength, 'cm'), (UnitMass, 'g')]
+        defaults += [
+            (UnitLuminousIntensity, 'cd'), (UnitSubstance, 'mol'),
+            (UnitTemperature, 'degK'), (UnitTime, 's'),
+        ]
+    else:
+        defaults = []
+
+    defaults += [
+        (UnitCurrency, currency),
+        (UnitCurrent, current),
+        (UnitInformation, information),
+        (UnitLength, length),
+        (UnitLuminousIntensity, luminous_intensity),
+        (UnitMass, mass),
+        (UnitSubstance, substance),
+        (UnitTemperature, temperature),
+        (UnitTime, time),
+    ]
+    # change nothing unless all of the new defaults are acceptable
+    defaults = [
+        (cls, cls._check_default_unit(unit))
+        for cls, unit in defaults if unit is not None
+    ]
+    for cls, unit in defaults:
+        cls._default_unit = unit
-- 
2.43.0


From 8d00b92adb55ead1b2c1cbeedcb43be3c856206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 11/34] fix: defining a unit is atomic and a label cannot be
 given another meaning

---
 quantities/registry.py     | 42 ++++++++++++++++++++++++++++----------
 quantities/unitquantity.py |  7 ++-----
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 7603965..1d2870e 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -3,6 +3,7 @@
 
 import ast
 import re
+import threading
 
 
 class UnitRegistry:
@@ -25,6 +26,7 @@ class UnitRegistry:
         def __init__(self):
             self.__dict__ = self.__shared_state
             self.__context = {}
+            self.__lock = threading.Lock()
 
         def __getitem__(self, string):
             # This approach to avoiding arbitrary evaluation of code is based on https://stackoverflow.com/a/11952618 
@@ -47,17 +49,35 @@ class UnitRegistry:
                 raise LookupError('Unable to parse units: "%s"' % string)
 
         def __setitem__(self, string, val):
-            assert isinstance(string, str)
-            try:
-                assert string not in self.__context
-            except AssertionError:
-                if val == self.__context[string]:
-                    return
-                raise KeyError(
-                    '%s has already been registered for %s'
-                    % (string, self.__context[string])
-                )
-            self.__context[string] = val
+            self.register([string], val)
+
+        def register(self, labels, val):
+            """Let every label stand for val, or raise and change nothing"""
+            for string in labels:
+                assert isinstance(string, str)
+            context = self.__context
+            while True:
+                known = [s for s in labels if s in context]
+                for string in known:
+                    if not self.__same(val, context[string]):
+                        raise KeyError(
+                            '%s has already been registered for %s'
+                            % (string, context[string])
+                        )
+                # comparing and formatting units may need other locks, so
+                # this one is only held to see that nothing was added since
+                with self.__lock:
+                    if known == [s for s in labels if s in context]:
+                        new = {s: val for s in labels if s not in context}
+                        context.update(new)
+                        return
+
+        @staticmethod
+        def __same(val, registered):
+            # units of the same type and name are equal, whatever their size
+            return val is registered or (
+                val == registered and val._reference == registered._reference
+            )
 
     __regex = re.compile(r'([A-Za-z])\.([A-Za-z])')
     __registry = __Registry()
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 907209d..a34c65a 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -73,11 +73,8 @@ class UnitQuantity(Quantity):
         self, name, definition=None, symbol=None, u_symbol=None,
         aliases=[], doc=None
     ):
-        unit_registry[name] = self
-        if symbol:
-            unit_registry[symbol] = self
-        for alias in aliases:
-            unit_registry[alias] = self
+        labels = [name, symbol] if symbol else [name]
+        unit_registry.register(labels + list(aliases), self)
 
     def __array_finalize__(self, obj):
         pass
-- 
2.43.0


From a6c357d3c0bd87ea856a12ad323f5428e18138b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 12/34] fix: the order of the units in a rendering does not
 depend on history

---
 quantities/markup.py       |  2 +-
 quantities/unitquantity.py | 17 ++++++++++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index d8d4284..c477130 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -49,7 +49,7 @@ def format_units(udict):
     den = []
     keys = [k for k, o in
         sorted(
-            ((k, k.format_order) for k in udict),
+            ((k, (k.format_order, k.name)) for k in udict),
             key=operator.itemgetter(1)
         )
     ]
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index a34c65a..d2c1af6 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -20,6 +20,9 @@ __all__ = [
 ]
 
 
+_format_orders = {}  # (type, name) of a unit: its position in renderings
+
+
 class UnitQuantity(Quantity):
 
     _primary_order = 90
@@ -64,7 +67,9 @@ class UnitQuantity(Quantity):
 
         ret._aliases = aliases
 
-        ret._format_order = (ret._primary_order, ret._secondary_order)
+        # units of the same type and name are equal: they share one position
+        order = (ret._primary_order, ret._secondary_order)
+        ret._is_first = _format_orders.setdefault((cls, name), order) is order
         ret.__class__._secondary_order += 1
 
         return ret
@@ -95,7 +100,7 @@ class UnitQuantity(Quantity):
 
     @property
     def format_order(self):
-        return self._format_order
+        return _format_orders[type(self), self._name]
 
     @property
     def name(self):
@@ -245,12 +250,13 @@ class UnitQuantity(Quantity):
         purposes.
 
         """
-        state = (1, self._format_order)
+        state = (1, self.format_order)
         return state
 
     def __setstate__(self, state):
         ver, fo = state
-        self._format_order = fo
+        if self._is_first:
+            _format_orders[type(self), self._name] = fo
 
     def __reduce__(self):
         """
@@ -429,9 +435,6 @@ class Dimensionless(UnitQuantity):
             definition = self
         self._definition = definition
 
-        self._format_order = (self._primary_order, self._secondary_order)
-        self.__class__._secondary_order += 1
-
         unit_registry[name] = self
 
     def __reduce__(self):
-- 
2.43.0


From 428b3f9879b083fe829b6fe537e4b6f717912a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 13/34] fix: a unit keeps its own immutable definition and
 aliases

---
 quantities/unitquantity.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index d2c1af6..20dc66d 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -58,14 +58,18 @@ class UnitQuantity(Quantity):
 
         if definition is not None:
             if not isinstance(definition, Quantity):
-                definition *= dimensionless
+                definition = definition * dimensionless
+            if not isinstance(definition, UnitQuantity):
+                # nobody else may modify the definition
+                definition = definition.copy()
+                definition.flags.writeable = False
             ret._definition = definition
             ret._conv_ref = definition._reference
         else:
             ret._definition = None
             ret._conv_ref = None
 
-        ret._aliases = aliases
+        ret._aliases = list(aliases)
 
         # units of the same type and name are equal: they share one position
         order = (ret._primary_order, ret._secondary_order)
-- 
2.43.0


From 141157e5153fcb6b98a9789c9e1455f85eb686b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 14/34] fix: conversion to preferred units does not depend on
 the display and default-unit settings

---
 quantities/quantity.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 56b9dae..d1d3d2f 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -264,9 +264,9 @@ class Quantity(np.ndarray):
         new = old.rescale_preferred() # `new` will be 3141.5 mV.
         ```
         """
-        units_str = str(self.simplified.dimensionality)
-        for preferred in PREFERRED:
-            if units_str == str(preferred.simplified.dimensionality):
+        dims = self._reference.dimensionality
+        for preferred in tuple(PREFERRED):
+            if dims == preferred._reference.dimensionality:
                 return self.rescale(preferred)
         raise Exception("Preferred units for '%s' (or equivalent) not specified in "
                         "quantites.quantity.PREFERRED." % self.dimensionality)
-- 
2.43.0


From 1e0d06fee4b8d11c8c3f6df27cacd11abcdac65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 15/34] fix: an interrupted import can be repeated

---
 quantities/registry.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 1d2870e..aba2541 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -56,8 +56,16 @@ class UnitRegistry:
             for string in labels:
                 assert isinstance(string, str)
             context = self.__context
+
+            def find_known():
+                # a class replaces itself when an interrupted import is repeated
+                return [
+                    s for s in labels if s in context
+                    and not (isinstance(val, type) and isinstance(context[s], type))
+                ]
+
             while True:
-                known = [s for s in labels if s in context]
+                known = find_known()
                 for string in known:
                     if not self.__same(val, context[string]):
                         raise KeyError(
@@ -67,8 +75,8 @@ class UnitRegistry:
                 # comparing and formatting units may need other locks, so
                 # this one is only held to see that nothing was added since
                 with self.__lock:
-                    if known == [s for s in labels if s in context]:
-                        new = {s: val for s in labels if s not in context}
+                    if known == find_known():
+                        new = {s: val for s in labels if s not in known}
                         context.update(new)
                         return
 
-- 
2.43.0


From c9ea1e1cef2f3b5613ea7c235730bdb121b4ad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 16/34] fix: an interrupt during multiplication or division is
 not mistaken for a missing attribute

---
 quantities/dimensionality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index c00190b..5046ad2 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -226,7 +226,7 @@ def _d_multiply(q1, q2, out=None):
     except AttributeError:
         try:
             return q1.dimensionality
-        except:
+        except AttributeError:
             return q2.dimensionality
 p_dict[np.multiply] = _d_multiply
 p_dict[np.cross] = _d_multiply
@@ -237,7 +237,7 @@ def _d_divide(q1, q2, out=None):
     except AttributeError:
         try:
             return q1.dimensionality
-        except:
+        except AttributeError:
             return q2.dimensionality**-1
 p_dict[np.divide] = _d_divide
 p_dict[np.true_divide] = _d_divide
-- 
2.43.0


From 0b0cbcdf4bcdda927ad2889f5e84149414a6c958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 17/34] fix: a pickled compound unit keeps its meaning where
 its labels are not defined

---
 quantities/unitquantity.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 20dc66d..0a01d3e 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -394,10 +394,12 @@ class CompoundUnit(UnitQuantity):
 
     _primary_order = 99
 
-    def __new__(cls, name):
-        return UnitQuantity.__new__(cls, name, unit_registry[name])
+    def __new__(cls, name, definition=None):
+        if definition is None:
+            definition = unit_registry[name]
+        return UnitQuantity.__new__(cls, name, definition)
 
-    def __init__(self, name):
+    def __init__(self, name, definition=None):
         # do not register
         return
 
@@ -418,7 +420,7 @@ class CompoundUnit(UnitQuantity):
         """
         return (
             type(self),
-            (self._name, ),
+            (self._name, self._definition),
             self.__getstate__()
             )
 
-- 
2.43.0


From 7edfbd543cae7fffdd667ea99ae43003dee140e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 18/34] fix: arctan2 takes compatible units, independently of
 the default units

---
 quantities/umath.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 16bc412..a31bfe0 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -330,7 +330,7 @@ def arctan(x, out=None):
 @with_doc(np.arctan2)
 def arctan2(x1, x2, out=None):
     """
-    Raises a ValueError if inputs do not have identical units.
+    Raises a ValueError if inputs do not have compatible units.
 
     Returns a quantity in units of radians.
     """
@@ -342,11 +342,8 @@ def arctan2(x1, x2, out=None):
     if not isinstance(x2, Quantity):
         x2 = Quantity(x2, dimensionless, copy=False)
 
-    if x1._dimensionality.simplified != x2._dimensionality.simplified:
-        raise ValueError(
-            'x1 and x2 must have identical units, got "%s" and "%s"'\
-            % (str(x1._dimensionality), str(x2._dimensionality))
-        )
+    # raises a ValueError unless the units are compatible
+    x2 = x2.rescale(x1._dimensionality)
 
     return Quantity(
         np.arctan2(x1.magnitude, x2.magnitude, out),
-- 
2.43.0


From fc1ea24ea15269a935342744d097aac8762eeb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:27 +0000
Subject: [PATCH 19/34] fix: powers such as 10 and 0.5 are rendered correctly
 in every notation

---
 quantities/markup.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index c477130..169e889 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -30,7 +30,7 @@ config = _Config()
 superscripts = ['⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹']
 
 def superscript(val):
-    items = re.split(r'\*{2}([\d]+)(?!\.)', val)
+    items = re.split(r'\*{2}([\d]+)(?![\d.e])', val)
     ret = []
     while items:
         try:
@@ -41,6 +41,12 @@ def superscript(val):
             ret.append(s)
     return ''.join(ret)
 
+def _format_power(d):
+    s = str(d)
+    if '.' in s and 'e' not in s:
+        s = s.rstrip('0').rstrip('.')
+    return '**' + s
+
 def format_units(udict):
     '''
     create a string representation of the units contained in a dimensionality
@@ -61,12 +67,12 @@ def format_units(udict):
             u = key.symbol
         if d>0:
             if d != 1:
-                u = u + ('**%s'%d).rstrip('0').rstrip('.')
+                u = u + _format_power(d)
             num.append(u)
         elif d<0:
             d = -d
             if d != 1:
-                u = u + ('**%s'%d).rstrip('0').rstrip('.')
+                u = u + _format_power(d)
             den.append(u)
     res = '*'.join(num)
     if len(den):
@@ -84,6 +90,8 @@ def format_units_unicode(udict):
     return res
 
 
+_exponent = re.compile(r'\*{2}(?P<exp>\d+(?:\.\d+)?(?:e[+-]?\d+)?)')
+
 def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
     '''
     Replace the units string provided with an equivalent latex string.
@@ -119,7 +127,7 @@ def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
         # Replace division (num/den) with \frac{num}{den}
         res = re.sub(r'(?P<num>.+)/(?P<den>.+)',r'\\frac{\g<num>}{\g<den>}',res)
     # Replace exponentiation (**exp) with ^{exp}
-    res = re.sub(r'\*{2,2}(?P<exp>\d+)',r'^{\g<exp>}',res)
+    res = re.sub(_exponent, r'^{\g<exp>}', res)
     # Remove multiplication signs
     res = re.sub(r'\*','{'+mult+'}',res)
     if paren and not compound:
@@ -152,7 +160,7 @@ def format_units_html(udict,font='%s',mult=r'&sdot;',paren=False):
         # Not a compound unit
         compound = False
     # Replace exponentiation (**exp) with ^{exp}
-    res = re.sub(r'\*{2,2}(?P<exp>\d+)',r'<sup>\g<exp></sup>',res)
+    res = re.sub(_exponent, r'<sup>\g<exp></sup>', res)
     # Remove multiplication signs
     res = re.sub(r'\*',mult,res)
     if paren and not compound:
-- 
2.43.0


From 96fca785ec72fbc22cf1baeb684c1a1cf0643a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:41 +0000
Subject: [PATCH 20/34] fix: LaTeX fractions are not split inside of a compound
 unit

---
 quantities/markup.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index 169e889..f7fec15 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -124,8 +124,14 @@ def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
     else:
         # Not a compound unit
         compound = False
-        # Replace division (num/den) with \frac{num}{den}
-        res = re.sub(r'(?P<num>.+)/(?P<den>.+)',r'\\frac{\g<num>}{\g<den>}',res)
+        # Replace division (num/den) with \frac{num}{den}, but not the
+        # division inside of a compound unit
+        depth = 0
+        for i, c in enumerate(res):
+            depth += (c == '(') - (c == ')')
+            if c == '/' and depth == 0:
+                res = r'\frac{%s}{%s}' % (res[:i], res[i+1:])
+                break
     # Replace exponentiation (**exp) with ^{exp}
     res = re.sub(_exponent, r'^{\g<exp>}', res)
     # Remove multiplication signs
-- 
2.43.0


From c10308c2cbb24c5a9aab81db119e074303617d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 21/34] fix: the repr of a dimensionality does not depend on
 how it was built

---
 quantities/dimensionality.py |  3 ++-
 quantities/markup.py         | 17 +++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 5046ad2..d603522 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -186,7 +186,8 @@ class Dimensionality(dict):
 
     def __repr__(self):
         return 'Dimensionality({%s})' \
-            % ', '.join(['%s: %s'% (u.name, e) for u, e in self.items()])
+            % ', '.join(['%s: %s'% (u.name, self[u])
+                         for u in markup.ordered_units(self)])
 
     def __str__(self):
         if markup.config.use_unicode:
diff --git a/quantities/markup.py b/quantities/markup.py
index f7fec15..46655d7 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -47,19 +47,24 @@ def _format_power(d):
         s = s.rstrip('0').rstrip('.')
     return '**' + s
 
-def format_units(udict):
+def ordered_units(udict):
     '''
-    create a string representation of the units contained in a dimensionality
+    the units contained in a dimensionality, in the order of their rendering
     '''
-    num = []
-    den = []
-    keys = [k for k, o in
+    return [k for k, o in
         sorted(
             ((k, (k.format_order, k.name)) for k in udict),
             key=operator.itemgetter(1)
         )
     ]
-    for key in keys:
+
+def format_units(udict):
+    '''
+    create a string representation of the units contained in a dimensionality
+    '''
+    num = []
+    den = []
+    for key in ordered_units(udict):
         d = udict[key]
         if config.use_unicode:
             u = key.u_symbol
-- 
2.43.0


From dfdee744ab62330ae16e2e2e0ad41994c49b57d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 22/34] fix: statistics into an output take effect with their
 units or not at all

The numbers were written to the output before it was known that the
operation succeeds, and its units were set afterwards: a failure left
new numbers with the old units. The units of a view are not changed.
---
 quantities/quantity.py | 176 +++++++++++++++--------------------------
 1 file changed, 64 insertions(+), 112 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index d1d3d2f..ad66ee7 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -73,6 +73,24 @@ def is_view_of_quantity(q):
         base = base.base
     return False
 
+def into_output(out, dims, f):
+    """
+    The result of f in units of dims. If out is not None, it takes over the
+    values and the units, or an error is raised and it is left as it was.
+    """
+    if out is None:
+        return Quantity(f(None), dims)
+    if not isinstance(out, Quantity):
+        raise TypeError("out parameter must be a Quantity")
+    if out._dimensionality != dims and is_view_of_quantity(out):
+        raise ValueError('can not modify units of a view of a Quantity')
+    mag = out.magnitude
+    new = mag.copy()
+    f(new)
+    mag[...] = new
+    out._dimensionality = dims
+    return out
+
 def protected_multiplication(f):
     @wraps(f)
     def g(self, other, *args):
@@ -542,14 +560,9 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.sum)
     def sum(self, axis=None, dtype=None, out=None):
-        ret = self.magnitude.sum(axis, dtype, None if out is None else out.magnitude)
-        dim = self.dimensionality
-        if out is None:
-            return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
-        out._dimensionality = dim
-        return out
+        return into_output(
+            out, self.dimensionality, lambda o: self.magnitude.sum(axis, dtype, o)
+        )
 
     @with_doc(np.nansum)
     def nansum(self, axis=None, dtype=None, out=None):
@@ -605,14 +618,9 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.max)
     def max(self, axis=None, out=None):
-        ret = self.magnitude.max(axis, None if out is None else out.magnitude)
-        dim = self.dimensionality
-        if out is None:
-            return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
-        out._dimensionality = dim
-        return out
+        return into_output(
+            out, self.dimensionality, lambda o: self.magnitude.max(axis, o)
+        )
 
     @with_doc(np.ndarray.argmax)
     def argmax(self, axis=None, out=None):
@@ -627,14 +635,9 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
-        ret = self.magnitude.min(axis, None if out is None else out.magnitude)
-        dim = self.dimensionality
-        if out is None:
-            return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
-        out._dimensionality = dim
-        return out
+        return into_output(
+            out, self.dimensionality, lambda o: self.magnitude.min(axis, o)
+        )
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
@@ -657,14 +660,9 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.ptp)
     def ptp(self, axis=None, out=None):
-        ret = np.ptp(self.magnitude, axis, None if out is None else out.magnitude)
-        dim = self.dimensionality
-        if out is None:
-            return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
-        out._dimensionality = dim
-        return out
+        return into_output(
+            out, self.dimensionality, lambda o: np.ptp(self.magnitude, axis, o)
+        )
 
     @with_doc(np.ndarray.clip)
     def clip(self, min=None, max=None, out=None):
@@ -680,42 +678,25 @@ class Quantity(np.ndarray):
                 "both min and max must be Quantities with compatible units"
             )
 
-        if out is not None and not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
-        clipped = self.magnitude.clip(
-            min.rescale(self._dimensionality).magnitude,
-            max.rescale(self._dimensionality).magnitude,
-            None if out is None else out.magnitude
+        lower = min.rescale(self._dimensionality).magnitude
+        upper = max.rescale(self._dimensionality).magnitude
+        return into_output(
+            out, self.dimensionality,
+            lambda o: self.magnitude.clip(lower, upper, o)
         )
-        dim = self.dimensionality
-        if out is None:
-            return Quantity(clipped, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
-        out._dimensionality = dim
-        return out
 
     @with_doc(np.ndarray.round)
     def round(self, decimals=0, out=None):
-        ret = self.magnitude.round(decimals, None if out is None else out.magnitude)
-        dim = self.dimensionality
-        if out is None:
-            return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
-        out._dimensionality = dim
-        return out
+        return into_output(
+            out, self.dimensionality, lambda o: self.magnitude.round(decimals, o)
+        )
 
     @with_doc(np.ndarray.trace)
     def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
-        ret = self.magnitude.trace(offset, axis1, axis2, dtype, None if out is None else out.magnitude)
-        dim = self.dimensionality
-        if out is None:
-            return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
-        out._dimensionality = dim
-        return out
+        return into_output(
+            out, self.dimensionality,
+            lambda o: self.magnitude.trace(offset, axis1, axis2, dtype, o)
+        )
 
     @with_doc(np.ndarray.squeeze)
     def squeeze(self, axis=None):
@@ -726,14 +707,9 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.mean)
     def mean(self, axis=None, dtype=None, out=None):
-        ret = self.magnitude.mean(axis, dtype, None if out is None else out.magnitude)
-        dim = self.dimensionality
-        if out is None:
-            return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
-        out._dimensionality = dim
-        return out
+        return into_output(
+            out, self.dimensionality, lambda o: self.magnitude.mean(axis, dtype, o)
+        )
 
     @with_doc(np.nanmean)
     def nanmean(self, axis=None, dtype=None, out=None):
@@ -744,29 +720,15 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.var)
     def var(self, axis=None, dtype=None, out=None, ddof=0):
-        if out is not None and not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
-        ret = self.magnitude.var(axis, dtype, None if out is None else out.magnitude, ddof)
-        dim = self._dimensionality**2
-        if out is None:
-            return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
-        out._dimensionality = dim
-        return out
+        return into_output(
+            out, self._dimensionality**2, lambda o: self.magnitude.var(axis, dtype, o, ddof)
+        )
 
     @with_doc(np.ndarray.std)
     def std(self, axis=None, dtype=None, out=None, ddof=0):
-        if out is not None and not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
-        ret = self.magnitude.std(axis, dtype, None if out is None else out.magnitude, ddof)
-        dim = self.dimensionality
-        if out is None:
-            return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
-        out._dimensionality = dim
-        return out
+        return into_output(
+            out, self.dimensionality, lambda o: self.magnitude.std(axis, dtype, o, ddof)
+        )
 
     @with_doc(np.nanstd)
     def nanstd(self, axis=None, dtype=None, out=None, ddof=0):
@@ -782,25 +744,16 @@ class Quantity(np.ndarray):
         else:
             power = self.shape[axis]
 
-        ret = self.magnitude.prod(axis, dtype, None if out is None else out.magnitude)
-        dim = self._dimensionality**power
-        if out is None:
-            return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
-        out._dimensionality = dim
-        return out
+        return into_output(
+            out, self._dimensionality**power,
+            lambda o: self.magnitude.prod(axis, dtype, o)
+        )
 
     @with_doc(np.ndarray.cumsum)
     def cumsum(self, axis=None, dtype=None, out=None):
-        ret = self.magnitude.cumsum(axis, dtype, None if out is None else out.magnitude)
-        dim = self.dimensionality
-        if out is None:
-            return Quantity(ret, dim)
-        if not isinstance(out, Quantity):
-            raise TypeError("out parameter must be a Quantity")
-        out._dimensionality = dim
-        return out
+        return into_output(
+            out, self.dimensionality, lambda o: self.magnitude.cumsum(axis, dtype, o)
+        )
 
     @with_doc(np.ndarray.cumprod)
     def cumprod(self, axis=None, dtype=None, out=None):
@@ -810,13 +763,12 @@ class Quantity(np.ndarray):
                 "Quantity must be dimensionless, try using simplified"
             )
 
-        ret = self.magnitude.cumprod(axis, dtype, out)
-        dim = self.dimensionality
-        if out is None:
-            return Quantity(ret, dim)
-        if isinstance(out, Quantity):
-            out._dimensionality = dim
-        return out
+        if out is not None and not isinstance(out, Quantity):
+            return self.magnitude.cumprod(axis, dtype, out)
+        return into_output(
+            out, self.dimensionality,
+            lambda o: self.magnitude.cumprod(axis, dtype, o)
+        )
 
     # list of unsupported functions: [choose]
 
-- 
2.43.0


From 3aee0d95b4a7d6e5bbef159c43c7c270328f8059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 23/34] fix: assigning the real or imaginary part of a
 dimensionless quantity checks units

---
 quantities/quantity.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index ad66ee7..601d4f3 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -190,7 +190,7 @@ class Quantity(np.ndarray):
 
     @real.setter
     def real(self, r):
-        self.magnitude.real = Quantity(r, self.dimensionality).magnitude
+        self.magnitude.real = self._own_units(r)
 
     @property
     def imag(self):
@@ -198,7 +198,13 @@ class Quantity(np.ndarray):
 
     @imag.setter
     def imag(self, i):
-        self.magnitude.imag = Quantity(i, self.dimensionality).magnitude
+        self.magnitude.imag = self._own_units(i)
+
+    def _own_units(self, value):
+        """The magnitude of value, which is taken to have the units of self if it has none"""
+        if not isinstance(value, Quantity):
+            value = Quantity(value, self.dimensionality)
+        return value.rescale(self.dimensionality).magnitude
 
     @property
     def simplified(self):
-- 
2.43.0


From bd8bc666cc242d4ed245515080a69d4649f16cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:28 +0000
Subject: [PATCH 24/34] fix: squeezed quantities and real and imaginary parts
 are always recognised as views

---
 quantities/quantity.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 601d4f3..69fb8bb 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -186,7 +186,7 @@ class Quantity(np.ndarray):
 
     @property
     def real(self):
-        return Quantity(self.magnitude.real, self.dimensionality)
+        return np.ndarray.real.__get__(self.view(Quantity))
 
     @real.setter
     def real(self, r):
@@ -194,7 +194,7 @@ class Quantity(np.ndarray):
 
     @property
     def imag(self):
-        return Quantity(self.magnitude.imag, self.dimensionality)
+        return np.ndarray.imag.__get__(self.view(Quantity))
 
     @imag.setter
     def imag(self, i):
@@ -706,10 +706,7 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.squeeze)
     def squeeze(self, axis=None):
-        return Quantity(
-            self.magnitude.squeeze(axis),
-            self.dimensionality
-        )
+        return self.view(Quantity).reshape(self.magnitude.squeeze(axis).shape)
 
     @with_doc(np.ndarray.mean)
     def mean(self, axis=None, dtype=None, out=None):
-- 
2.43.0


From 299add9608f121b8279b190a354b58ad1c5327a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 25/34] fix: the array below a unit is as immutable as the unit

---
 quantities/unitquantity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 0a01d3e..bc74c13 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -47,8 +47,10 @@ class UnitQuantity(Quantity):
                 'got %s (u_symbol can be unicode)'%symbol
             )
 
-        ret = numpy.array(1, dtype='d').view(cls)
-        ret.flags.writeable = False
+        value = numpy.array(1, dtype='d')
+        # neither the unit nor the array below it can be modified
+        value.flags.writeable = False
+        ret = value.view(cls)
 
         ret._name = name
         ret._symbol = symbol
-- 
2.43.0


From 4f34ee195e5f4b967b7e3c41e2109915b340b8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 26/34] fix: simplifying dimensionless, or a unit without
 definition, does not recurse forever

---
 quantities/unitquantity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index bc74c13..b558097 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -121,7 +121,9 @@ class UnitQuantity(Quantity):
 
     @property
     def simplified(self):
-        return self._reference.simplified
+        if self._conv_ref is None:
+            return 1*self
+        return self._conv_ref.simplified
 
     @property
     def symbol(self):
-- 
2.43.0


From 67ad54673dcdbed6837331d538f27dac6cb0b76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 27/34] fix: the definition of a unit can not be resized

---
 quantities/unitquantity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index b558097..966c354 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -65,6 +65,8 @@ class UnitQuantity(Quantity):
                 # nobody else may modify the definition
                 definition = definition.copy()
                 definition.flags.writeable = False
+                # a view can not be resized
+                definition = definition.view()
             ret._definition = definition
             ret._conv_ref = definition._reference
         else:
-- 
2.43.0


From 470d06954e4d1407a7c1175eb08a33bdc4a9319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:35 +0000
Subject: [PATCH 28/34] fix: an uncertain quantity can be converted to
 preferred units by rescale()

---
 quantities/uncertainquantity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 181560f..c0dfa8b 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -70,10 +70,11 @@ class UncertainQuantity(Quantity):
         return self.uncertainty.magnitude/self.magnitude
 
     @with_doc(Quantity.rescale, use_header=False)
-    def rescale(self, units, dtype=None):
+    def rescale(self, units=None, dtype=None):
         cls = UncertainQuantity
         ret = super(cls, self).rescale(units, dtype=dtype).view(cls)
-        ret.uncertainty = self.uncertainty.rescale(units, dtype=dtype)
+        ret.uncertainty = self.uncertainty.rescale(
+            ret._dimensionality if units is None else units, dtype=dtype)
         return ret
 
     def __array_finalize__(self, obj):
-- 
2.43.0


From ed2b04760e97ec0abb1a4c5a8237ba082ca6f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 29/34] fix: a repeated import binds every submodule again

---
 quantities/__init__.py           |  5 +++++
 quantities/constants/__init__.py | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/quantities/__init__.py b/quantities/__init__.py
index d534d58..1c0bb6e 100644
--- a/quantities/__init__.py
+++ b/quantities/__init__.py
@@ -270,8 +270,11 @@ class QuantitiesDeprecationWarning(DeprecationWarning):
 
 from ._version import __version__
 
+from . import registry
 from .registry import unit_registry
 
+from . import decorators, dimensionality, markup
+
 from . import quantity
 from .quantity import Quantity
 
@@ -281,10 +284,12 @@ from .uncertainquantity import UncertainQuantity
 from . import unitquantity
 from .unitquantity import *
 
+from . import units
 from .units import *
 
 from . import constants
 
+from . import umath
 from .umath import *
 
 def test(verbosity=1):
diff --git a/quantities/constants/__init__.py b/quantities/constants/__init__.py
index 9aaa9b3..226af1c 100644
--- a/quantities/constants/__init__.py
+++ b/quantities/constants/__init__.py
@@ -1,19 +1,38 @@
+from . import alpha
 from .alpha import *
+from . import astronomy
 from .astronomy import *
+from . import atomicunits
 from .atomicunits import *
+from . import deuteron
 from .deuteron import *
+from . import electromagnetism
 from .electromagnetism import *
+from . import electron
 from .electron import *
+from . import helion
 from .helion import *
+from . import mathematical
 from .mathematical import *
+from . import muon
 from .muon import *
+from . import naturalunits
 from .naturalunits import *
+from . import neutron
 from .neutron import *
+from . import proton
 from .proton import *
+from . import quantum
 from .quantum import *
+from . import relationships
 from .relationships import *
+from . import statisticalmechanics
 from .statisticalmechanics import *
+from . import tau
 from .tau import *
+from . import triton
 from .triton import *
+from . import weak
 from .weak import *
+from . import xray
 from .xray import *
-- 
2.43.0


From 52553ee40cf0bd7821def5103b380bbed2c53c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 30/34] fix: after a repeated import the registered
 dimensionless unit is of the present class

---
 quantities/registry.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index aba2541..f4ce6af 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -58,10 +58,9 @@ class UnitRegistry:
             context = self.__context
 
             def find_known():
-                # a class replaces itself when an interrupted import is repeated
                 return [
                     s for s in labels if s in context
-                    and not (isinstance(val, type) and isinstance(context[s], type))
+                    and not self.__replaces(val, context[s])
                 ]
 
             while True:
@@ -80,6 +79,20 @@ class UnitRegistry:
                         context.update(new)
                         return
 
+        @staticmethod
+        def __replaces(val, registered):
+            # when an interrupted import is repeated, a class replaces itself,
+            # and so does the dimensionless unit of such a class
+            if isinstance(val, type) or isinstance(registered, type):
+                return isinstance(val, type) and isinstance(registered, type)
+            new, old = type(val), type(registered)
+            return (
+                new is not old
+                and (new.__module__, new.__qualname__)
+                    == (old.__module__, old.__qualname__)
+                and val.dimensionality == registered.dimensionality
+            )
+
         @staticmethod
         def __same(val, registered):
             # units of the same type and name are equal, whatever their size
-- 
2.43.0


From 46766893dd415ee4c57c3ebe60b9d1a3d3ef0429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:01 +0000
Subject: [PATCH 31/34] fix: the simplified form of an empty dimensionality is
 a copy

---
 quantities/dimensionality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index d603522..259ff38 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -38,7 +38,7 @@ class Dimensionality(dict):
                 rq = rq * u.simplified**d
             return rq.dimensionality
         else:
-            return self
+            return self.copy()
 
     @property
     def string(self):
-- 
2.43.0


From cd00784399b69f8f05e47a8e5cc0979010318af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:53 +0000
Subject: [PATCH 32/34] fix: a one-letter unit between two dots of a unit
 expression is a factor

---
 quantities/registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index f4ce6af..6ad052c 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -100,7 +100,7 @@ class UnitRegistry:
                 val == registered and val._reference == registered._reference
             )
 
-    __regex = re.compile(r'([A-Za-z])\.([A-Za-z])')
+    __regex = re.compile(r'([A-Za-z])\.(?=[A-Za-z])')
     __registry = __Registry()
 
     def __getattr__(self, attr):
@@ -113,7 +113,7 @@ class UnitRegistry:
         """Parses a string description of a unit e.g., 'g/cc'"""
 
         label = self.__regex.sub(
-            r"\g<1>*\g<2>", label.replace('^', '**').replace('·', '*'))
+            r"\g<1>*", label.replace('^', '**').replace('·', '*'))
 
         # make sure we can parse the label ....
         if label == '': label = 'dimensionless'
-- 
2.43.0


From 0ac37c299ac503381d5436f91cde5dbfd8a18505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:32 +0000
Subject: [PATCH 33/34] fix: the uncertainty of a unit's definition can not be
 modified

---
 quantities/quantity.py          |  7 +++++++
 quantities/uncertainquantity.py | 16 ++++++++++++++--
 quantities/unitquantity.py      |  5 +----
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 69fb8bb..e7f1578 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -367,6 +367,13 @@ class Quantity(np.ndarray):
             else:
                 return super().__array_wrap__(obj, context, return_scalar)
 
+    def _frozen(self):
+        """Return a copy that can not be modified"""
+        ret = self.copy()
+        ret.flags.writeable = False
+        # a view can not be resized
+        return ret.view()
+
     def _assign(self, result):
         """Take over the values and the units of `result`, or raise and leave self as it was"""
         if result.shape != self.shape:
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index c0dfa8b..a6ecb08 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -26,9 +26,9 @@ class UncertainQuantity(Quantity):
         ret._uncertainty._dimensionality = ret._dimensionality
 
         if uncertainty is not None:
-            ret.uncertainty = Quantity(uncertainty, ret._dimensionality)
+            ret._set_uncertainty(Quantity(uncertainty, ret._dimensionality))
         elif isinstance(data, UncertainQuantity):
-            ret.uncertainty = data.uncertainty.rescale(ret.units)
+            ret._set_uncertainty(data.uncertainty.rescale(ret.units))
 
         return ret
 
@@ -55,6 +55,13 @@ class UncertainQuantity(Quantity):
         return self._uncertainty
     @uncertainty.setter
     def uncertainty(self, uncertainty):
+        try:
+            assert self.flags.writeable
+        except AssertionError:
+            raise ValueError('array is not writeable')
+        self._set_uncertainty(uncertainty)
+
+    def _set_uncertainty(self, uncertainty):
         if not isinstance(uncertainty, Quantity):
             uncertainty = Quantity(uncertainty)
         try:
@@ -141,6 +148,11 @@ class UncertainQuantity(Quantity):
     def __neg__(self):
         return self*-1
 
+    def _frozen(self):
+        ret = super()._frozen()
+        ret._uncertainty = ret._uncertainty._frozen()
+        return ret
+
     def _assign(self, result):
         super()._assign(result)
         self._uncertainty = result._uncertainty
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 966c354..6cfdf45 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -63,10 +63,7 @@ class UnitQuantity(Quantity):
                 definition = definition * dimensionless
             if not isinstance(definition, UnitQuantity):
                 # nobody else may modify the definition
-                definition = definition.copy()
-                definition.flags.writeable = False
-                # a view can not be resized
-                definition = definition.view()
+                definition = definition._frozen()
             ret._definition = definition
             ret._conv_ref = definition._reference
         else:
-- 
2.43.0


From 030bad270582591921cd9593ff9cdb7808cedc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:40 +0000
Subject: [PATCH 34/34] fix: the number of dimensions does not depend on the
 default units

---
 quantities/dimensionality.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 259ff38..ade5288 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -28,7 +28,11 @@ class Dimensionality(dict):
 
     @property
     def ndims(self):
-        return sum(abs(i) for i in self.simplified.values())
+        # not simplified: the default units may change, or be compound
+        rq = 1*unit_registry['dimensionless']
+        for u, d in self.items():
+            rq = rq * u._reference**d
+        return sum(abs(i) for i in rq.dimensionality.values())
 
     @property
     def simplified(self):
-- 
2.43.0

