From 64e1944f929b8522e91e6cd1b03691cd27be05f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 01/40] fix: an interrupted or failed Atom.save no longer
 destroys the existing file

---
 atomtoolkit/atom.py |  2 +-
 atomtoolkit/util.py | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 3b9e954..0979686 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -979,7 +979,7 @@ class Atom:
                 filename = filename + ".atom"
         except IndexError:
             filename = filename + ".atom"
-        with open(filename, "wb") as file:
+        with util.atomic_write(filename, "wb") as file:
             pickle.dump(self, file)
 
     @classmethod
diff --git a/atomtoolkit/util.py b/atomtoolkit/util.py
index b6f2560..cf454ef 100644
--- a/atomtoolkit/util.py
+++ b/atomtoolkit/util.py
@@ -1,4 +1,8 @@
+import contextlib
+import os
 import re
+import shutil
+import threading
 from typing import *
 
 import numpy as np
@@ -6,6 +10,35 @@ import numpy as np
 from .transition_strengths import JJ_to_LS, JK_to_LS, LK_to_LS
 
 
+@contextlib.contextmanager
+def atomic_write(filename: str, mode: str = 'w', **kwargs):
+    """
+    Opens a file for writing in such a way that filename always holds either its complete old content or the complete
+    new content: everything is written to a temporary file in the same directory, which then replaces the target.
+    :param filename: the file to write
+    :param mode: the mode to open the file in
+    :param kwargs: passed on to open()
+    """
+    path = os.path.realpath(filename)
+    if os.path.exists(path) and not os.path.isfile(path):  # a device or a pipe: there is nothing to protect
+        with open(path, mode, **kwargs) as file:
+            yield file
+        return
+    temp = os.path.join(os.path.dirname(path), f'.{os.getpid()}-{threading.get_ident()}.tmp')
+    try:
+        with open(temp, mode, **kwargs) as file:
+            if os.path.exists(path):
+                shutil.copymode(path, temp)
+            yield file
+            file.flush()
+            os.fsync(file.fileno())
+        os.replace(temp, path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.unlink(temp)
+        raise
+
+
 def let_to_l(let: str) -> int or None:
     """
     :param let: a single character in "SPDFGHIKLMNOQRTUVWXYZ" or ""
-- 
2.43.0


From 95de23a5dfcb52a8159b48ce8d969a7178bb81f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 02/40] fix: Atom.save appends .atom exactly when the name does
 not end in it, also with dots in the path

---
 atomtoolkit/atom.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 0979686..405a6d3 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -974,10 +974,7 @@ class Atom:
         """
         if filename is None:
             filename = self.name
-        try:
-            if filename.split(".", -1)[1] != "atom":
-                filename = filename + ".atom"
-        except IndexError:
+        if not filename.endswith(".atom"):
             filename = filename + ".atom"
         with util.atomic_write(filename, "wb") as file:
             pickle.dump(self, file)
-- 
2.43.0


From ad81ebe8d23e2700d870e70876109d10666a40cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 03/40] fix: a failed or interrupted export no longer destroys
 the existing CSV file

---
 atomtoolkit/IO.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index e1fb661..9e1cd58 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -6,6 +6,7 @@ import pandas as pd
 
 from . import *
 from .atom import Atom
+from .util import atomic_write
 
 
 # When printing or displaying DataFrames, pint_pandas really likes to throw UnitStrippedWarnings,
@@ -132,7 +133,8 @@ def _load_NIST_data(species: str, term_ordered: bool = False, save: bool or str
                 save += '.csv'
         else:
             save = f'{species}_level_data.csv'
-        df_clean.to_csv(save)
+        with atomic_write(save, 'w', newline='', encoding='utf-8') as f:
+            df_clean.to_csv(f)
 
     return df_clean
     #  TODO: uncertainty
@@ -256,7 +258,7 @@ def generate_hf_csv(atom, filename=None, blank=False, def_A=Q_(0.0, 'GHz')):
         rows_to_write = [
             [level.name, Q_(0.0, 'GHz'), Q_(0.0, 'GHz'), Q_(0.0, 'GHz')]
             for level in list(atom.levels.values())]
-    with open(filename, 'w', newline='', encoding='utf-8') as f:
+    with atomic_write(filename, 'w', newline='', encoding='utf-8') as f:
         writer = csv.writer(f)
         writer.writerows(rows_to_write)
 
-- 
2.43.0


From 83ba1757421f8cf7c6206266c9afc8624c239f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 04/40] fix: apply_hf_csv applies a table completely or not at
 all

---
 atomtoolkit/IO.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index 9e1cd58..4228434 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -271,16 +271,18 @@ def apply_hf_csv(atom, filename):
         :return:
         """
     import csv
+    # read and check the whole table before applying any of it, so that a bad table leaves the atom as it was
+    rows = []
     with open(filename, newline='', encoding='utf-8') as f:
         reader = csv.reader(f)
-        for row in reader:
-            try:
-                name, hfA, hfB, hfC = row
-                atom.levels[name].hfA = Q_(hfA)
-                atom.levels[name].hfB = Q_(hfB)
-                atom.levels[name].hfC = Q_(hfC)
-            except KeyError:
-                pass
+        for name, hfA, hfB, hfC in reader:
+            rows.append((name, Q_(hfA).to(Hz), Q_(hfB).to(Hz), Q_(hfC).to(Hz)))
+    for name, hfA, hfB, hfC in rows:
+        try:
+            level = atom.levels[name]
+        except KeyError:
+            continue
+        level.hfA, level.hfB, level.hfC = hfA, hfB, hfC
 
 
 # TODO: apply_levels_csv and apply_hf_csv kind of do the same thing. Really I only need two functions:
-- 
2.43.0


From ffeb3db87cb67bcd1812f4aee0df5da6a5c20622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:46 +0000
Subject: [PATCH 05/40] fix: interrupted or concurrent first accesses no longer
 leave a level with part of its sublevels

---
 atomtoolkit/atom.py | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 405a6d3..f3e80bf 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -3,6 +3,7 @@ from abc import ABC, abstractmethod
 import itertools
 import functools
 import pickle
+import threading
 import warnings
 from typing import *
 
@@ -17,6 +18,10 @@ from .atom_helpers import LevelStructure, TransitionStructure
 from .term import Term, MultiTerm
 from .wigner import wigner3j, wigner6j
 
+# Sublevels and subtransitions are created when they are first accessed. This lock keeps threads that access the same
+# ones for the first time at the same time from creating them twice
+_population_lock = threading.RLock()
+
 ############################################
 #                  Level                   #
 ############################################
@@ -30,10 +35,10 @@ def lazy_compute_sublevels(func: Callable) -> Callable:
     @functools.wraps(func)
     def wrapper(self, *args, **kwargs):
         if len(self._sublevels) == 0:
-            self._assign_models()
-            self.populate_sublevels()
-            for sublevel in list(self._sublevels.values()):
-                self._submodel.add_node(sublevel.name, level=sublevel)
+            with _population_lock:
+                if len(self._sublevels) == 0:
+                    self._assign_models()
+                    self.populate_sublevels()
         return func(self, *args, **kwargs)
     return wrapper
 
@@ -108,6 +113,16 @@ class BaseLevel(ABC):
         """Should populate the sublevels of the level"""
         raise NotImplementedError()
 
+    def _publish_sublevels(self, sublevels: Dict[str, BaseLevel]):
+        """
+        Makes a complete set of sublevels visible. They only become visible when they are all registered in the
+        submodel, so that a population that is interrupted is simply repeated on the next access
+        """
+        self._assign_models()
+        for sublevel in sublevels.values():
+            self._submodel.add_node(sublevel.name, level=sublevel)
+        self._sublevels = sublevels
+
     @property
     @abstractmethod
     def level_Hz(self) -> float:
@@ -283,10 +298,12 @@ class EnergyLevel(BaseLevel):
         Populates the sublevels dict with the appropriate hyperfine sublevels, given the atom that the EnergyLevel is in
         """
         if self.atom is not None:
+            sublevels = {}
             for f in np.arange(abs(self.term.J - self.atom.I), self.term.J + self.atom.I + 1):
                 t = self.term.make_term_copy(F=f)
                 e = HFLevel(term=t, parent=self)
-                self[f'F={util.float_to_frac(f)}'] = e
+                sublevels[f'F={util.float_to_frac(f)}'] = e
+            self._publish_sublevels(sublevels)
 
     @property
     def level_Hz(self) -> float:
@@ -401,10 +418,12 @@ class HFLevel(BaseLevel):
     def populate_sublevels(self):
         """Populates the sublevels dict with the appropriate Zeeman sublevels"""
         if isinstance(self.parent, EnergyLevel):
+            sublevels = {}
             for mf in np.arange(-self.term.F, self.term.F + 1):
                 t = self.term.make_term_copy(mF=mf)
                 e = ZLevel(term=t, parent=self)
-                self[f'mF={util.float_to_frac(mf)}'] = e
+                sublevels[f'mF={util.float_to_frac(mf)}'] = e
+            self._publish_sublevels(sublevels)
 
     def compute_hf_shift(self) -> float:
         """
@@ -929,9 +948,7 @@ class Atom:
         if level.alias is not None:
             self.levels.aliases[level.alias] = level
         if populate_sublevels:
-            level.populate_sublevels()
-            for sublevel in list(level.values()):
-                sublevel.add_to_atom(self)
+            level.sublevels()
         return level
 
     def add_transition(self, transition: Transition or Tuple, **kwargs):
-- 
2.43.0


From ee48b9251934050a6ef180640620d5248d6fb034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 06/40] fix: a transition whose subtransitions were already
 looked up can be added to an atom

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index f3e80bf..f4ec0d3 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -665,7 +665,7 @@ class BaseTransition(ABC):
         self._assign_models()
         self._model.add_edge(self.E_lower.name, self.E_upper.name, transition=self)
         if len(self._subtransitions) != 0:
-            for subtransition in self._subtransitions:
+            for subtransition in self._subtransitions.values():
                 subtransition.add_to_atom(atom)
 
     def _compute_sublevel_pairs(self, attr: str) -> Iterable[Tuple[BaseLevel, BaseLevel]]:
-- 
2.43.0


From 460a7b60d0404ed2460c939e7b82d1ac01c8b836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 07/40] fix: interrupted or concurrent first accesses no longer
 leave a transition with part of its subtransitions

---
 atomtoolkit/atom.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index f4ec0d3..89fb286 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -541,11 +541,11 @@ def lazy_compute_subtransitions(func):
     @functools.wraps(func)
     def wrapper(self, *args, **kwargs):
         if len(self._subtransitions) == 0:
-            assert len(self.E_1.sublevels()) != 0
-            assert len(self.E_2.sublevels()) != 0
-            self.populate_subtransitions()
-            for transition in list(self._subtransitions.values()):
-                transition.add_to_atom(self.atom)
+            with _population_lock:
+                if len(self._subtransitions) == 0:
+                    assert len(self.E_1.sublevels()) != 0
+                    assert len(self.E_2.sublevels()) != 0
+                    self.populate_subtransitions()
         return func(self, *args, **kwargs)
     return wrapper
 
@@ -583,9 +583,9 @@ class BaseTransition(ABC):
         else:
             self.E_upper = self.E_1
             self.E_lower = self.E_2
-        # Check if in an atom
+        # Check if in an atom. Subtransitions are added by their parent, once it knows all of them
         self.atom = self.E_1.atom
-        if self.atom is not None:
+        if self.atom is not None and self.parent is None:
             self.add_to_atom(self.atom)
         # Names
         self.model_name = (self.E_1.name, self.E_2.name)
@@ -646,6 +646,15 @@ class BaseTransition(ABC):
         """Should generate the appropriate transitions between the sublevels of the transition's EnergyLevels"""
         raise NotImplementedError
 
+    def _publish_subtransitions(self, subtransitions: Dict[Tuple[str, str], BaseTransition]):
+        """
+        Makes a complete set of subtransitions visible. They only become visible when they are all registered in the
+        submodel, so that a population that is interrupted is simply repeated on the next access
+        """
+        for subtransition in subtransitions.values():
+            subtransition.add_to_atom(self.atom)
+        self._subtransitions = subtransitions
+
     @abstractmethod
     def set_frequency(self, freq: pint.Quantity):
         raise NotImplementedError
@@ -746,13 +755,15 @@ class Transition(BaseTransition):
 
     def populate_subtransitions(self):
         """Creates HFTransitions for every allowed pair of hyperfine sublevels in the transition's EnergyLevels"""
+        subtransitions = {}
         pairs = self._compute_sublevel_pairs('F')
         for a, b in pairs:
             t = HFTransition(a, b, parent=self)
             if np.any(np.array(t.allowed_types)):
-                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
+                subtransitions[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
             else:
                 del t
+        self._publish_subtransitions(subtransitions)
 
     def set_frequency(self, freq: pint.Quantity):
         """Set the frequency of the transition. Useful for adding in things like isotope shifts"""
@@ -808,13 +819,15 @@ class HFTransition(BaseTransition):
 
     def populate_subtransitions(self):
         """Creates ZTransitions for every allowed pair of Zeeman sublevels in the transition's HFLevels"""
+        subtransitions = {}
         pairs = self._compute_sublevel_pairs('mF')
         for a, b in pairs:
             t = ZTransition(a, b, parent=self)
             if np.any(np.array(t.allowed_types)):
-                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
+                subtransitions[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
             else:
                 del t
+        self._publish_subtransitions(subtransitions)
 
     def set_frequency(self, freq: pint.Quantity):
         diff = freq - self.freq
-- 
2.43.0


From 229d4d63dc044d580787c402baecc3eec8fa7d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 08/40] fix: the subtransitions within a level no longer depend
 on when they were first looked up

---
 atomtoolkit/atom.py | 61 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 89fb286..bb68f63 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -577,12 +577,7 @@ class BaseTransition(ABC):
         self._submodel = None
         # Energy Levels
         self.E_1, self.E_2 = E1, E2
-        if self.E_2.level > self.E_1.level:
-            self.E_upper = self.E_2
-            self.E_lower = self.E_1
-        else:
-            self.E_upper = self.E_1
-            self.E_lower = self.E_2
+        self._orient()
         # Check if in an atom. Subtransitions are added by their parent, once it knows all of them
         self.atom = self.E_1.atom
         if self.atom is not None and self.parent is None:
@@ -606,6 +601,15 @@ class BaseTransition(ABC):
     def __repr__(self):
         return f'<{type(self).__name__}({self.name}, freq={str(self.freq)}, A={str(self.A)}>'
 
+    def _orient(self):
+        """Determines which one of the transition's levels is the upper one"""
+        if self.E_2.level > self.E_1.level:
+            self.E_upper = self.E_2
+            self.E_lower = self.E_1
+        else:
+            self.E_upper = self.E_1
+            self.E_lower = self.E_2
+
     @property
     def freq_Hz(self) -> float:
         """The frequency of a transition is the difference in energy between its levels"""
@@ -683,12 +687,25 @@ class BaseTransition(ABC):
         :param attr: the Term attribute to use for selection rules. Can be anything in {L, J, F, mF, mJ}
         :return: An iterable of pairs of sublevels with possible allowed transitions
         """
+        if self.E_1 is self.E_2:  # within a level, (a, b) and (b, a) are the same transition
+            pairs = itertools.combinations_with_replacement(self.E_1.sublevels(), 2)
+        else:
+            pairs = itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
         if True not in self.allowed_types:
-            return itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
+            return pairs
         max_delta = (2 if (self.allowed_types[2] and not self.allowed_types[1]) else 1)
-        return ((l1, l2) for l1, l2 in itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
+        return ((l1, l2) for l1, l2 in pairs
                 if abs(l1.term.__getattribute__(attr) - l2.term.__getattribute__(attr)) <= max_delta)
 
+    def _subtransition_key(self, t: BaseTransition) -> Tuple[str, str]:
+        """
+        The key of a subtransition is (lower, upper). Within a single manifold, where any shift can change which
+        sublevel is the upper one, it is (sublevel of E_1, sublevel of E_2) instead
+        """
+        if self.E_1.manifold is self.E_2.manifold:
+            return t.E_1.term.short_name, t.E_2.term.short_name
+        return t.E_lower.term.short_name, t.E_upper.term.short_name
+
     # region: dict-like-methods
 
     @lazy_compute_subtransitions
@@ -760,7 +777,7 @@ class Transition(BaseTransition):
         for a, b in pairs:
             t = HFTransition(a, b, parent=self)
             if np.any(np.array(t.allowed_types)):
-                subtransitions[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
+                subtransitions[self._subtransition_key(t)] = t
             else:
                 del t
         self._publish_subtransitions(subtransitions)
@@ -774,7 +791,27 @@ class Transition(BaseTransition):
         self.E_1.atom.enforce_consistency(node_or_trans=self.model_name)
 
 
-class HFTransition(BaseTransition):
+class SubTransition(BaseTransition, ABC):
+    """
+    A transition between two sublevels, which exists as a part of a parent transition. Its upper and lower levels lie in
+    the upper and lower levels of its parent, or, between sublevels of the same level, follow from their current energies
+    """
+
+    def _orient(self):
+        pass
+
+    @property
+    def E_upper(self) -> BaseLevel:
+        if self.parent is None or self.E_1.parent is self.E_2.parent:
+            return self.E_2 if self.E_2.level_Hz > self.E_1.level_Hz else self.E_1
+        return self.E_1 if self.E_1.parent is self.parent.E_upper else self.E_2
+
+    @property
+    def E_lower(self) -> BaseLevel:
+        return self.E_1 if self.E_upper is self.E_2 else self.E_2
+
+
+class HFTransition(SubTransition):
     """
     An HFTransition connects two HFLevels. It scales its linewidth and strength relative
     to its parents based on the clebsch-gordan coefficients etc. associated with itself
@@ -824,7 +861,7 @@ class HFTransition(BaseTransition):
         for a, b in pairs:
             t = ZTransition(a, b, parent=self)
             if np.any(np.array(t.allowed_types)):
-                subtransitions[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
+                subtransitions[self._subtransition_key(t)] = t
             else:
                 del t
         self._publish_subtransitions(subtransitions)
@@ -834,7 +871,7 @@ class HFTransition(BaseTransition):
         self.parent.set_frequency(self.parent.freq + diff)
 
 
-class ZTransition(BaseTransition):
+class ZTransition(SubTransition):
     """
     An ZTransition connects two ZLevels. It scales its linewidth and strength relative
     to its parents based on the clebsch-gordan coefficients etc. associated with itself
-- 
2.43.0


From ba9e387522662e7c6398300b7357bebf4b30686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 09/40] fix: a subtransition key finds the subtransition it
 names, not the one with the reversed key

---
 atomtoolkit/atom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index bb68f63..a767f75 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -715,9 +715,9 @@ class BaseTransition(ABC):
     @lazy_compute_subtransitions
     def __getitem__(self, item: Tuple[str, str]) -> BaseTransition:
         try:
-            return self._subtransitions[(item[1], item[0])]
-        except KeyError:
             return self._subtransitions[item]
+        except KeyError:
+            return self._subtransitions[(item[1], item[0])]
 
     def __setitem__(self, key: Tuple[str, str], value: BaseTransition):
         self._subtransitions[key] = value
-- 
2.43.0


From 7fb6b571dcc0901a683166263b67cb1165039548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 10/40] fix: a transition is found by its ends whatever the
 order its levels were added in, and by energy rank

---
 atomtoolkit/atom.py         |  9 +++++++++
 atomtoolkit/atom_helpers.py | 34 +++++++++++-----------------------
 2 files changed, 20 insertions(+), 23 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index a767f75..d00b1d6 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -712,6 +712,15 @@ class BaseTransition(ABC):
     def __len__(self) -> int:
         return len(self._subtransitions)
 
+    @lazy_compute_subtransitions
+    def between(self, level1: BaseLevel, level2: BaseLevel) -> BaseTransition:
+        """Returns the subtransition that connects two sublevels, regardless of their order"""
+        for a, b in ((level1, level2), (level2, level1)):
+            t = self._subtransitions.get((a.term.short_name, b.term.short_name))
+            if t is not None and {t.E_1, t.E_2} == {a, b}:
+                return t
+        raise KeyError((level1.name, level2.name))
+
     @lazy_compute_subtransitions
     def __getitem__(self, item: Tuple[str, str]) -> BaseTransition:
         try:
diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index db877de..e42a594 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -115,29 +115,17 @@ class TransitionStructure:
         """
         if key in self.aliases.keys():
             return self.aliases[key]
-        # Regardless of the order the keys are passed, internally they will always be processed as (lower, upper)
-        if self.atom.levels[key[0]].level > self.atom.levels[key[1]].level:
-            k_lower, k_upper = key[1], key[0]
-        else:
-            k_lower, k_upper = key[0], key[1]
-        if 'mF=' in key[0]:  # match [conf] [term] F=[f] mF=[mF]
-            main_0, hf_0, z_0 = k_lower.rsplit(' ', maxsplit=2)
-            main_1, hf_1, z_1 = k_upper.rsplit(' ', maxsplit=2)
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][(hf_0, hf_1)][(z_0, z_1)]
-        elif 'mJ=' in key[0]:
-            main_0, z_0 = k_lower.rsplit(' mJ=', maxsplit=1)
-            main_1, z_1 = k_upper.rsplit(' mJ=', maxsplit=1)
-            l_0 = nx.get_node_attributes(self.model, 'level')[main_0]
-            l_1 = nx.get_node_attributes(self.model, 'level')[main_1]
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][
-                (f'F={l_0.term.J_frac}', f'F={l_1.term.J_frac}')][
-                (f'mF={z_0}', f'mF={z_1}')]
-        elif 'F=' in key[0]:  # match [conf] [term] F=[f]
-            main_0, hf_0 = k_lower.rsplit(' ', maxsplit=1)
-            main_1, hf_1 = k_upper.rsplit(' ', maxsplit=1)
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][(hf_0, hf_1)]
-        else:  # match [conf] [term]
-            return nx.get_edge_attributes(self.model, 'transition')[(k_lower, k_upper)]
+        level_0, level_1 = self.atom.levels[key[0]], self.atom.levels[key[1]]
+        # walk up from the levels to their manifolds, whose transition is an edge of the graph, ...
+        pairs = []
+        while level_0 is not level_0.manifold and level_1 is not level_1.manifold:
+            pairs.append((level_0, level_1))
+            level_0, level_1 = level_0.parent, level_1.parent
+        transition = self.model.edges[level_0.name, level_1.name]['transition']
+        # ... and back down through its subtransitions. The order of the levels does not matter in either
+        for pair in reversed(pairs):
+            transition = transition.between(*pair)
+        return transition
 
     def __setitem__(self, value: Transition):
         self.atom.add_transition(value)
-- 
2.43.0


From 8586938feae628a0b0d7691d57daa3b52e84aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 11/40] fix: enforce_consistency honours every fixed frequency
 and reports exactly the contradictory loops

---
 atomtoolkit/atom.py | 62 ++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index d00b1d6..13e589c 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -793,9 +793,6 @@ class Transition(BaseTransition):
 
     def set_frequency(self, freq: pint.Quantity):
         """Set the frequency of the transition. Useful for adding in things like isotope shifts"""
-        if self.set_freq:  # unlock the upper level if the transition is already constrained
-            if self.E_upper.fixed and self.E_lower.fixed:
-                self.E_upper.fixed = False
         self.set_freq = freq
         self.E_1.atom.enforce_consistency(node_or_trans=self.model_name)
 
@@ -1210,33 +1207,36 @@ class Atom:
          :param node_or_trans: the node or transition that called the enforce function. It is used to restrict
          the enforcement to the subgraph in which the change happened
         """
-        # make a subgraph of the full model containing only the fixed edges
-        set_edges = [(u, v) for u, v, e in self._levelsModel.edges(data=True) if e['transition'].set_freq is not None]
-        set_graph = self._levelsModel.edge_subgraph(set_edges)
-        connected_components = (set_graph.subgraph(c) for c in nx.connected_components(set_graph))
-        for subgraph in connected_components:
-            if node_or_trans:
-                # check that the node/transition that triggered the enforcement call is contained in the subgraph
-                if not (node_or_trans in subgraph or node_or_trans in subgraph.edges()):
-                    continue
-            # find the lowest lying level in the subgraph
-            nodes = subgraph.nodes(data='level')
-            lowest, key_lowest = None, None
-            for key, node in nodes:
-                if lowest is None:
-                    lowest, key_lowest = node, key
-                elif node.level_Hz < lowest.level_Hz:
-                    lowest, key_lowest = node, key
+        # make a graph containing only the fixed edges, in the order in which they were added to the model
+        set_graph = nx.Graph()
+        for u, v, t in self._levelsModel.edges(data='transition'):
+            if t.set_freq is not None:
+                set_graph.add_edge(u, v, transition=t)
+        for component in nx.connected_components(set_graph):
+            # check that the node/transition that triggered the enforcement call is contained in the subgraph
+            subgraph = set_graph.subgraph(component)
+            if node_or_trans and not (node_or_trans in subgraph or node_or_trans in subgraph.edges()):
+                continue
             # perform a depth first search starting from the lowest energy node in the subgraph,
-            # setting subsequent levels one at a time
-            search = nx.dfs_edges(subgraph, source=key_lowest)
-            for edge in search:
-                t = subgraph.edges()[edge]['transition']
-                e_l, e_u, freq = t.E_lower, t.E_upper, t.set_freq.to(Hz).magnitude
-                if e_l.fixed and e_u.fixed and freq != abs(e_l.level_Hz - e_u.level_Hz):
-                    warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
-                elif e_u.fixed:
-                    e_l.level_Hz = e_u.level_Hz - freq
+            # setting subsequent levels one at a time, relative to the level they were reached from
+            levels = {n: self._levelsModel.nodes[n]['level'] for n in set_graph if n in component}
+            key_lowest = min(levels, key=lambda n: levels[n].level_Hz)
+            levels[key_lowest].fixed = True
+            edges = set()
+            for placed, new in nx.dfs_edges(set_graph, source=key_lowest):
+                edges |= {(placed, new), (new, placed)}
+                t = set_graph.edges[placed, new]['transition']
+                freq = t.set_freq.to(Hz).magnitude
+                if t.E_upper.name == new:
+                    levels[new].level_Hz = levels[placed].level_Hz + freq
                 else:
-                    e_u.level_Hz = e_l.level_Hz + freq
-                e_u.fixed = e_l.fixed = True
+                    levels[new].level_Hz = levels[placed].level_Hz - freq
+                levels[new].fixed = True
+            # the remaining edges close loops: their transitions got the frequency that the others in the loop imply
+            for u, v, t in set_graph.edges(data='transition'):
+                if u not in component or u == v or (u, v) in edges:
+                    continue
+                tolerance = 16 * np.spacing(max(abs(levels[u].level_Hz), abs(levels[v].level_Hz)))
+                if abs(t.freq_Hz - t.set_freq.to(Hz).magnitude) > tolerance:
+                    warnings.warn(f'Constraint problem encountered when checking {(u, v)}. '
+                                  f'Loop of fixed transitions?')
-- 
2.43.0


From b3c4226cdf98290c4592bb14e5f0e71cebb524f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:23 +0000
Subject: [PATCH 12/40] fix: a transition that cannot be built, or a frequency
 that is not one, leaves the atom as it was

---
 atomtoolkit/atom.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 13e589c..25b8283 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -578,10 +578,7 @@ class BaseTransition(ABC):
         # Energy Levels
         self.E_1, self.E_2 = E1, E2
         self._orient()
-        # Check if in an atom. Subtransitions are added by their parent, once it knows all of them
         self.atom = self.E_1.atom
-        if self.atom is not None and self.parent is None:
-            self.add_to_atom(self.atom)
         # Names
         self.model_name = (self.E_1.name, self.E_2.name)
         self.name = name
@@ -591,9 +588,15 @@ class BaseTransition(ABC):
         self._A = A
         self.A, self.rel_strength = self.compute_linewidth()
         self.allowed_types = self.transition_allowed()
+        if freq is not None:
+            freq.to(Hz)  # raises if it is not a frequency
         self.set_freq = freq
-        if alias is not None:
-            self.atom.transitions.aliases[alias] = self
+        # Add to the atom, if it is already known, now that the transition is complete. Subtransitions are added by
+        # their parent, once it knows all of them
+        if self.atom is not None and self.parent is None:
+            self.add_to_atom(self.atom)
+            if alias is not None:
+                self.atom.transitions.aliases[alias] = self
 
     def __str__(self):
         return self.name
@@ -793,6 +796,8 @@ class Transition(BaseTransition):
 
     def set_frequency(self, freq: pint.Quantity):
         """Set the frequency of the transition. Useful for adding in things like isotope shifts"""
+        if freq is not None:
+            freq.to(Hz)  # raises if it is not a frequency, before anything is changed
         self.set_freq = freq
         self.E_1.atom.enforce_consistency(node_or_trans=self.model_name)
 
-- 
2.43.0


From 5705c9acf3ad611afc909a2ae9f3cc503b447410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 13/40] fix: add_transition adds the levels of the transition
 that the atom does not have yet

---
 atomtoolkit/atom.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 25b8283..23de6dc 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -777,6 +777,13 @@ class Transition(BaseTransition):
                 (np.abs(J1 - J0) <= 1.0 and p0 == p1),
                 (np.abs(J1 - J0) <= 2.0 and p0 == p1 and not (self.E_1 is self.E_2)))
 
+    def add_to_atom(self, atom: Atom):
+        """Add the transition to the atom, and its levels, if the atom does not have them yet"""
+        for level in (self.E_1, self.E_2):
+            if 'level' not in atom.levels.model.nodes.get(level.name, {}):
+                atom.add_level(level)
+        super().add_to_atom(atom)
+
     def _assign_models(self):
         """A Transition lives as an edge in the atom's levelsModel graph"""
         self._model = self.atom.transitions.model
-- 
2.43.0


From 60f5c388d02abebd704c149171469bf57a1a179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 14/40] fix: linked_levels no longer replaces subtransitions,
 and accepts every key that finds the level

---
 atomtoolkit/atom.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 23de6dc..70bfd25 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1171,11 +1171,15 @@ class Atom:
         :return: dict(Level: transition)
         """
         level = self.levels[key]
+        return {k: t for k, t in self._adjacent(level).items() if k != level.name}
+
+    def _adjacent(self, level: BaseLevel) -> Dict[str, BaseTransition]:
+        """All transitions of a level, including the one between the level and itself"""
         if not isinstance(level, EnergyLevel):
-            for k, trans in self.linked_levels(level.parent.name).items():
-                trans.populate_subtransitions()
-        adjacent = level.model.adj[key]
-        return {k: t['transition'] for k, t in adjacent.items() if k != key}
+            for transition in self._adjacent(level.parent).values():
+                transition.subtransitions()
+        with _population_lock:
+            return {k: t['transition'] for k, t in level.model.adj[level.name].items()}
 
     def state_lifetime(self, key: str) -> pint.Quantity:
         """
@@ -1199,7 +1203,7 @@ class Atom:
         transitions = self.linked_levels(key)
         A_coeffs = {}
         for n, t in transitions.items():
-            if t.E_upper.name == key:
+            if t.E_upper is self.levels[key]:
                 A_coeffs[n] = t.A
         try:
             totalAs = np.sum([A.magnitude for A in list(A_coeffs.values())])
-- 
2.43.0


From 515e68c8fa83c01b76a1be415421a99b27529187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 15/40] fix: compute_branching_ratios raises its ValueError
 when a linewidth is unknown

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 70bfd25..230b408 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1207,7 +1207,7 @@ class Atom:
                 A_coeffs[n] = t.A
         try:
             totalAs = np.sum([A.magnitude for A in list(A_coeffs.values())])
-        except TypeError:
+        except (AttributeError, TypeError):
             # CONSIDER: make a custom exception for this? Maybe a whole slew of exceptions to throw
             raise ValueError(f"At least one transition leading from {key} has no valid A coefficient")
 
-- 
2.43.0


From 3567c0bfcc2208c0f03cfaf48f86a310144047fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 16/40] fix: populating transitions by selection rules works,
 keeps existing transitions and leaves no forbidden ones

---
 atomtoolkit/atom.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 230b408..5cba770 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -767,15 +767,20 @@ class Transition(BaseTransition):
 
     def transition_allowed(self) -> Tuple[bool, bool, bool]:
         """Uses selection rules to figure out whether it's an E1, M1, or E2 transition"""
-        J0, J1 = self.E_1.term.J, self.E_2.term.J
-        p0, p1 = self.E_1.term.parity, self.E_2.term.parity
-        if not isinstance(self.E_1, type(self.E_2)):
+        return self.allowed_between(self.E_1, self.E_2)
+
+    @staticmethod
+    def allowed_between(E_1: EnergyLevel, E_2: EnergyLevel) -> Tuple[bool, bool, bool]:
+        """Uses selection rules to figure out whether two levels have E1, M1, or E2 transitions"""
+        J0, J1 = E_1.term.J, E_2.term.J
+        p0, p1 = E_1.term.parity, E_2.term.parity
+        if not isinstance(E_1, type(E_2)):
             return False, False, False
         # for now, I'm assuming that E2 transitions within a manifold are impossible or at least strongly suppressed.
         # Correct me if I'm wrong!
         return ((np.abs(J1 - J0) <= 1.0 and p0 != p1),
                 (np.abs(J1 - J0) <= 1.0 and p0 == p1),
-                (np.abs(J1 - J0) <= 2.0 and p0 == p1 and not (self.E_1 is self.E_2)))
+                (np.abs(J1 - J0) <= 2.0 and p0 == p1 and not (E_1 is E_2)))
 
     def add_to_atom(self, atom: Atom):
         """Add the transition to the atom, and its levels, if the atom does not have them yet"""
@@ -1114,7 +1119,7 @@ class Atom:
         allowed_deltas = []
         # since the ordering of the list is potentially E1, M1, E2, M2, etc. and the allowed deltas are 1, 1, 2, 2, etc.
         for i in range(len(allowed)):
-            if allowed[i // 2] or allowed[i // 2 + 1]:
+            if any(allowed[max(0, 2 * (i - 1)):]):
                 allowed_deltas.append(i)
 
         # The keys of js are J values, and the values are lists of levels with that J value
@@ -1127,13 +1132,11 @@ class Atom:
             j_pairs = zip(set0, set1)
             level_pairs = tqdm(list(itertools.chain.from_iterable([itertools.product(j1, j2) for j1, j2 in j_pairs])))
             for pair in level_pairs:
-                if self.transitions[(pair[0].name, pair[1].name)] is None:
-                    t = Transition(pair[0], pair[1])
-                    if np.any(np.array(t.allowed_types) & np.array(allowed)):
+                if not self._levelsModel.has_edge(pair[0].name, pair[1].name):
+                    if np.any(np.array(Transition.allowed_between(*pair)) & np.array(allowed)):
+                        t = Transition(pair[0], pair[1])
                         level_pairs.set_description(f'processing ΔJ={delta_j:3} transition {t.name:93}')
                         self.add_transition(t)
-                    else:
-                        del t
 
     def populate_internal_transitions(self):
         """
@@ -1141,8 +1144,9 @@ class Atom:
         """
         levels = tqdm(list(self.levels.values()))
         for level in levels:
-            t = Transition(level, level)
-            t.add_to_atom(self)
+            if not self._levelsModel.has_edge(level.name, level.name):
+                t = Transition(level, level)
+                t.add_to_atom(self)
             levels.set_description(f'adding internal transitions to {level.name:91}')
 
     def populate_transitions_df(self, df: pd.DataFrame, **_):
-- 
2.43.0


From 03694b6c510240f9e291e9f7887c49897326cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 17/40] fix: gF follows the level's Lande factor whenever the
 sublevel was first looked up

---
 atomtoolkit/atom.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 5cba770..bd2ea7d 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -401,7 +401,6 @@ class HFLevel(BaseLevel):
         :param parent: the atom that the level is contained in
         """
         super().__init__(term, parent)
-        self.gF = self.compute_gF()
 
     def get_manifold(self) -> EnergyLevel:
         """The parent of a hyperfine level is a fine structure level"""
@@ -476,6 +475,16 @@ class HFLevel(BaseLevel):
         shift = value - self.level
         self.parent.level += shift
 
+    _gF = None  # only set to override the computed value
+
+    @property
+    def gF(self) -> float:
+        return self.compute_gF() if self._gF is None else self._gF
+
+    @gF.setter
+    def gF(self, value: float):
+        self._gF = value
+
     def compute_gF(self) -> float:
         """
         Computes the Lande g-value for the hyperfine level, given its parent's g-value
-- 
2.43.0


From f6c7aeeaeb2473880e50288ea3097eef0b65f8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 18/40] fix: linewidths are kept in Hz, and those of
 subtransitions follow their parent's

---
 atomtoolkit/atom.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index bd2ea7d..4d62d0a 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -594,8 +594,7 @@ class BaseTransition(ABC):
         if self.name is None:
             self.name = f'{self.E_1.name} → {self.E_2.name}'
         # Physical parameters
-        self._A = A
-        self.A, self.rel_strength = self.compute_linewidth()
+        self.A = A
         self.allowed_types = self.transition_allowed()
         if freq is not None:
             freq.to(Hz)  # raises if it is not a frequency
@@ -639,6 +638,20 @@ class BaseTransition(ABC):
     def wl(self) -> pint.Quantity:
         return self.freq.to(ureg.nanometer)
 
+    @property
+    def A(self) -> pint.Quantity or None:
+        """The Einstein A coefficient. That of a subtransition follows its parent's, unless it is set explicitly"""
+        return self.compute_linewidth()[0] if self._A is None else self._A
+
+    @A.setter
+    def A(self, value: pint.Quantity or None):
+        self._A = None if value is None else value.to(Hz)
+
+    @property
+    def rel_strength(self) -> float:
+        """The angular momentum factor by which the transition's linewidth differs from its parent's"""
+        return self.compute_linewidth()[1]
+
     def compute_linewidth(self) -> Tuple[pint.Quantity or None, float]:
         """
         computes the linewidth of the transition, including angular momentum factors
-- 
2.43.0


From 96736eb0b18fb44529e477fbadff211802a6d154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:15 +0000
Subject: [PATCH 19/40] fix: deleting a level or transition works with every
 key and removes its aliases and subtransitions

---
 atomtoolkit/atom_helpers.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index e42a594..2911d68 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -60,7 +60,20 @@ class LevelStructure:
         self.atom.add_level(value, alias=key)
 
     def __delitem__(self, key: str):
-        self.model.remove_node(key)
+        """
+        Removes a level along with its transitions, its sublevels, and the aliases of all of these. What the key finds
+        goes last, so that a deletion that is interrupted can be repeated
+        """
+        level = self[key]
+        if level is not level.manifold:
+            raise KeyError(f'{key} is a sublevel')
+        for neighbor in list(self.model.adj.get(level.name, ())):
+            del self.atom.transitions[(level.name, neighbor)]
+        for alias in [a for a, l in self.aliases.items() if l.manifold is level and a != key]:
+            del self.aliases[alias]
+        for model in (self.z_model, self.hf_model, self.model):
+            model.remove_nodes_from([n for n, l in model.nodes(data='level') if l.manifold is level])
+        self.aliases.pop(key, None)
 
     def __len__(self) -> int:
         return len(nx.get_node_attributes(self.model, 'level'))
@@ -127,11 +140,26 @@ class TransitionStructure:
             transition = transition.between(*pair)
         return transition
 
-    def __setitem__(self, value: Transition):
+    def __setitem__(self, key: str, value: Transition):
         self.atom.add_transition(value)
+        value.alias = key
 
-    def __delitem__(self, level1: str, level2: str):
-        self.model.remove_edge(level1, level2)
+    def __delitem__(self, key: Tuple[str, str] or str):
+        """
+        Removes a transition along with its subtransitions, and the aliases of all of these. What the key finds goes
+        last, so that a deletion that is interrupted can be repeated
+        """
+        transition = self[key]
+        if transition.parent is not None:
+            raise KeyError(f'{key} is a subtransition')
+
+        def is_part(t):
+            return t is transition or (t.parent is not None and is_part(t.parent))
+        for alias in [a for a, t in self.aliases.items() if is_part(t) and a != key]:
+            del self.aliases[alias]
+        for model in (self.z_model, self.hf_model, self.model):
+            model.remove_edges_from([(u, v) for u, v, t in model.edges(data='transition') if is_part(t)])
+        self.aliases.pop(key, None)
 
     def __len__(self) -> int:
         return len(nx.get_edge_attributes(self.model, 'transition'))
-- 
2.43.0


From 3eefd300e8474f92414ce3296f49de989dcdbfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 20/40] fix: energies of sublevels and frequencies of
 subtransitions can be set in every unit that levels and transitions accept

---
 atomtoolkit/atom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 4d62d0a..76edb51 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -472,7 +472,7 @@ class HFLevel(BaseLevel):
         parent to move by the same amount instead of moving itself
         :param value: the new level of the hyperfine level
         """
-        shift = value - self.level
+        shift = value.to(Hz) - self.level
         self.parent.level += shift
 
     _gF = None  # only set to override the computed value
@@ -912,7 +912,7 @@ class HFTransition(SubTransition):
         self._publish_subtransitions(subtransitions)
 
     def set_frequency(self, freq: pint.Quantity):
-        diff = freq - self.freq
+        diff = freq.to(Hz) - self.freq
         self.parent.set_frequency(self.parent.freq + diff)
 
 
@@ -959,7 +959,7 @@ class ZTransition(SubTransition):
         pass
 
     def set_frequency(self, freq: pint.Quantity):
-        diff = freq - self.freq
+        diff = freq.to(Hz) - self.freq
         self.parent.set_frequency(self.parent.freq + diff)
 
 
-- 
2.43.0


From d8e4acbce3da63b27bf571b75834822664ed392a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 21/40] fix: a NIST table without an ionization limit is no
 longer loaded as an empty one

---
 atomtoolkit/IO.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index 4228434..385fed3 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -115,7 +115,9 @@ def _load_NIST_data(species: str, term_ordered: bool = False, save: bool or str
     df_clean['Level (Hz)'] = df_clean['Level (cm-1)'].pint.to('Hz')
 
     # remove any terms above ionization, and the ionization row
-    df_clean = df_clean.loc[:(df_clean['Term'] == 'Limit').idxmax() - 1]
+    limit = df_clean['Term'] == 'Limit'
+    if limit.any():
+        df_clean = df_clean.loc[:limit.idxmax() - 1]
     # split up levels with multiple J
     df_clean.J = df_clean.J.str.replace(" or", ",")
     df_clean.J = df_clean.J.str.split(",")
-- 
2.43.0


From 78ba27c160a050a1abe51e91d76729898c835b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 22/40] fix: rendering a Grotrian diagram again draws its
 levels once, at their current positions

---
 atomtoolkit/render/grotrian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index bfb441f..b14b5b5 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -172,7 +172,9 @@ class Grotrian:
             return [[(min_x + h, min_y), (min_x, min_y), (min_x, max_y), (min_x + h, max_y)],
                     [(max_x - h, min_y), (max_x, min_y), (max_x, max_y), (max_x - h, max_y)]]
 
-        # build up a table of all the relevant levels AND sublevels (for bbox/transition reasons)
+        # build up a table of all the relevant levels AND sublevels (for bbox/transition reasons), leaving out what an
+        # earlier rendering may have put there
+        self.lines_df = pd.DataFrame(columns=['level', 'show', 'p0', 'p1', 'bbox', 'kwargs'])
         for i, row in self.level_prompts.iterrows():
             self.lines_df = pd.concat([self.lines_df, pd.DataFrame(row['strategy'](row['level'], **row['kwargs']))],
                                       ignore_index=True)
-- 
2.43.0


From d8ad7b969b1a9e35e9e83a3855581063fb55e6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 23/40] fix: the cached results of the coupling transforms
 cannot be changed by a caller

---
 atomtoolkit/transition_strengths.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 8fa5275..1c15a81 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -33,6 +33,12 @@ def tkq_mel(I: float, k: int, q: int,
     return prod
 
 
+def _read_only(array: np.array) -> np.array:
+    """Protects an array that is handed out by a cached function from changes, which every later caller would see"""
+    array.setflags(write=False)
+    return array
+
+
 # The tensor math for E2 (and somewhat E1) transitions is adapted from Tony's thesis (Ransford 2020)
 @functools.lru_cache(maxsize=None)
 def E1_mel_geom(eps: np.array, I: float,
@@ -154,7 +160,7 @@ def JJ_to_LS(J: float, Jc: float, Jo: float, lc: float, sc: float, lo: float, so
                                         outls[i], outss[i], J) *
                                np.sqrt((2 * Jc + 1) * (2 * Jo + 1) * (2 * outls[i] + 1) * (2 * outss[i] + 1)))
                          for i in range(len(outls))])
-    return np.stack([outls, outss, outpercs])
+    return _read_only(np.stack([outls, outss, outpercs]))
 
 
 @functools.lru_cache(maxsize=None)
@@ -169,7 +175,7 @@ def JK_to_LS(J: float, Jc: float, K: float, lc: float, sc: float, lo: float, so:
                                         lo, K, outls[i]) * \
                                wigner6j(outls[i], sc, K,
                                         so, J, outss[i])) for i in range(len(outls))])
-    return np.stack([outls, outss, outpercs])
+    return _read_only(np.stack([outls, outss, outpercs]))
 
 
 @functools.lru_cache(maxsize=None)
@@ -181,7 +187,7 @@ def LK_to_LS(J: float, L: float, K: float, sc: float, so: float) -> np.array:
     outpercs = np.array([np.sqrt((2 * K + 1) * (2 * outss[i] + 1)) * wigner6j(L, sc, K,
                                                                               so, J, outss[i]) for i in
                          range(len(outls))])
-    return np.stack([outls, outss, outpercs])
+    return _read_only(np.stack([outls, outss, outpercs]))
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 10255ce50b4dee0f4ea0f38f594db5469f70f582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 24/40] fix: the octupole shift of a stretched hyperfine level
 is C

---
 atomtoolkit/atom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 76edb51..46a117b 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -449,7 +449,8 @@ class HFLevel(BaseLevel):
         else:
             FM3 = (10 * IdotJ ** 3 + 20 * IdotJ ** 2 + 2 * IdotJ * (
                     -3 * I * (I + 1) * J * (J + 1) + I * (I + 1) + J * (J + 1) + 3)
-                   - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * J * (J - 1) * (2 * J - 1))
+                   - 5 * I * (I + 1) * J * (J + 1)) / \
+                  (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
         return self.manifold.hfA_Hz * FM1 + self.manifold.hfB_Hz * FE2 + self.manifold.hfC_Hz * FM3
 
     @property
-- 
2.43.0


From 1ac19c28f65173c3b4c321b5cbe87097c0a8e534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 25/40] fix: a level can be put at 0 cm^-1

---
 atomtoolkit/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/__init__.py b/atomtoolkit/__init__.py
index 0eb8241..47201c3 100644
--- a/atomtoolkit/__init__.py
+++ b/atomtoolkit/__init__.py
@@ -8,13 +8,14 @@ Q_ = ureg.Quantity
 pint.set_application_registry(ureg)
 pint_pandas.PintType.ureg = ureg
 
-# add wavenumbers to the pint spectroscopy context
-_c = pint.Context('spectroscopy')
+# add wavenumbers to the pint spectroscopy context, which converts them by way of wavelengths, and thus fails for 0 cm^-1
+_c = pint.Context('wavenumber')
 _c.add_transformation('[wavenumber]', '[frequency]',
                       lambda ureg, x: x * ureg.speed_of_light)
 _c.add_transformation('[frequency]', '[wavenumber]',
                       lambda ureg, x: x / ureg.speed_of_light)
-ureg.enable_contexts('spectroscopy')
+ureg.add_context(_c)
+ureg.enable_contexts('spectroscopy', 'wavenumber')
 
 c = ureg.speed_of_light
 Hz = ureg.Hz
-- 
2.43.0


From d9c8e1f442ec759eec46439000c91a52f415d160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:29 +0000
Subject: [PATCH 26/40] fix: an alias that cannot be one no longer leaves a
 level or transition half added

---
 atomtoolkit/atom.py         | 6 ++++--
 atomtoolkit/atom_helpers.py | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 46a117b..2fc47e2 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -168,8 +168,8 @@ class BaseLevel(ABC):
 
     @alias.setter
     def alias(self, al: str):
+        self.atom.levels.aliases[al] = self  # raises if it cannot be an alias, before anything is changed
         self._alias = al
-        self.atom.levels.aliases[al] = self
 
     @property
     def model(self) -> nx.Graph:
@@ -603,6 +603,7 @@ class BaseTransition(ABC):
         # Add to the atom, if it is already known, now that the transition is complete. Subtransitions are added by
         # their parent, once it knows all of them
         if self.atom is not None and self.parent is None:
+            hash(alias)  # raises if it cannot be an alias, before anything is changed
             self.add_to_atom(self.atom)
             if alias is not None:
                 self.atom.transitions.aliases[alias] = self
@@ -695,8 +696,8 @@ class BaseTransition(ABC):
 
     @alias.setter
     def alias(self, al: str):
+        self.atom.transitions.aliases[al] = self  # raises if it cannot be an alias, before anything is changed
         self._alias = al
-        self.atom.transitions.aliases[al] = self
 
     def add_to_atom(self, atom: Atom):  # pragma: no cover
         """Add the transition to the atom and the appropriate graphs within the atom"""
@@ -1038,6 +1039,7 @@ class Atom:
         :return: the level that was added (in case you'd like an easy reference to it)
         """
         # TODO: On-the-spot EnergyLevel creation?
+        hash(alias)  # raises if it cannot be an alias, before anything is changed
         level.add_to_atom(self)
         if alias is not None:
             level.alias = alias
diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index 2911d68..7e79aca 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -141,6 +141,7 @@ class TransitionStructure:
         return transition
 
     def __setitem__(self, key: str, value: Transition):
+        hash(key)  # raises if it cannot be an alias, before anything is changed
         self.atom.add_transition(value)
         value.alias = key
 
-- 
2.43.0


From 4449f967e2cf02f07e60b91cc47a6b2c8c8138ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:46 +0000
Subject: [PATCH 27/40] fix: generate_hf_csv replaces only an A that is zero by
 the default, not one too small for GHz

---
 atomtoolkit/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index 385fed3..af2cfe1 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -254,7 +254,7 @@ def generate_hf_csv(atom, filename=None, blank=False, def_A=Q_(0.0, 'GHz')):
         filename = f'{atom.name}_Hyperfine.csv'
     if not blank:
         rows_to_write = [
-            [level.name, (level.hfA if level.hfA != Q_(0.0, 'GHz') else def_A), level.hfB, level.hfC]
+            [level.name, (level.hfA if level.hfA_Hz != 0 else def_A), level.hfB, level.hfC]
             for level in list(atom.levels.values())]
     else:
         rows_to_write = [
-- 
2.43.0


From f63555ef9e923926ea8fa03821328214c1da3751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:50 +0000
Subject: [PATCH 28/40] fix: generate_full_from_dataframe reports hyperfine
 values with wrong units

pint's DimensionalityError is a TypeError, so a table with such a value was
silently not applied at all.
---
 atomtoolkit/IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index af2cfe1..2c1989e 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -303,10 +303,10 @@ def generate_full_from_dataframe(df, name, I=0.0, **kwargs):
     :return: an instantiated atom
     """
     a = Atom.from_dataframe(df, name, I, **kwargs)
-    if 'hf_csv' in kwargs:
+    if kwargs.get('hf_csv') is not None:
         try:
             apply_hf_csv(a, kwargs['hf_csv'])
-        except (FileNotFoundError, TypeError):
+        except FileNotFoundError:
             pass
     if 'transitions_csv' in kwargs:
         apply_transition_csv(a, kwargs['transitions_csv'])
-- 
2.43.0


From a3f41f31d4b85dec10b1a87ed9dc58f700f7960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:17 +0000
Subject: [PATCH 29/40] fix: rendering a diagram without levels raised a
 KeyError

---
 atomtoolkit/render/grotrian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index b14b5b5..e9fefdf 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -207,7 +207,7 @@ class Grotrian:
         axes.add_collection(rects)
 
         # draw the levels
-        filtered_df = self.lines_df[self.lines_df['show']]
+        filtered_df = self.lines_df[self.lines_df['show'].astype(bool)]
         segments = list(zip(filtered_df['p0'].tolist(), filtered_df['p1'].tolist()))
         colors = [d.get('color', (0, 0, 0, 1)) for d in filtered_df['kwargs']]
         linewidths = [d.get('linewidth', 2) for d in filtered_df['kwargs']]
-- 
2.43.0


From 1b02b5e25b547d7ddda21a414055b7be5fda2e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 30/40] fix: the coupling transforms hand out their cached
 arrays, whose shape could still be changed

---
 atomtoolkit/transition_strengths.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 1c15a81..b883479 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -33,10 +33,15 @@ def tkq_mel(I: float, k: int, q: int,
     return prod
 
 
-def _read_only(array: np.array) -> np.array:
-    """Protects an array that is handed out by a cached function from changes, which every later caller would see"""
-    array.setflags(write=False)
-    return array
+def _cached_array(func):
+    """Caches the arrays that func computes. Every caller gets a copy, so that changing it doesn't affect the others"""
+    cached = functools.lru_cache(maxsize=None)(func)
+
+    @functools.wraps(func)
+    def wrapper(*args, **kwargs):
+        return cached(*args, **kwargs).copy()
+
+    return wrapper
 
 
 # The tensor math for E2 (and somewhat E1) transitions is adapted from Tony's thesis (Ransford 2020)
@@ -149,7 +154,7 @@ def E2_transition_strength_avg(I: float, J0: float, F0: float, M0: float, J1: fl
     return tot
 
 
-@functools.lru_cache(maxsize=None)
+@_cached_array
 def JJ_to_LS(J: float, Jc: float, Jo: float, lc: float, sc: float, lo: float, so: float) -> np.array:
     ls = np.arange(abs(lc - lo), abs(lc + lo) + 1)
     ss = np.arange(abs(sc - so), abs(sc + so) + 1)
@@ -160,10 +165,10 @@ def JJ_to_LS(J: float, Jc: float, Jo: float, lc: float, sc: float, lo: float, so
                                         outls[i], outss[i], J) *
                                np.sqrt((2 * Jc + 1) * (2 * Jo + 1) * (2 * outls[i] + 1) * (2 * outss[i] + 1)))
                          for i in range(len(outls))])
-    return _read_only(np.stack([outls, outss, outpercs]))
+    return np.stack([outls, outss, outpercs])
 
 
-@functools.lru_cache(maxsize=None)
+@_cached_array
 def JK_to_LS(J: float, Jc: float, K: float, lc: float, sc: float, lo: float, so: float) -> np.array:
     ls = np.arange(abs(lc - lo), abs(lc + lo) + 1)
     ss = np.arange(abs(sc - so), abs(sc + so) + 1)
@@ -175,10 +180,10 @@ def JK_to_LS(J: float, Jc: float, K: float, lc: float, sc: float, lo: float, so:
                                         lo, K, outls[i]) * \
                                wigner6j(outls[i], sc, K,
                                         so, J, outss[i])) for i in range(len(outls))])
-    return _read_only(np.stack([outls, outss, outpercs]))
+    return np.stack([outls, outss, outpercs])
 
 
-@functools.lru_cache(maxsize=None)
+@_cached_array
 def LK_to_LS(J: float, L: float, K: float, sc: float, so: float) -> np.array:
     ls = [L]
     ss = np.arange(abs(sc - so), abs(sc + so) + 1)
@@ -187,7 +192,7 @@ def LK_to_LS(J: float, L: float, K: float, sc: float, so: float) -> np.array:
     outpercs = np.array([np.sqrt((2 * K + 1) * (2 * outss[i] + 1)) * wigner6j(L, sc, K,
                                                                               so, J, outss[i]) for i in
                          range(len(outls))])
-    return _read_only(np.stack([outls, outss, outpercs]))
+    return np.stack([outls, outss, outpercs])
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 44a4a9bc2fae1b2b9277f299b71434e6860f7544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 31/40] fix: cached results of calls with one numeric type are
 served to calls with another

With bool and unsigned quantum numbers the functions give other results (or errors) than with floats; these
compare equal, so that the cache handed the results out to later calls with ordinary numbers.
---
 atomtoolkit/transition_strengths.py | 24 ++++++++++++------------
 atomtoolkit/wigner.py               |  6 +++---
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index b883479..a3ba73d 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -11,7 +11,7 @@ import numpy as np
 from .wigner import wigner3j, wigner6j, wigner9j
 
 
-@functools.lru_cache(maxsize=None)
+@functools.lru_cache(maxsize=None, typed=True)
 def tkq_transition_strength(I: float, k: int, q: int,
                             J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     prod = 1
@@ -22,7 +22,7 @@ def tkq_transition_strength(I: float, k: int, q: int,
     return prod
 
 
-@functools.lru_cache(maxsize=None)
+@functools.lru_cache(maxsize=None, typed=True)
 def tkq_mel(I: float, k: int, q: int,
             J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     prod = 1
@@ -35,7 +35,7 @@ def tkq_mel(I: float, k: int, q: int,
 
 def _cached_array(func):
     """Caches the arrays that func computes. Every caller gets a copy, so that changing it doesn't affect the others"""
-    cached = functools.lru_cache(maxsize=None)(func)
+    cached = functools.lru_cache(maxsize=None, typed=True)(func)
 
     @functools.wraps(func)
     def wrapper(*args, **kwargs):
@@ -45,7 +45,7 @@ def _cached_array(func):
 
 
 # The tensor math for E2 (and somewhat E1) transitions is adapted from Tony's thesis (Ransford 2020)
-@functools.lru_cache(maxsize=None)
+@functools.lru_cache(maxsize=None, typed=True)
 def E1_mel_geom(eps: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -56,7 +56,7 @@ def E1_mel_geom(eps: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
+@functools.lru_cache(maxsize=None, typed=True)
 def E1_transition_strength_geom(eps: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -67,12 +67,12 @@ def E1_transition_strength_geom(eps: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
+@functools.lru_cache(maxsize=None, typed=True)
 def E1_transition_strength_avg(I: float, J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     return sum([tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1) for q in [-1, 0, 1]]) / 3.0
 
 
-@functools.lru_cache(maxsize=None)
+@functools.lru_cache(maxsize=None, typed=True)
 def M1_mel_geom(eps: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -83,7 +83,7 @@ def M1_mel_geom(eps: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
+@functools.lru_cache(maxsize=None, typed=True)
 def M1_transition_strength_geom(eps: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -96,12 +96,12 @@ def M1_transition_strength_geom(eps: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
+@functools.lru_cache(maxsize=None, typed=True)
 def M1_transition_strength_avg(I: float, J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     return sum([tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1) for q in [-1, 0, 1]]) / 3.0
 
 
-@functools.lru_cache(maxsize=None)
+@functools.lru_cache(maxsize=None, typed=True)
 def E2_mel_geom(eps: np.array, k: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -122,7 +122,7 @@ def E2_mel_geom(eps: np.array, k: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
+@functools.lru_cache(maxsize=None, typed=True)
 def E2_transition_strength_geom(eps: np.array, k: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -143,7 +143,7 @@ def E2_transition_strength_geom(eps: np.array, k: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
+@functools.lru_cache(maxsize=None, typed=True)
 def E2_transition_strength_avg(I: float, J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     tot = 0
     tot += tkq_transition_strength(I, 2, -2, J0, F0, M0, J1, F1, M1) * (3.0 / 29.0)
diff --git a/atomtoolkit/wigner.py b/atomtoolkit/wigner.py
index 936c710..d9d6a43 100644
--- a/atomtoolkit/wigner.py
+++ b/atomtoolkit/wigner.py
@@ -46,6 +46,6 @@ def wignerPicker(func):
     return wrapper
 
 
-wigner3j = (functools.lru_cache(maxsize=None))(wignerPicker(_wigner3j))
-wigner6j = (functools.lru_cache(maxsize=None))(wignerPicker(_wigner6j))
-wigner9j = (functools.lru_cache(maxsize=None))(wignerPicker(_wigner9j))
+wigner3j = (functools.lru_cache(maxsize=None, typed=True))(wignerPicker(_wigner3j))
+wigner6j = (functools.lru_cache(maxsize=None, typed=True))(wignerPicker(_wigner6j))
+wigner9j = (functools.lru_cache(maxsize=None, typed=True))(wignerPicker(_wigner9j))
-- 
2.43.0


From c3e821390f12bcb593ca323c8fe947e4ee22bfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 32/40] fix: two threads that compute Wigner symbols can
 corrupt sympy's table of factorials for good

---
 atomtoolkit/wigner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/wigner.py b/atomtoolkit/wigner.py
index d9d6a43..5fd1f3c 100644
--- a/atomtoolkit/wigner.py
+++ b/atomtoolkit/wigner.py
@@ -3,6 +3,10 @@ Wigner functions used throughout the package, wrapped in a way that's convenient
 """
 
 import functools
+import threading
+
+# sympy keeps a table of factorials, which is corrupted for good if two threads extend it at the same time
+_wigner_lock = threading.RLock()
 
 try:
     # py3nj is a pain to install, and requires a fortran compiler among other things, therefore it's optional.
@@ -39,7 +43,8 @@ def wignerPicker(func):
         else:
             # sympy throws an error when selection rules are violated, but it needs to return 0
             try:
-                return N(func(*args))
+                with _wigner_lock:
+                    return N(func(*args))
             except ValueError:
                 return 0.0
 
-- 
2.43.0


From 7d1d8b6b9d9ac84cc0fb73788ac55ca51d50a03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 33/40] fix: a spectrum's laser linewidth is taken in GHz

GHz is a quantity of 1e9 Hz, so .to(GHz) converted to Hz and a laser of 30 MHz
was drawn 30000000 GHz wide.
---
 atomtoolkit/render/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index d3cf32c..310584e 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -155,10 +155,10 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
     if lineshape is not None:
         lineshape_func = lineshape
     elif temp.magnitude == 0:
-        lineshape_func = LorentzianLineShape(gamma=laser_linewidth.to(GHz).magnitude)
+        lineshape_func = LorentzianLineShape(gamma=laser_linewidth.to('GHz').magnitude)
     else:
         assert mass is not None, "thermal lineshape requires mass to be given"
-        lineshape_func = ThermalLineShape(T=temp, m=mass, gamma=laser_linewidth.to(GHz).magnitude)
+        lineshape_func = ThermalLineShape(T=temp, m=mass, gamma=laser_linewidth.to('GHz').magnitude)
 
     # parse the color function CONSIDER: move this to a separate function for cleaner code?
     def color_func(t): pass
-- 
2.43.0


From a1a70dac7fd705ac4ea559f2a6983878ea21ba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 34/40] fix: plot_spectrum draws the components of a transition
 it is given

A single transition was looked up with the key 0 and iterated over as if it were a list.
---
 atomtoolkit/render/spectra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index 310584e..01ac06e 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -164,7 +164,7 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
     def color_func(t): pass
     if type(lines[0]) == Transition:
         def color_func(t): return (0, 0, 0, 1)
-    elif type(transitions[0]) == HFTransition:
+    elif type(lines[0]) == HFTransition:
         if coloring == 'l':
             color_dict = color_table_from_property(lines,
                                                    property_color=lambda t: t.E_lower.term.F,
@@ -177,7 +177,7 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
                                                    cmap=kwargs.pop('cmap', 'tab10'))
 
         def color_func(t): return color_dict[t]
-    elif type(transitions[0]) == ZTransition:
+    elif type(lines[0]) == ZTransition:
         if coloring == 'l':
             color_dict = color_table_from_property(lines,
                                                    property_color=lambda t: t.E_lower.term.mF,
@@ -196,4 +196,4 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
 
         def color_func(t): return color_dict[t]
 
-    plot_transitions(transitions, lineshape_func, color_func=color_func, ampl_dict=ampl_dict)
+    plot_transitions(lines, lineshape_func, color_func=color_func, ampl_dict=ampl_dict)
-- 
2.43.0


From 627f8f8fceb037c6c8311cb4327815dfc9ae860f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 35/40] fix: plot_spectrum draws components when no coloring is
 given

The default, coloring=None, raised a NameError for hyperfine and Zeeman transitions.
---
 atomtoolkit/render/spectra.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index 01ac06e..f1cf5c7 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -161,6 +161,7 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
         lineshape_func = ThermalLineShape(T=temp, m=mass, gamma=laser_linewidth.to('GHz').magnitude)
 
     # parse the color function CONSIDER: move this to a separate function for cleaner code?
+    color_dict = {}
     def color_func(t): pass
     if type(lines[0]) == Transition:
         def color_func(t): return (0, 0, 0, 1)
@@ -176,7 +177,7 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
                                                    property_shade=lambda t: t.E_lower.term.F,
                                                    cmap=kwargs.pop('cmap', 'tab10'))
 
-        def color_func(t): return color_dict[t]
+        def color_func(t): return color_dict.get(t)
     elif type(lines[0]) == ZTransition:
         if coloring == 'l':
             color_dict = color_table_from_property(lines,
@@ -194,6 +195,6 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
                                                    property_shade=lambda t: t.E_lower.term.mF,
                                                    cmap=kwargs.pop('cmap', 'tab10'))
 
-        def color_func(t): return color_dict[t]
+        def color_func(t): return color_dict.get(t)
 
     plot_transitions(lines, lineshape_func, color_func=color_func, ampl_dict=ampl_dict)
-- 
2.43.0


From 4384f774f76efe8ab492687d4f8219d67e509635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:04 +0000
Subject: [PATCH 36/40] fix: a key like 'F=1' or 'mF=0' that names no level
 raises KeyError

Once an alias of that form was deleted, it raised ValueError, as did importing a hyperfine table with such a row.
---
 atomtoolkit/atom_helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index 7e79aca..9dbe989 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -44,14 +44,15 @@ class LevelStructure:
         if key in self.aliases:
             return self.aliases[key]
         if 'mF=' in key:  # match [conf] [term] F=[f] mF=[mF]
-            main, hf, z = key.rsplit(' ', maxsplit=2)
+            parent, _, z = key.rpartition(' ')
+            main, _, hf = parent.rpartition(' ')
             return nx.get_node_attributes(self.model, 'level')[main][hf][z]
         elif 'mJ=' in key:  # match [conf] [term] mJ=[mJ] --- only applies when I=0
-            main, z = key.rsplit(' mJ=', maxsplit=1)
+            main, _, z = key.rpartition(' mJ=')
             l = nx.get_node_attributes(self.model, 'level')[main]
             return l[f'F={l.term.J_frac}'][f'mF={z}']
         elif 'F=' in key:  # match [conf] [term] F=[F]
-            main, hf = key.rsplit(' ', maxsplit=1)
+            main, _, hf = key.rpartition(' ')
             return nx.get_node_attributes(self.model, 'level')[main][hf]
         else:  # match [conf] [term]
             return nx.get_node_attributes(self.model, 'level')[key]
-- 
2.43.0


From 8cbe9839619396a3e5c2ef6e3382a5dea2fb42eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:21 +0000
Subject: [PATCH 37/40] fix: adding a transition again after an interruption
 registers the aliases of its new levels

If the interruption came between the level's and its alias's registration, the alias was lost.
---
 atomtoolkit/atom.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 2fc47e2..1619b12 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -809,7 +809,9 @@ class Transition(BaseTransition):
     def add_to_atom(self, atom: Atom):
         """Add the transition to the atom, and its levels, if the atom does not have them yet"""
         for level in (self.E_1, self.E_2):
-            if 'level' not in atom.levels.model.nodes.get(level.name, {}):
+            present = atom.levels.model.nodes.get(level.name, {}).get('level')
+            # also if an interruption kept it from getting its alias
+            if present is None or (present is level and level.alias not in atom.levels.aliases and level.alias is not None):
                 atom.add_level(level)
         super().add_to_atom(atom)
 
-- 
2.43.0


From 08e08e4e751b4cad27b719610984e0f18b288b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 38/40] fix: the shades of a spectrum's lines stay within range
 when lines between them are missing

---
 atomtoolkit/render/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index f1cf5c7..c6b6cc9 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -119,6 +119,8 @@ def color_table_from_property(items: List[BaseTransition],
     prop_pairs = list(zip(main_props, secondary_props))
     # a dict that yields the lowest secondary property associated with each main property
     min_main_props = {p0: min([Fp[1] for Fp in prop_pairs if Fp[0] == p0]) for p0 in main_props}
+    # the number of shades between the lowest and the highest one
+    num_shades = {p0: max([Fp[1] for Fp in prop_pairs if Fp[0] == p0]) - min_main_props[p0] + 1 for p0 in main_props}
 
     def color_by_properties(t):
         colormap = plt.get_cmap(cmap)
@@ -131,7 +133,7 @@ def color_table_from_property(items: List[BaseTransition],
         # convert it to HLS
         col = colorsys.rgb_to_hls(*matplotlib.colors.to_rgb(col))
         # set the lightness depending on the shade property and convert back to RGB
-        lightness = 0.2 + 0.6 * (shade_prop - min_main_props[color_prop] + 1) / (num_main_props[color_prop] + 1)
+        lightness = 0.2 + 0.6 * (shade_prop - min_main_props[color_prop] + 1) / (num_shades[color_prop] + 1)
         col = colorsys.hls_to_rgb(col[0], lightness, col[2])
         return col
 
-- 
2.43.0


From c11ea681a5c26b0ebf269435cb44b220ca4f6a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 39/40] fix: add_transition finds an existing transition
 whatever the order of its ends

Asked to add a transition between two levels that already have one, add_transition warns and returns it, but only if the
names came in the order in which it was made. With the names reversed, an alias, or the levels themselves, it silently
replaced the transition, its A and its alias.
---
 atomtoolkit/atom.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 1619b12..68353c7 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1060,13 +1060,13 @@ class Atom:
         """
         # CONSIDER: Should you be able to add non-top-level transitions directly to an atom?
         if isinstance(transition, tuple):
-            if transition in self.transitions.keys():
-                warnings.warn(f'transition {transition} is already in {self.name}')
-                transition = self.transitions[transition]
-            elif isinstance(transition[0], str):
-                transition = Transition(self.levels[transition[0]], self.levels[transition[1]], **kwargs)
-            elif isinstance(transition[0], BaseLevel):
-                transition = Transition(transition[0], transition[1], **kwargs)
+            ends = [self.levels[end] if isinstance(end, str) else end for end in transition]
+            names = tuple(end.name for end in ends)
+            if self._levelsModel.has_edge(*names):  # whatever the order of its ends
+                warnings.warn(f'transition {names} is already in {self.name}')
+                transition = self.transitions[names]
+            else:
+                transition = Transition(*ends, **kwargs)
 
         transition.add_to_atom(self)
         if transition.alias is not None:
-- 
2.43.0


From fe97831043809b80fcf77fb46f37dad35adcb35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 40/40] fix: an atom can be saved while other threads look
 things up in it

Pickling runs Python code (of pint), in the middle of which another thread could add sublevels, or networkx a cached view, to
a dictionary that was just being written: save then failed with 'dictionary changed size during iteration'.
---
 atomtoolkit/atom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 68353c7..6134358 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1093,7 +1093,10 @@ class Atom:
             filename = self.name
         if not filename.endswith(".atom"):
             filename = filename + ".atom"
-        with util.atomic_write(filename, "wb") as file:
+        # other threads that look things up for the first time wait, so that nothing appears while the atom is written
+        with util.atomic_write(filename, "wb") as file, _population_lock:
+            for model in (self._levelsModel, self._hfModel, self._zModel):
+                _ = model.nodes, model.edges, model.adj, model.degree  # networkx creates them on their first access
             pickle.dump(self, file)
 
     @classmethod
-- 
2.43.0

