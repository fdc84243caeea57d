From 27fef916e541162b3de75f170f7161df575f533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 01/56] fix: unlink an event that has not been linked without
 raising an error

---
 causetevent.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index efe1772..431e9ec 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -214,8 +214,9 @@ class CausetEvent(object):
         '''
         Force the CausetEvent instance to reset its link memory.
         '''
-        delattr(self, '_lprec')
-        delattr(self, '_lsucc')
+        if self.hasBeenLinked():
+            delattr(self, '_lprec')
+            delattr(self, '_lsucc')
 
     @classmethod
     def isLink(cls, a: 'CausetEvent', b: 'CausetEvent') -> bool:
-- 
2.43.0


From a35766edf621ba1798e4b0e7a445632b7312508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 02/56] fix: restore the links around an event that is
 disjoined from its causet

---
 causetevent.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 431e9ec..3150cc5 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -109,18 +109,18 @@ class CausetEvent(object):
         It returns True if the event was in the past or future, otherwise False.
         '''
         if other in self._prec:
+            self._prec.discard(other)
             if self.hasBeenLinked() and (other in self._lprec):
+                self._lprec.remove(other)
                 self._lprec |= {
                     e for e in other._prec if CausetEvent.isLink(e, self)}
-                self._lprec.remove(other)
-            self._prec.discard(other)
             return True
         elif other in self._succ:
+            self._succ.discard(other)
             if self.hasBeenLinked() and (other in self._lsucc):
+                self._lsucc.remove(other)
                 self._lsucc |= {
                     e for e in other._succ if CausetEvent.isLink(self, e)}
-                self._lsucc.remove(other)
-            self._succ.discard(other)
             return True
         else:
             return False
-- 
2.43.0


From 94d52b26335c7866824d83d63f895f92e7e7d50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 03/56] fix: isLink must not report a link between unrelated
 events

---
 causetevent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index 3150cc5..d5a9bf9 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -82,10 +82,10 @@ class CausetEvent(object):
         if other in self._prec:
             return False
         else:
+            self._prec.add(other)
             if self.hasBeenLinked() and CausetEvent.isLink(other, self):
                 self._lprec -= other._prec
                 self._lprec.add(other)
-            self._prec.add(other)
             return True
 
     def _addToFuture(self, other: 'CausetEvent') -> bool:
@@ -97,10 +97,10 @@ class CausetEvent(object):
         if other in self._succ:
             return False
         else:
+            self._succ.add(other)
             if self.hasBeenLinked() and CausetEvent.isLink(self, other):
                 self._lsucc -= other._succ
                 self._lsucc.add(other)
-            self._succ.add(other)
             return True
 
     def _discard(self, other: 'CausetEvent') -> bool:
@@ -228,7 +228,7 @@ class CausetEvent(object):
         method many times, faster access is achieved with the call of 
         a.isFutureLink(b).
         '''
-        return not (a._succ & b._prec)
+        return (a in b._prec) and not (a._succ & b._prec)
 
     def isPastLink(self, other: 'CausetEvent') -> bool:
         '''
-- 
2.43.0


From 0b6ad6619935f4f8af65f480ac006dfc3b989e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 04/56] fix: relate the past of a new event to its future

---
 causetevent.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index d5a9bf9..c460d62 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -65,6 +65,11 @@ class CausetEvent(object):
             e._addToFuture(self)
         for e in self._succ:
             e._addToPast(self)
+        # Relate the past to the future of this instance (transitivity):
+        for a in self._prec:
+            for b in self._succ:
+                a._addToFuture(b)
+                b._addToPast(a)
 
     def hasBeenLinked(self) -> bool:
         '''
@@ -83,9 +88,10 @@ class CausetEvent(object):
             return False
         else:
             self._prec.add(other)
-            if self.hasBeenLinked() and CausetEvent.isLink(other, self):
+            if self.hasBeenLinked():
                 self._lprec -= other._prec
-                self._lprec.add(other)
+                if CausetEvent.isLink(other, self):
+                    self._lprec.add(other)
             return True
 
     def _addToFuture(self, other: 'CausetEvent') -> bool:
@@ -98,9 +104,10 @@ class CausetEvent(object):
             return False
         else:
             self._succ.add(other)
-            if self.hasBeenLinked() and CausetEvent.isLink(self, other):
+            if self.hasBeenLinked():
                 self._lsucc -= other._succ
-                self._lsucc.add(other)
+                if CausetEvent.isLink(self, other):
+                    self._lsucc.add(other)
             return True
 
     def _discard(self, other: 'CausetEvent') -> bool:
-- 
2.43.0


From 560ea2dda0fbafa423a6e768c5966380a4b6bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 05/56] fix: LinkConeCard counts the past and the future links

---
 causetevent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index c460d62..f325dda 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -424,10 +424,10 @@ class CausetEvent(object):
         cardinality).
         '''
         try:
-            return len(self._lprec) & len(self._lsucc)
+            return len(self._lprec) + len(self._lsucc)
         except AttributeError:
             self.link()
-            return len(self._lprec) & len(self._lsucc)
+            return len(self._lprec) + len(self._lsucc)
 
     def copy(self) -> 'CausetEvent':
         '''
-- 
2.43.0


From c260900563f3f3828352cec1dfa2db687ee697cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 06/56] fix: an event without coordinates is not embedded

---
 causetevent.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index f325dda..2f20fd3 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -58,8 +58,10 @@ class CausetEvent(object):
         self._succ = set()
         for e in kwargs.get('future', []):
             self._succ.update(e.PresentOrFuture)
-        self._coordinates = list(kwargs.get('coordinates', []))
-        self._position = list(kwargs.get('position', []))
+        if 'coordinates' in kwargs:
+            self._coordinates = list(kwargs['coordinates'])
+        if 'position' in kwargs:
+            self._position = list(kwargs['position'])
         # Add this instance to its causal relatives:
         for e in self._prec:
             e._addToFuture(self)
-- 
2.43.0


From ba14d9fdce0193a62ea0678cddf86f3d6bc0c355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 07/56] fix: subtracting a causet from a set

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 5b5785f..d0a37cf 100644
--- a/causet.py
+++ b/causet.py
@@ -392,7 +392,7 @@ class Causet(object):
         return self._events - set(other)
 
     def __rsub__(self, other: Iterable[CausetEvent]) -> Set[CausetEvent]:
-        return self._events - set(other)
+        return set(other) - self._events
 
     def __or__(self, other: Iterable[CausetEvent]) -> Set[CausetEvent]:
         return self._events | set(other)
-- 
2.43.0


From a10c56efc62ea0527815c239cd5bd24effc5912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 08/56] fix: a causal path is a chain

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index d0a37cf..99c4b1b 100644
--- a/causet.py
+++ b/causet.py
@@ -465,7 +465,7 @@ class Causet(object):
                     extremal += 1
                     if extremal > 2:
                         return False
-        return True
+            return self.isChain(events)
 
     def isAntichain(self, events: Optional[Iterable[CausetEvent]] = None) -> \
             bool:
-- 
2.43.0


From 0e7978a91ac811bcf062ad12bda917fd877b7aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 09/56] fix: PastOf, FutureOf and ConeOf return the
 intersection on request

---
 causet.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/causet.py b/causet.py
index 99c4b1b..83741cc 100644
--- a/causet.py
+++ b/causet.py
@@ -552,11 +552,13 @@ class Causet(object):
         '''
         newEventSet: Set[CausetEvent] = set()
         if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.PresentOrPast
+            for i, e in enumerate(eventSet):
+                newEventSet = newEventSet & e.PresentOrPast if i > 0 \
+                    else e.PresentOrPast
         elif intersect:
-            for e in eventSet:
-                newEventSet &= e.Past
+            for i, e in enumerate(eventSet):
+                newEventSet = newEventSet & e.Past if i > 0 \
+                    else set(e.Past)
         else:
             for e in eventSet:
                 newEventSet |= e.Past
@@ -572,11 +574,13 @@ class Causet(object):
         '''
         newEventSet: Set[CausetEvent] = set()
         if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.PresentOrFuture
+            for i, e in enumerate(eventSet):
+                newEventSet = newEventSet & e.PresentOrFuture if i > 0 \
+                    else e.PresentOrFuture
         elif intersect:
-            for e in eventSet:
-                newEventSet &= e.Future
+            for i, e in enumerate(eventSet):
+                newEventSet = newEventSet & e.Future if i > 0 \
+                    else set(e.Future)
         else:
             for e in eventSet:
                 newEventSet |= e.Future
@@ -592,11 +596,13 @@ class Causet(object):
         '''
         newEventSet: Set[CausetEvent] = set()
         if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.Cone
+            for i, e in enumerate(eventSet):
+                newEventSet = newEventSet & e.Cone if i > 0 \
+                    else e.Cone
         elif intersect:
-            for e in eventSet:
-                newEventSet &= (e.Past | e.Future)
+            for i, e in enumerate(eventSet):
+                newEventSet = newEventSet & (e.Past | e.Future) if i > 0 \
+                    else e.Past | e.Future
         else:
             for e in eventSet:
                 newEventSet |= e.Past | e.Future
-- 
2.43.0


From fd7525a234b5bdfb225104eabc6361332b944498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 10/56] fix: complete link matrices and reject causal loops of
 any length

---
 causet.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/causet.py b/causet.py
index 83741cc..88e43f5 100644
--- a/causet.py
+++ b/causet.py
@@ -181,20 +181,16 @@ class Causet(object):
                              'to a square matrix.')
         events: np.ndarray = np.array([CausetEvent(label=i)
                                        for i in range(1, colcount + 1)])
-        e: CausetEvent
-        for i in range(rowcount):
-            e = events[i]
-            past: Set[CausetEvent] = set(events[np.where(C[i, :])[0]])
-            future: Set[CausetEvent] = set(events[np.where(C[:, i])[0]])
-            if (past & future) or (e in past) or (e in future):
-                raise ValueError('The causet is not anti-symmetric.')
-            e._prec = past
-            e._succ = future
         # complete pasts and futures (if the input contains links only)
-        for i in range(colcount):
-            e = events[i]
-            e._prec = Causet.PastOf(e._prec, includePresent=True)
-            e._succ = Causet.FutureOf(e._succ, includePresent=True)
+        R: np.ndarray = np.zeros((colcount, colcount), dtype=bool)
+        R[:rowcount, :] = C
+        for k in range(colcount):
+            R |= np.outer(R[:, k], R[k, :])
+        if np.any(np.diag(R)):
+            raise ValueError('The causet is not anti-symmetric.')
+        for i, e in enumerate(events):
+            e._prec = set(events[R[i, :]])
+            e._succ = set(events[R[:, i]])
         return Causet(set(events))
 
     @staticmethod
-- 
2.43.0


From 555941aa4e38a98ac32ca4568f64d58bc041e3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 11/56] fix: load text files of causets with less than two
 events

---
 causet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causet.py b/causet.py
index 88e43f5..279d8ef 100644
--- a/causet.py
+++ b/causet.py
@@ -208,8 +208,11 @@ class Causet(object):
         the `genfromtxt` function of `numpy`. The resulting logical matrix is 
         parsed with `FromPastMatrix` or `FromFutureMatrix`.
         '''
+        kwargs.setdefault('ndmin', 2)  # there may be one row or column
         C: np.ndarray = np.genfromtxt(filename, dtype=int,
                                       delimiter=delimiter, **kwargs)
+        if C.size == 0:
+            C = np.zeros((0, 0))
         C = C.astype(bool)
         if isPastMatrix:
             return Causet.FromPastMatrix(C)
-- 
2.43.0


From ab64df5ff1b96be7e531afb918920eadec30292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 12/56] fix: merge event sets that have been linked or that are
 iterators

---
 causet.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 279d8ef..404e19a 100644
--- a/causet.py
+++ b/causet.py
@@ -228,12 +228,17 @@ class Causet(object):
         If not `disjoint` (default), then the event of `pastSet` are also 
         assigned to the the past of every event in `futureSet` and vice versa.
         '''
+        pastSet, futureSet = set(pastSet), set(futureSet)
         if not disjoint:  # add pastSet as past of futureSet
+            pastSet = Causet.PastOf(pastSet, includePresent=True)
+            futureSet = Causet.FutureOf(futureSet, includePresent=True)
             for p in pastSet:
                 for f in futureSet:
                     p._addToFuture(f)
                     f._addToPast(p)
-        return Causet(set(pastSet) | set(futureSet))
+            for e in pastSet | futureSet:
+                e.unlink()  # the links have to be recomputed
+        return Causet(pastSet | futureSet)
 
     def add(self, eventSet: Iterable, unlink: bool = False) -> None:
         '''
-- 
2.43.0


From 425c9e668a866d95bff7582fa88b0323bfbd15c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 13/56] fix: sort events by causality if they are not labelled

---
 causet.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 404e19a..788d43a 100644
--- a/causet.py
+++ b/causet.py
@@ -1163,7 +1163,11 @@ class Causet(object):
         '''
         if eventSet is None:
             eventSet = self._events
-        eList: List[CausetEvent] = self.sortedByLabels(eventSet, reverse=True)
+        eList: List[CausetEvent]
+        try:
+            eList = self.sortedByLabels(eventSet, reverse=True)
+        except TypeError:  # not all events have comparable labels
+            eList = list(eventSet)
         c: int = len(eList)
         for i in range(c):
             for j in range(i):
-- 
2.43.0


From 05de26a892b082b281e29bd997453524f921ccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 14/56] fix: link a causet after events have been discarded

---
 causet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 788d43a..6a82e00 100644
--- a/causet.py
+++ b/causet.py
@@ -288,8 +288,11 @@ class Causet(object):
         # compute links:
         for b in self._events:
             b._lprec = {a for a in b._prec if CausetEvent.isLink(a, b)}
-            for a in b._lprec:
+            for a in b._lprec & self._events:
                 a._lsucc.add(b)
+            # events that are no longer part of this causet:
+            b._lsucc.update(c for c in b._succ - self._events
+                            if CausetEvent.isLink(b, c))
 
     def unlink(self) -> None:
         '''
-- 
2.43.0


From 03c4557add4d684d4602e20d86fbf4cc9ec4b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 15/56] fix: LengthScale of an embedded causet is a length

---
 embeddedcauset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index f8a7ca8..6477a06 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -184,7 +184,7 @@ class EmbeddedCauset(Causet):
         Returns the fundamental length scale as inverse d-root of 
         `self.Density` if `card > 0`, else 0.0. 
         '''
-        return 0.0 if self.Card == 0 else self.Density**(1.0 / self.Shape.Dim)
+        return 0.0 if self.Card == 0 else self.Density**(-1.0 / self.Shape.Dim)
 
     def create(self, coordinates: Union[List[List[float]],
                                         List[np.ndarray],
-- 
2.43.0


From 3de7825c2c056625cddd8a7c13ff0d6653ebf056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 16/56] fix: integer overflow in large harmonic numbers

---
 calculations.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/calculations.py b/calculations.py
index 33ee0eb..8bbb4a1 100644
--- a/calculations.py
+++ b/calculations.py
@@ -42,11 +42,11 @@ def HarmonicNumbers(n: int, approximate: int = 100) -> np.ndarray:
         H[k] = total
         total += 1. / (k + 1)
     if n >= approximate:
-        n_range: np.ndarray = np.arange(approximate, n + 1)
-        H[n_range] = np.log(n_range) + np.euler_gamma
-        H[n_range] += 0.5 / n_range
-        H[n_range] -= 0.25 / 3 / np.square(n_range)
-        H[n_range] += 0.025 / 3 / np.square(np.square(n_range))
+        n_range: np.ndarray = np.arange(approximate, n + 1, dtype=float)
+        H[approximate:] = np.log(n_range) + np.euler_gamma
+        H[approximate:] += 0.5 / n_range
+        H[approximate:] -= 0.25 / 3 / np.square(n_range)
+        H[approximate:] += 0.025 / 3 / np.square(np.square(n_range))
     return H
 
 
-- 
2.43.0


From e5c039acd54dfc60575be0f5c716913d85df7eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 17/56] fix: invalid color value in the scheme ImperialLondon

---
 colorschemes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/colorschemes.py b/colorschemes.py
index abc0813..72e2ec1 100644
--- a/colorschemes.py
+++ b/colorschemes.py
@@ -66,7 +66,7 @@ ColorSchemes: Dict[str, Dict[str, str]] = {
                               'cyan':        '#009CBC',
                               'green':       '#02893B',
                               'kermitgreen': '#66A40A',
-                              'lime':        '#BBCEOO',
+                              'lime':        '#BBCE00',
                               'yellow':      '#FFDD00',
                               'tangerine':   '#EC7300',
                               'orange':      '#D24000',
-- 
2.43.0


From bbae9fe098d46fe77df6259b20e21395df09643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 18/56] fix: representation string of a flat spacetime that is
 not periodic

---
 spacetimes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spacetimes.py b/spacetimes.py
index f41880b..3d6f49e 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -278,7 +278,9 @@ class FlatSpacetime(Spacetime):
             self._params['period'] = _periods
 
     def __repr__(self):
-        _period: Tuple[float, ...] = self.Parameter('period')
+        _period: Union[float, Tuple[float, ...]] = 0.0
+        if self.Parameter('isPeriodic'):
+            _period = tuple(float(p) for p in self.Parameter('period'))
         return f'{self.__class__.__name__}({self._dim}, period={_period})'
 
     def DefaultShape(self) -> CoordinateShape:
-- 
2.43.0


From 768f7bf685960520708ac2805d67d4e405f9361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 19/56] fix: representation string of a coordinate shape

---
 shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index d118fb3..4eef303 100644
--- a/shapes.py
+++ b/shapes.py
@@ -143,7 +143,7 @@ class CoordinateShape(object):
             return f'{self._dim}-{self._name}'
 
     def __repr__(self):
-        return f'{self._class__._name__}(' + \
+        return f'{self.__class__.__name__}(' + \
             f'{self._dim}, {self._name}, center={self._center}, ' + \
             f'**{self._params})'
 
-- 
2.43.0


From 1f6fa3e011365deb29935b27036b3b3d206eb88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 20/56] fix: periodic causality of points that are several
 periods apart

---
 spacetimes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spacetimes.py b/spacetimes.py
index 3d6f49e..4c866e9 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -319,6 +319,7 @@ class FlatSpacetime(Spacetime):
                     t_delta: float = y[0] - x[0]
                     r_delta: float = abs(y[1] - x[1])
                     if _period[0] > 0.0:
+                        r_delta = r_delta % _period[0]
                         r_delta = min(r_delta, _period[0] - r_delta)
                     isCausal: bool = abs(t_delta) >= \
                         abs(r_delta) - causality_eps
@@ -333,6 +334,7 @@ class FlatSpacetime(Spacetime):
                     for i in range(1, self.Dim):
                         r_delta_i: float = abs(y[i] - x[i])
                         if _period[i - 1] > 0.0:
+                            r_delta_i = r_delta_i % _period[i - 1]
                             r_delta_i = min(r_delta_i,
                                             _period[i - 1] - r_delta_i)
                         r2_delta += r_delta_i**2
-- 
2.43.0


From e052c4cfa79a7368164945a6e884ee404351c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 21/56] fix: time orientation of the Anti-de Sitter causality

---
 spacetimes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spacetimes.py b/spacetimes.py
index 4c866e9..153702f 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -653,8 +653,11 @@ class AntideSitterSpacetime(_dSSpacetime):
             x0_delta: float = x0_y - x0_x
             isCausal: bool = x0_delta**2 + (x1_y - x1_x)**2 >= \
                 sum(np.square(y[1:] - x[1:])) - causality_eps
-            return ((x0_delta >= 0.0) and isCausal,
-                    (x0_delta < 0.0) and isCausal)
+            # the embedding is periodic in time, but not the spacetime:
+            t_delta: float = y[0] - x[0]
+            isCausal = isCausal or (abs(t_delta) >= math.pi * self._alpha)
+            return ((t_delta >= 0.0) and isCausal,
+                    (t_delta < 0.0) and isCausal)
         return isCausal_AdS
 
 
-- 
2.43.0


From 41a8bee364add827f69c2726874fc41bc9176ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 22/56] fix: position of cylinder and cone surfaces along other
 axes

---
 shapes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/shapes.py b/shapes.py
index 4eef303..b4e58fb 100644
--- a/shapes.py
+++ b/shapes.py
@@ -555,9 +555,9 @@ def CylinderSurface(center: np.ndarray, radius: float, height: float,
         radii = radius * np.array([hollow, 1.0, 1.0, hollow, hollow])
         relZ = np.array([-sampling, -sampling, sampling, sampling, -sampling])
     XYZ: Tuple[np.ndarray, np.ndarray, np.ndarray] = \
-        (np.outer(radii, np.cos(phi)) + center[0],
-         np.outer(radii, np.sin(phi)) + center[1],
-         (height / 2) * relZ + center[2])
+        (np.outer(radii, np.cos(phi)) + center[(zaxis + 1) % 3],
+         np.outer(radii, np.sin(phi)) + center[(zaxis + 2) % 3],
+         (height / 2) * relZ + center[zaxis])
     # rotate:
     if zaxis == 0:
         XYZ = (XYZ[2], XYZ[0], XYZ[1])
@@ -580,10 +580,10 @@ def OpenConeSurface(tip: np.ndarray, radius: float, height: float,
     phi: np.ndarray = np.linspace(0.0, 2.0 * np.pi, samplingsize)
     radii: np.ndarray = radius * np.array([0.0, 1.0])
     XYZ: Tuple[np.ndarray, np.ndarray, np.ndarray] = \
-        (np.outer(radii, np.cos(phi)) + tip[0],
-         np.outer(radii, np.sin(phi)) + tip[1],
+        (np.outer(radii, np.cos(phi)) + tip[(zaxis + 1) % 3],
+         np.outer(radii, np.sin(phi)) + tip[(zaxis + 2) % 3],
          np.array([np.zeros(samplingsize), np.ones(samplingsize)]) * height
-         + tip[2])
+         + tip[zaxis])
     # rotate:
     if zaxis == 0:
         XYZ = (XYZ[2], XYZ[0], XYZ[1])
-- 
2.43.0


From ed366dda55137074be18e16799e9e2d63760c464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 23/56] fix: position of a cylinder that is plotted with a
 horizontal time axis

---
 shapes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index b4e58fb..05c0589 100644
--- a/shapes.py
+++ b/shapes.py
@@ -348,7 +348,8 @@ class CoordinateShape(object):
                         **plotoptions)
             elif self.Name == 'cylinder':
                 cyl: np.ndarray = CylinderCutEdge(
-                    self.Center[dims], self._params['radius'],
+                    self.Center[dims if timeaxis > 0 else dims[::-1]],
+                    self._params['radius'],
                     self._params['duration'], hollow)
                 if timeaxis == 0:
                     cyl = cyl[:, [1, 0]]
-- 
2.43.0


From 72f02100fc17831611d7a7a89542e3cb43f85aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 24/56] fix: discard events from a sprinkled causet without
 events

---
 sprinkledcauset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 28dfc3c..8a4a8ab 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -177,4 +177,5 @@ class SprinkledCauset(EmbeddedCauset):
     def discard(self, eventSet: Iterable, unlink: bool = False) -> None:
         card_old: float = float(self.Card)
         super().discard(eventSet, unlink)
-        self._intensity *= (float(self.Card) / card_old)
+        if card_old > 0.0:
+            self._intensity *= (float(self.Card) / card_old)
-- 
2.43.0


From c9ddbd7c401aef71dbbd2af7a2aed70dcafba842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 25/56] fix: sprinkle into a diamond shape

---
 sprinkledcauset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 8a4a8ab..43cac8d 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -82,10 +82,10 @@ class SprinkledCauset(EmbeddedCauset):
                 high = shape.Center + shape.Parameter('edge') / 2
             for i in range(count):
                 coords[i, :] = rng.uniform(low, high)
-        elif shape.Name in ('ball', 'cylinder', 'diamond'):
+        elif shape.Name in ('ball', 'cylinder', 'bicone'):
             # Create circle based sprinkle:
             isCylindrical: bool = 'cylinder' in shape.Name
-            isDiamond: bool = 'diamond' in shape.Name
+            isDiamond: bool = 'bicone' in shape.Name
             d: int = self.Dim
             b_r: float = shape.Parameter('radius')
             if (d == 2) and isDiamond:
-- 
2.43.0


From 8fc3029efe20efc0119364570fad9d3a0a8908f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 26/56] fix: sprinkle into a diamond or cylinder without space
 dimensions

---
 sprinkledcauset.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 43cac8d..2822206 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -112,8 +112,9 @@ class SprinkledCauset(EmbeddedCauset):
                     # get coordinates on sphere using normal distribution:
                     coord: np.ndarray = rng.standard_normal(size=(b_d,))
                     r: float = np.sqrt(sum(np.square(coord)))
-                    r_scaling: float
-                    r_scaling = rng.uniform(low=r_low)**(1.0 / b_d)
+                    r_scaling: float = 1.0
+                    if b_d > 0:
+                        r_scaling = rng.uniform(low=r_low)**(1.0 / b_d)
                     if isDiamond:
                         # set time coordinate:
                         h_squeeze: float = rng.uniform()**(1.0 / d)
@@ -122,8 +123,9 @@ class SprinkledCauset(EmbeddedCauset):
                         coords[i, 0] = h_sign * (1 - h_squeeze) * b_r
                         # adjust scaling:
                         r_scaling *= h_squeeze
-                    coords[i, b_dstart:] = shape.Center[b_dstart:] + \
-                        (r_scaling * b_r / r) * coord
+                    if b_d > 0:
+                        coords[i, b_dstart:] = shape.Center[b_dstart:] + \
+                            (r_scaling * b_r / r) * coord
         return coords
 
     def sprinkle(self, count: int, rng=default_rng(),
-- 
2.43.0


From 2f088032abbec700927bafe75c90d15b913bc6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 27/56] fix: sprinkle into a diamond shape that is not centred
 at zero

---
 sprinkledcauset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 2822206..54fc665 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -95,6 +95,7 @@ class SprinkledCauset(EmbeddedCauset):
                 coords[:, 0] = uv[:, 0] + uv[:, 1]
                 coords[:, 1] = uv[:, 0] - uv[:, 1]
                 coords *= b_r / 2
+                coords += shape.Center
             else:
                 b_dstart: int = 0 if shape.Name == 'ball' else 1
                 b_d: int = d - b_dstart
@@ -120,7 +121,8 @@ class SprinkledCauset(EmbeddedCauset):
                         h_squeeze: float = rng.uniform()**(1.0 / d)
                         h_sign: float = np.sign(
                             rng.uniform(low=-1.0, high=1.0))
-                        coords[i, 0] = h_sign * (1 - h_squeeze) * b_r
+                        coords[i, 0] = shape.Center[0] + \
+                            h_sign * (1 - h_squeeze) * b_r
                         # adjust scaling:
                         r_scaling *= h_squeeze
                     if b_d > 0:
-- 
2.43.0


From 0c8722699b3c6ff0ce58b513df59591f518339dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 28/56] fix: sprinkle into a hollow diamond shape

---
 sprinkledcauset.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 54fc665..157ea22 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -108,7 +108,8 @@ class SprinkledCauset(EmbeddedCauset):
                     coords[:, 0] = rng.uniform(time_low, time_high,
                                                size=(count,))
                 # pick `count` random coordinate tuples uniformly:
-                r_low: float = shape.Parameter('hollow')**b_d
+                r_low: float = 0.0 if isDiamond \
+                    else shape.Parameter('hollow')**b_d
                 for i in range(count):
                     # get coordinates on sphere using normal distribution:
                     coord: np.ndarray = rng.standard_normal(size=(b_d,))
@@ -128,6 +129,14 @@ class SprinkledCauset(EmbeddedCauset):
                     if b_d > 0:
                         coords[i, b_dstart:] = shape.Center[b_dstart:] + \
                             (r_scaling * b_r / r) * coord
+            hollow: float = shape.Parameter('hollow')
+            if isDiamond and (hollow > 0.0):
+                # push the events radially out of the hollow interior:
+                coords -= shape.Center
+                s: np.ndarray = (np.abs(coords[:, 0]) + np.sqrt(
+                    np.sum(np.square(coords[:, 1:]), axis=1))) / b_r
+                s = (hollow**d + (1 - hollow**d) * s**d)**(1.0 / d) / s
+                coords = coords * s[:, np.newaxis] + shape.Center
         return coords
 
     def sprinkle(self, count: int, rng=default_rng(),
-- 
2.43.0


From 4a3d6c9e011bb72a0bf314c07aef62182fc7509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 29/56] fix: plot causal cones without fading

---
 causetplotting.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/causetplotting.py b/causetplotting.py
index ba0e559..3d924be 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -395,28 +395,32 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
         coordattr = 'Coordinates'
     if isPlottingPastcones:
         pcn_alpha_max: float
+        pcn_alpha: Optional[Callable[[float], float]] = None
         if plotting['conetimefade'] != '':
             try:
                 pcn_alpha_max = plotting['pastcones']['alpha']
             except KeyError:
                 pcn_alpha_max = 1.0
+            pcn_alpha = dynamic_parameter(plotting['conetimefade'], dim,
+                                          abs(plotting['conetimedepth']),
+                                          pcn_alpha_max)
         plotpcone: Any = plot_spacetime.ConePlotter(
             _xy_z, plotting['pastcones'], timesign=-1, axes=ax,
-            dynamicAlpha=dynamic_parameter(plotting['conetimefade'], dim,
-                                           abs(plotting['conetimedepth']),
-                                           pcn_alpha_max))
+            dynamicAlpha=pcn_alpha)
     if isPlottingFuturecones:
         fcn_alpha_max: float
+        fcn_alpha: Optional[Callable[[float], float]] = None
         if plotting['conetimefade'] != '':
             try:
                 fcn_alpha_max = plotting['futurecones']['alpha']
             except KeyError:
                 fcn_alpha_max = 1.0
+            fcn_alpha = dynamic_parameter(plotting['conetimefade'], dim,
+                                          abs(plotting['conetimedepth']),
+                                          fcn_alpha_max)
         plotfcone: Any = plot_spacetime.ConePlotter(
             _xy_z, plotting['futurecones'], timesign=1, axes=ax,
-            dynamicAlpha=dynamic_parameter(plotting['conetimefade'], dim,
-                                           abs(plotting['conetimedepth']),
-                                           fcn_alpha_max))
+            dynamicAlpha=fcn_alpha)
     # ====================
     plotting_links: Dict[str, Any] = {}
     if 'links' in plotting:
-- 
2.43.0


From 6a098cc388ec0ceb98cee926370d2cead2145145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 30/56] fix: dynamic plots without links

---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index 3d924be..f9612a4 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -437,7 +437,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
             plotting_labels = plotting['labels']
         dyn_links = dynamic_parameter(plotting['timefade'],
                                       dim, t_depth,
-                                      plotting_links['linewidth'])
+                                      plotting_links.get('linewidth', 0.0))
         dyn_events = dynamic_parameter(plotting['timefade'],
                                        dim, t_depth,
                                        plotting_events.get('alpha', 1.0))
-- 
2.43.0


From 86d1fc0a8c589d3bc7dd05b4fed88b2ec113483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 31/56] fix: set the axis limits of a plot to the embedding
 shape

---
 causetplotting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causetplotting.py b/causetplotting.py
index f9612a4..15b0aa7 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -350,6 +350,9 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
     '''
     # ====================
     # get defaults and user-specified parameters:
+    if isinstance(E, EmbeddedCauset) and ('shape' not in kwargs) and \
+            isinstance(kwargs.get('axislim'), str):
+        kwargs.update({'shape': E.Shape})
     plotting: Dict[str, Any] = plot_parameters(**kwargs)
     _h = {}  # holds Dict of artists
     # ====================
-- 
2.43.0


From ef711accd2ea04db3682059829a01c6220709819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 32/56] fix: discard all events of a causet from itself

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 6a82e00..e2d89fd 100644
--- a/causet.py
+++ b/causet.py
@@ -257,7 +257,7 @@ class Causet(object):
         Discards all the events of the (causal) set `eventSet` (`Causet` or 
         `Set[CausetEvent]`) from this instance. 
         '''
-        self._events.difference_update(eventSet)
+        self._events.difference_update(set(eventSet))
         if unlink:
             for e in self._events:
                 e.unlink()
-- 
2.43.0


From 6ba89e7f48c37a2b252bd48cb16c79e2466f1891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 33/56] fix: distance of antichain events without any common
 relation

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index e2d89fd..778e56b 100644
--- a/causet.py
+++ b/causet.py
@@ -1030,7 +1030,7 @@ class Causet(object):
                              'supported.\n' +
                              'Use \'ziczac\' or \'intersection\'.')
         l: int = len(antichain)
-        D: np.ndarray = np.zeros((l, l), dtype=int)
+        D: np.ndarray = np.identity(l, dtype=int) - 1
         ac_set: Set[CausetEvent] = set(antichain)
         slice_set: Set[CausetEvent] = ac_set
         thickerslice_set = self.Layers(slice_set, -1, 1)
-- 
2.43.0


From 77e4cb1dc53d350bb2dd62400e5a1e63d4e5286b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 34/56] fix: reject coordinate lists of incompatible dimension

---
 embeddedcauset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index 6477a06..4818da1 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -115,6 +115,8 @@ class EmbeddedCauset(Causet):
                     ((coordinates.ndim != 2) or
                      (coordinates.shape[1] != defaultShape.Dim)):
                 self.__raiseDimValueError__('coordinates')
+            elif any(len(c) != defaultShape.Dim for c in coordinates):
+                self.__raiseDimValueError__('coordinates')
             self.create(coordinates)
 
     @staticmethod
-- 
2.43.0


From bf55afac322d4934a8616af31fa689f3859f8644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 35/56] fix: sprinkle next to the centre of a hollow diamond
 shape

---
 sprinkledcauset.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 157ea22..4dd3459 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -95,16 +95,13 @@ class SprinkledCauset(EmbeddedCauset):
                 coords[:, 0] = uv[:, 0] + uv[:, 1]
                 coords[:, 1] = uv[:, 0] - uv[:, 1]
                 coords *= b_r / 2
-                coords += shape.Center
             else:
                 b_dstart: int = 0 if shape.Name == 'ball' else 1
                 b_d: int = d - b_dstart
                 if isCylindrical:
                     # set time coordinate:
-                    time_low: float = shape.Center[0] - \
-                        shape.Parameter('duration') / 2
-                    time_high: float = shape.Center[0] + \
-                        shape.Parameter('duration') / 2
+                    time_low: float = -shape.Parameter('duration') / 2
+                    time_high: float = shape.Parameter('duration') / 2
                     coords[:, 0] = rng.uniform(time_low, time_high,
                                                size=(count,))
                 # pick `count` random coordinate tuples uniformly:
@@ -122,21 +119,19 @@ class SprinkledCauset(EmbeddedCauset):
                         h_squeeze: float = rng.uniform()**(1.0 / d)
                         h_sign: float = np.sign(
                             rng.uniform(low=-1.0, high=1.0))
-                        coords[i, 0] = shape.Center[0] + \
-                            h_sign * (1 - h_squeeze) * b_r
+                        coords[i, 0] = h_sign * (1 - h_squeeze) * b_r
                         # adjust scaling:
                         r_scaling *= h_squeeze
                     if b_d > 0:
-                        coords[i, b_dstart:] = shape.Center[b_dstart:] + \
-                            (r_scaling * b_r / r) * coord
+                        coords[i, b_dstart:] = (r_scaling * b_r / r) * coord
             hollow: float = shape.Parameter('hollow')
             if isDiamond and (hollow > 0.0):
                 # push the events radially out of the hollow interior:
-                coords -= shape.Center
                 s: np.ndarray = (np.abs(coords[:, 0]) + np.sqrt(
                     np.sum(np.square(coords[:, 1:]), axis=1))) / b_r
                 s = (hollow**d + (1 - hollow**d) * s**d)**(1.0 / d) / s
-                coords = coords * s[:, np.newaxis] + shape.Center
+                coords *= s[:, np.newaxis]
+            coords += shape.Center
         return coords
 
     def sprinkle(self, count: int, rng=default_rng(),
-- 
2.43.0


From f6c58cc1551a9c02bfbee7d11fc943491599982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 36/56] fix: harmonic numbers of very large integers

---
 calculations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calculations.py b/calculations.py
index 8bbb4a1..7925417 100644
--- a/calculations.py
+++ b/calculations.py
@@ -23,8 +23,8 @@ def HarmonicNumber(n: int, approximate: int = 100) -> float:
     else:
         h: float = log(n) + np.euler_gamma
         h += 0.5 / n
-        h -= 0.25 / 3 / n**2
-        h += 0.025 / 3 / n**4
+        h -= 0.25 / 3 / n / n
+        h += 0.025 / 3 / n / n / n / n
         return h
 
 
-- 
2.43.0


From ade86d2f5e5d53ca9f4ec8fbaa6076789710cf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 37/56] fix: reject a diagram position of a new event that is
 not a pair

---
 causetevent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetevent.py b/causetevent.py
index 2f20fd3..6e0d9db 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -61,7 +61,7 @@ class CausetEvent(object):
         if 'coordinates' in kwargs:
             self._coordinates = list(kwargs['coordinates'])
         if 'position' in kwargs:
-            self._position = list(kwargs['position'])
+            self.Position = kwargs['position']
         # Add this instance to its causal relatives:
         for e in self._prec:
             e._addToFuture(self)
-- 
2.43.0


From 468013508327d4404d048d26e215389df4f63bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 38/56] fix: links of an event copied before it was linked

---
 causetevent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causetevent.py b/causetevent.py
index 6e0d9db..d4f7a77 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -237,7 +237,8 @@ class CausetEvent(object):
         method many times, faster access is achieved with the call of 
         a.isFutureLink(b).
         '''
-        return (a in b._prec) and not (a._succ & b._prec)
+        return ((a in b._prec) or (b in a._succ)) and \
+            not (a._succ & b._prec)
 
     def isPastLink(self, other: 'CausetEvent') -> bool:
         '''
-- 
2.43.0


From 82bd65171a81974f60198feded68eff9727c42ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 39/56] fix: keep the iterates of Newton's method the precision
 away from the bounds

---
 calculations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/calculations.py b/calculations.py
index 7925417..85cec38 100644
--- a/calculations.py
+++ b/calculations.py
@@ -92,9 +92,9 @@ def NewtonsMethod(f: Callable[[Any], Any], fprime: Callable[[Any], Any],
         if yprime_n == 0.0:
             break
         x_next: float = x_n - (f(x_n) - y) / yprime_n
-        if x_next < xmin:
+        if x_next < xmin + precission:
             x_next = xmin + precission
-        elif x_next > xmax:
+        elif x_next > xmax - precission:
             x_next = xmax - precission
         if abs(x_n - x_next) < precission:
             return x_next
-- 
2.43.0


From e6aee830488dd99403d6cc953c06634cfdc8bcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 40/56] fix: plotting a hollow bicone in 3D must not shrink the
 shape

---
 shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index 05c0589..0a72ed1 100644
--- a/shapes.py
+++ b/shapes.py
@@ -315,7 +315,7 @@ class CoordinateShape(object):
                 S = OpenConeSurface(tip, r, r, timeaxis) + \
                     OpenConeSurface(top, r, -r, timeaxis)
                 if hollow > 0.0:
-                    r *= hollow
+                    r = r * hollow
                     tip[timeaxis] = conecenter[timeaxis] - r
                     top[timeaxis] = conecenter[timeaxis] + r
                     S = OpenConeSurface(tip, r, r, timeaxis) + \
-- 
2.43.0


From e8b02a2b6e6c17f19cbecb97ca22cb4cecc0cc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 41/56] fix: plot with a list of a single time value

---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index 15b0aa7..ed8e27f 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -704,7 +704,7 @@ def plot(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
         if np.shape(kwargs['time']) == (2,):
             time = kwargs['time']
         else:
-            time = np.array([kwargs['time'], kwargs['time']])
+            time = np.resize(kwargs['time'], 2)
     return Plotter(E, plotAxes, spacetime, **kwargs)(time)
 
 
-- 
2.43.0


From 5cf69330c7d83de5f5b9c4b839ee74565a2c7382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 42/56] fix: return a new dictionary of artists for every time
 of a plotter

---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index ed8e27f..385cd9b 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -354,7 +354,6 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
             isinstance(kwargs.get('axislim'), str):
         kwargs.update({'shape': E.Shape})
     plotting: Dict[str, Any] = plot_parameters(**kwargs)
-    _h = {}  # holds Dict of artists
     # ====================
     # get set of events:
     events: List[CausetEvent]
@@ -675,6 +674,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
             ax.set_aspect(*plotting['aspect'])
         # ====================
         # collect pointers in dictionary:
+        _h: Dict[str, Any] = {}  # holds Dict of artists
         if isPlottingPastcones:
             _h['pastcones'] = _hpcn
         if isPlottingFuturecones:
-- 
2.43.0


From ec04b04385ba4585674e329d60ce88ccbe594ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 43/56] fix: create must reject coordinates of a different
 dimension

---
 embeddedcauset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index 4818da1..80f5ba0 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -200,6 +200,9 @@ class EmbeddedCauset(Causet):
         List[np.ndarray] or np.ndarray (matrix with a coordinate row for 
         each event).
         '''
+        coordinates = list(coordinates)
+        if any(len(c) != self.Dim for c in coordinates):
+            self.__raiseDimValueError__('coordinates')
         n: int = self.Card + 1
         eventSet: Set[CausetEvent] = {
             CausetEvent(label=(n + i) if labelFormat is None else
-- 
2.43.0


From 743d6d331234df83ba6bff2e95c702fa85a3296b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 44/56] fix: sprinkling into a shape of a different dimension
 must be rejected

---
 sprinkledcauset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 4dd3459..42a142f 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -69,6 +69,8 @@ class SprinkledCauset(EmbeddedCauset):
         if count < 0:
             raise ValueError(
                 'The sprinkle cardinality has to be a non-negative integer.')
+        if shape.Dim != self.Dim:
+            self.__raiseDimValueError__('shape')
         coords: np.ndarray = np.empty((count, self.Dim), dtype=np.float32)
         if shape.Name in ('cube', 'cuboid'):
             # Create rectangle based sprinkle:
@@ -143,10 +145,10 @@ class SprinkledCauset(EmbeddedCauset):
         if count < 0:
             raise ValueError(
                 'The sprinkle cardinality has to be a non-negative integer.')
-        self._intensity += float(count)
         if shape is None:
             shape = self.Shape
         coords: np.ndarray = self._sprinkle_coords(count, shape, rng)
+        self._intensity += float(count)
         return super().create(coords)
 
     def intensify(self, intensity: float, rng=default_rng(),
@@ -159,11 +161,11 @@ class SprinkledCauset(EmbeddedCauset):
         if intensity < 0.0:
             raise ValueError(
                 'The intensity parameter has to be a non-negative float.')
-        self._intensity += intensity
         count: int = int(rng.poisson(lam=intensity))
         if shape is None:
             shape = self.Shape
         coords: np.ndarray = self._sprinkle_coords(count, shape, rng)
+        self._intensity += intensity
         return super().create(coords)
 
     def create(self, coords: Union[Iterable[List[float]],
-- 
2.43.0


From 83002f8c6ce2f3b08643ade7af173f5d8543e90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 45/56] fix: keep the causal relations if some event is not
 embedded

---
 embeddedcauset.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index 80f5ba0..0b12c2c 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -210,7 +210,11 @@ class EmbeddedCauset(Causet):
             for i, c in enumerate(coordinates)}
         self._events.update(eventSet)
         if relate:
-            self.relate()
+            try:
+                self.relate()
+            except AttributeError:  # some events are not embedded
+                self._events.difference_update(eventSet)
+                raise
         return eventSet
 
     def relate(self, link: bool = True) -> None:
@@ -220,16 +224,17 @@ class EmbeddedCauset(Causet):
         '''
         _iscausal: Callable[[np.ndarray, np.ndarray],
                             Tuple[bool, bool]] = self._spacetime.Causality()
-        for e in self._events:
+        eventList: List[CausetEvent] = list(self._events)
+        coords: List[np.ndarray] = [np.array(e.Coordinates)
+                                    for e in eventList]
+        for e in eventList:
             e._prec = set()
             e._succ = set()
-        eventList: List[CausetEvent] = list(self._events)
         eventList_len: int = len(eventList)
         for i, a in enumerate(eventList):
             for j in range(i + 1, eventList_len):
                 b = eventList[j]
-                isAB, isBA = _iscausal(np.array(a.Coordinates),
-                                       np.array(b.Coordinates))
+                isAB, isBA = _iscausal(coords[i], coords[j])
                 if isAB:  # A in the past of B:
                     a._succ.add(b)
                     b._prec.add(a)
-- 
2.43.0


From 923b161c89e5610c9afe90e4cd7d512a9b7de362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 46/56] fix: antipaths along an iterator of events

---
 causet.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causet.py b/causet.py
index 778e56b..5b596cb 100644
--- a/causet.py
+++ b/causet.py
@@ -1076,11 +1076,12 @@ class Causet(object):
         As optional argument, the distances matrix can be specified if it has 
         already been computed.
         '''
-        if a is b and a in along:
+        antichainList: List[CausetEvent] = list(along)
+        if a is b and a in antichainList:
             yield [a]
-        if not (a.isSpacelikeTo(b) and a in along and b in along):
+        if not (a.isSpacelikeTo(b) and a in antichainList and
+                b in antichainList):
             return
-        antichainList: List[CausetEvent] = list(along)
         a_idx: int = antichainList.index(a)
         b_idx: int = antichainList.index(b)
         D: np.ndarray = distances if distances is not None \
-- 
2.43.0


From b47d50d2ccf165e494165272ee7d3405f6e1fe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 47/56] fix: drawing a cone must not change the given plotting
 parameters

---
 spacetimes.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/spacetimes.py b/spacetimes.py
index 153702f..17bfec3 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -185,11 +185,12 @@ class Spacetime(object):
             r: float = timesign * (timeslice - origin[0])
             if r <= 0.0:  # radius non-positive
                 return None
+            params: Dict[str, Any] = dict(plotting_params)
             if dynamicAlpha is not None:
                 conealpha = dynamicAlpha(r)
                 if conealpha <= 0.0:
                     return None
-                plotting_params.update({'alpha': conealpha})
+                params['alpha'] = conealpha
             XY: np.ndarray = None
             T: np.ndarray
             samplesize_t: int
@@ -219,7 +220,7 @@ class Spacetime(object):
                         X, Y, Z = Z, X, Y
                     elif timeaxis == 1:
                         X, Y, Z = Y, Z, X
-                _axes.plot_surface(X, Y, Z, **plotting_params)
+                _axes.plot_surface(X, Y, Z, **params)
                 return [(X, Y, Z)]
             else:
                 if timeaxis < 0:
@@ -233,7 +234,7 @@ class Spacetime(object):
                 # rotate:
                 if timeaxis == 0:
                     XY = np.fliplr(XY)
-                p: Patch = patches.Polygon(XY, **plotting_params)
+                p: Patch = patches.Polygon(XY, **params)
                 _axes.add_patch(p)
                 return p
 
@@ -416,11 +417,12 @@ class FlatSpacetime(Spacetime):
             r: float = timesign * (timeslice - origin[0])
             if r <= 0.0:  # radius non-positive
                 return None
+            params: Dict[str, Any] = dict(plotting_params)
             if dynamicAlpha is not None:
                 conealpha = dynamicAlpha(r)
                 if conealpha <= 0.0:
                     return None
-                plotting_params.update({'alpha': conealpha})
+                params['alpha'] = conealpha
             origin = origin[dims]
             if is3d:
                 XYZ_list: List[Tuple[np.ndarray, np.ndarray, np.ndarray]] = []
@@ -434,7 +436,7 @@ class FlatSpacetime(Spacetime):
                             origin - s, r, timesign * r,
                             timeaxis, samplingsize)
                 for XYZ in XYZ_list:
-                    _axes.plot_surface(*XYZ, **plotting_params)
+                    _axes.plot_surface(*XYZ, **params)
                 return XYZ_list
             else:
                 XY: np.array = None
@@ -458,7 +460,7 @@ class FlatSpacetime(Spacetime):
                     XY = XYpart if i == 0 \
                         else np.concatenate(
                             (XY, np.array([[np.nan, np.nan]]), XYpart))
-                p: Patch = patches.Polygon(XY, **plotting_params)
+                p: Patch = patches.Polygon(XY, **params)
                 _axes.add_patch(p)
                 return p
 
-- 
2.43.0


From 31ffa0bc4f60d5617d189cf32616932bf64b51a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:31 +0000
Subject: [PATCH 48/56] fix: Antipaths ends also with distances that were not
 counted recursively

The search compared only the distances from the current event, so that with
distances of another counting (as used in causetpermutations) it stepped back
and forth between the closest events. Every step now leads closer to the end.
---
 causet.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/causet.py b/causet.py
index 5b596cb..ee54d1d 100644
--- a/causet.py
+++ b/causet.py
@@ -1090,11 +1090,14 @@ class Causet(object):
             return
 
         def Antipaths_find(e_idx: int) -> Iterator[List[CausetEvent]]:
-            if D[e_idx, b_idx] == 1:
-                yield [antichainList[e_idx], b]
+            if e_idx == b_idx:
+                yield [b]
             else:
-                a_neighbours_sel: np.ndarray = \
-                    D[e_idx, :] == np.min(D[e_idx, D[e_idx, :] > 0])
+                # only step closer to b (with any counting of distances)
+                closer_sel: np.ndarray = (D[e_idx, :] > 0) & \
+                    (D[b_idx, :] >= 0) & (D[b_idx, :] < D[e_idx, b_idx])
+                a_neighbours_sel: np.ndarray = closer_sel & \
+                    (D[e_idx, :] == np.min(D[e_idx, closer_sel]))
                 b_closer_sel: np.ndarray = \
                     D[b_idx, :] == np.min(D[b_idx, a_neighbours_sel])
                 for e2_idx in np.where(a_neighbours_sel & b_closer_sel)[0]:
-- 
2.43.0


From 1cbbf8ab1647ef5631d07f5cb5faeb4880219a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:29 +0000
Subject: [PATCH 49/56] fix: return copies of the centre and the array
 parameters of a shape

---
 shapes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shapes.py b/shapes.py
index 0a72ed1..d1e1181 100644
--- a/shapes.py
+++ b/shapes.py
@@ -166,13 +166,14 @@ class CoordinateShape(object):
         '''
         Returns the shape center of the spacetime region.
         '''
-        return self._center
+        return self._center.copy()
 
     def Parameter(self, key: str) -> Any:
         '''
         Returns a parameter for the shape of the spacetime region.
         '''
-        return self._params[key]
+        value: Any = self._params[key]
+        return value.copy() if isinstance(value, np.ndarray) else value
 
     @property
     def Volume(self) -> float:
-- 
2.43.0


From 5a12e6742b4d999f5554f5aad902ab842afd03e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:29 +0000
Subject: [PATCH 50/56] fix: return copies of the array parameters of a
 spacetime

---
 spacetimes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spacetimes.py b/spacetimes.py
index 17bfec3..844e84a 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -68,7 +68,8 @@ class Spacetime(object):
         '''
         Returns a parameter for the shape of the spacetime.
         '''
-        return self._params[key]
+        value: Any = self._params[key]
+        return value.copy() if isinstance(value, np.ndarray) else value
 
     def DefaultShape(self) -> CoordinateShape:
         '''
-- 
2.43.0


From f5b31bca32484b7aa5f1d1a904e644d844854645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:38 +0000
Subject: [PATCH 51/56] fix: keep the intensity when a sprinkle cannot be
 related

---
 sprinkledcauset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 42a142f..22a2b8c 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -148,8 +148,9 @@ class SprinkledCauset(EmbeddedCauset):
         if shape is None:
             shape = self.Shape
         coords: np.ndarray = self._sprinkle_coords(count, shape, rng)
+        eventSet: Set[CausetEvent] = super().create(coords)
         self._intensity += float(count)
-        return super().create(coords)
+        return eventSet
 
     def intensify(self, intensity: float, rng=default_rng(),
                   shape: Optional[CoordinateShape] = None) -> Set[CausetEvent]:
@@ -165,8 +166,9 @@ class SprinkledCauset(EmbeddedCauset):
         if shape is None:
             shape = self.Shape
         coords: np.ndarray = self._sprinkle_coords(count, shape, rng)
+        eventSet: Set[CausetEvent] = super().create(coords)
         self._intensity += intensity
-        return super().create(coords)
+        return eventSet
 
     def create(self, coords: Union[Iterable[List[float]],
                                    Iterable[np.ndarray],
-- 
2.43.0


From 5531f8a18108d2fa5c948457af3595a685d2c8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:30 +0000
Subject: [PATCH 52/56] fix: de Sitter causality far from the time origin and
 without overflow

---
 spacetimes.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/spacetimes.py b/spacetimes.py
index 844e84a..3110703 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -558,16 +558,14 @@ class deSitterSpacetime(_dSSpacetime):
                 return (False, False)
             amp_x: float = math.sqrt(self._alpha_sq - r2_x)
             amp_y: float = math.sqrt(self._alpha_sq - r2_y)
-            x0_x: float = amp_x * math.sinh(x[0] / self._alpha)
-            x1_x: float = amp_x * math.cosh(x[0] / self._alpha)
-            x0_y: float = amp_y * math.sinh(y[0] / self._alpha)
-            x1_y: float = amp_y * math.cosh(y[0] / self._alpha)
-            x0_delta: float = x0_y - x0_x
-            isCausal: bool = x0_delta**2 >= \
-                sum(np.square(y[1:] - x[1:])) + (x1_y - x1_x)**2 - \
-                causality_eps
-            return ((x0_delta >= 0.0) and isCausal,
-                    (x0_delta < 0.0) and isCausal)
+            # coordinate time that light needs between the two positions:
+            t_light: float = 2.0 * self._alpha * math.asinh(math.sqrt(
+                (sum(np.square(y[1:] - x[1:])) + (amp_y - amp_x)**2) /
+                (4.0 * amp_x * amp_y)))
+            t_delta: float = y[0] - x[0]
+            isCausal: bool = abs(t_delta) >= t_light - causality_eps
+            return ((t_delta >= 0.0) and isCausal,
+                    (t_delta < 0.0) and isCausal)
         return isCausal_dS
 
     def _XT_slice2(self, t: float, t0: float,
-- 
2.43.0


From 1d3252722af56e47ac3f8ff7e0d18154e754e1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:47 +0000
Subject: [PATCH 53/56] fix: reach the time slice with cones whose boundary
 runs close to the horizon

---
 spacetimes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spacetimes.py b/spacetimes.py
index 3110703..d7f8860 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -851,6 +851,8 @@ class BlackHoleSpacetime(Spacetime):
                 X = np.linspace(r_in, r_0, samplingsize)
                 XT[-samplingsize:, 0] = np.copysign(X, origin[xdim])
                 XT[-samplingsize:, 1] = f_in(X)
+                # even if too close to the horizon:
+                XT[samplingsize - 1, 1] = XT[-samplingsize, 1] = t
                 t_sing: float = f_in(0.0)
                 if (t_sing < t) and (origin[0] < t):
                     r_in = Newton(f_in, fd_in, self._r_S / 2.0, t,
@@ -883,6 +885,7 @@ class BlackHoleSpacetime(Spacetime):
                 X = np.linspace(r_0, r_out, samplingsize)
                 XT[:-n, 0] = np.copysign(X, origin[xdim])
                 XT[:-n, 1] = f_out(X)
+                XT[-n - 1, 1] = t  # even if too close to the horizon
             if r_in < 0.0:
                 XT[-2, :] = [0.0, t]
                 XT[-1, :] = [0.0, origin[0] + r_0]
-- 
2.43.0


From 10452f6f419243daa9a339e5b6583d1e9e1e3317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:43 +0000
Subject: [PATCH 54/56] fix: reach the time slice also with the inner part of
 Schwarzschild cones

---
 spacetimes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spacetimes.py b/spacetimes.py
index d7f8860..c73a5a9 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -861,6 +861,7 @@ class BlackHoleSpacetime(Spacetime):
                     X = np.linspace(r_in, 0.0, samplingsize)
                     XT_inner[:samplingsize, 0] = np.copysign(X, origin[xdim])
                     XT_inner[:samplingsize, 1] = f_in(X)
+                    XT_inner[0, 1] = t  # even if too close to the horizon
                     XT_inner[-1, :] = [0.0, t]
                     XT = np.concatenate((XT, [[np.nan, np.nan]], XT_inner))
         else:  # Eddington-Finkelstein metric
-- 
2.43.0


From 072de5e2912513b6a663af9b126f19f59d3a2769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:33 +0000
Subject: [PATCH 55/56] fix: draw short links straight, not via other events
 nearby

---
 causetplotting.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/causetplotting.py b/causetplotting.py
index 385cd9b..69a7338 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -560,7 +560,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
             # ====================
             # static plots only
             if plotting_links:
-                eps: float = 0.0000001
+                eps: float = 0.0000001  # relative to the link length
                 for i, a in enumerate(events):
                     c_a = np.array(getattr(a, coordattr))
                     for j in range(i + 1, eventCount):
@@ -599,7 +599,10 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
                                                         d_ae[0] * d_eb[2])**2 +
                                                        (d_ae[0] * d_eb[1] -
                                                         d_ae[1] * d_eb[0])**2)
-                                        if area < eps:
+                                        if area <= eps * (
+                                                (c_b[_x] - c_a[_x])**2 +
+                                                (c_b[_y] - c_a[_y])**2 +
+                                                (c_b[_z] - c_a[_z])**2):
                                             X.append(c_e[_x])
                                             Y.append(c_e[_y])
                                             Z.append(c_e[_z])
@@ -628,7 +631,9 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
                                                       (c_b[_y] - c_e[_y]) -
                                                       (c_e[_y] - c_a[_y]) *
                                                       (c_b[_x] - c_e[_x]))
-                                        if area < eps:
+                                        if area <= eps * (
+                                                (c_b[_x] - c_a[_x])**2 +
+                                                (c_b[_y] - c_a[_y])**2):
                                             X.append(c_e[_x])
                                             Y.append(c_e[_y])
                                 X.append(c_b[_x])
-- 
2.43.0


From 7ef54c7e0b608a121680f6fde3053e9149ee35e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:33 +0000
Subject: [PATCH 56/56] fix: keep the precision of shapes and sprinkled
 coordinates

---
 shapes.py          | 14 +++++++-------
 sprinkledcauset.py |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/shapes.py b/shapes.py
index d1e1181..37d9891 100644
--- a/shapes.py
+++ b/shapes.py
@@ -80,11 +80,11 @@ class CoordinateShape(object):
         self._name = name
         # set centre point:
         try:
-            self._center = np.array(kwargs['center'], dtype=np.float32)
+            self._center = np.array(kwargs['center'], dtype=float)
             if self._center.shape != (dim,):
                 raise TypeError
         except KeyError:
-            self._center = np.zeros(dim, dtype=np.float32)
+            self._center = np.zeros(dim, dtype=float)
         except TypeError:
             raise ValueError('The value for the key ''center'' has to be ' +
                              f'an Iterable of {dim} float values.')
@@ -111,23 +111,23 @@ class CoordinateShape(object):
         self._params = {}
         if name in {'ball', 'bicone', 'cylinder'}:
             self._params['radius'] = np.array(kwargs.get('radius', 1.0),
-                                              dtype=np.float32)
+                                              dtype=float)
             param_rangecheck('radius')
             self._params['hollow'] = np.array(kwargs.get('hollow', 0.0),
-                                              dtype=np.float32)
+                                              dtype=float)
             param_rangecheck('hollow', 1.0, True)
             if name == 'cylinder':
                 self._params['duration'] = np.array(
                     kwargs.get('duration', 2.0 * self._params['radius']),
-                    dtype=np.float32)
+                    dtype=float)
                 param_rangecheck('duration')
         elif name == 'cube':
             self._params['edge'] = np.array(kwargs.get('edge', 1.0),
-                                            dtype=np.float32)
+                                            dtype=float)
             param_rangecheck('edge')
         elif name == 'cuboid':
             self._params['edges'] = np.array(
-                kwargs.get('edges', np.ones((dim,))), dtype=np.float32)
+                kwargs.get('edges', np.ones((dim,))), dtype=float)
             if self._params['edges'].shape != (dim,):
                 raise ValueError('The value for the key "edges" has ' +
                                  f'to be an Iterable of {dim} float values.')
diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 22a2b8c..e06fda7 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -71,7 +71,7 @@ class SprinkledCauset(EmbeddedCauset):
                 'The sprinkle cardinality has to be a non-negative integer.')
         if shape.Dim != self.Dim:
             self.__raiseDimValueError__('shape')
-        coords: np.ndarray = np.empty((count, self.Dim), dtype=np.float32)
+        coords: np.ndarray = np.empty((count, self.Dim))
         if shape.Name in ('cube', 'cuboid'):
             # Create rectangle based sprinkle:
             low: np.ndarray
-- 
2.43.0

