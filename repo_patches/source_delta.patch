From e28fdfb315a5c64cd116f59d2eabbb3494101ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 001/144] fix: union of overlapping version ranges keeps the
 larger upper bound

---
 pkm/src/pkm/api/versions/version_specifiers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 18408b6..8e64b0b 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -570,7 +570,11 @@ class StandardVersionRange(VersionSpecifier):
         elif (not self.includes_max and not other.includes_min) or other.min != self.max:
             return VersionsUnion([self, other])
 
-        return VersionSpecifier.create_range(self.min, other.max, imin, imax)
+        max_ = other.max
+        if max_ and (not self.max or other.max < self.max):
+            max_, imax = self.max, self.includes_max
+
+        return VersionSpecifier.create_range(self.min, max_, imin, imax)
 
     def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion, HetroVersionIntersection, VersionMatch)):
-- 
2.43.0


From b07cf92d65a2b076b7000101a05e0393ad97b978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:29 +0000
Subject: [PATCH 002/144] fix: union with a version blacklist keeps only the
 versions both sides exclude

---
 .../pkm/api/versions/version_specifiers.py    | 27 +++++++------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 8e64b0b..2c9be65 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -262,28 +262,21 @@ class HetroVersionIntersection(VersionSpecifier):
         if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion)):
             return other.union_with(self)
 
-        if isinstance(other, HetroVersionIntersection):
-            standard_spec = self.standard_spec.union_with(other.standard_spec)
-            if len(other.blacklist.union(self.blacklist)) != len(self.blacklist):
-                return standard_spec
-
-            return HetroVersionIntersection.create(
-                self.blacklist if len(self.blacklist) < len(other.blacklist) else other.blacklist, standard_spec)
+        if isinstance(other, VersionMatch) and not other.allow:
+            return AllowAllVersions if self.allows_version(other.version) else other
 
-        if isinstance(other, VersionMatch):
-            if isinstance(other.version, StandardVersion) and other.allow:
-                return HetroVersionIntersection.create(self.blacklist, self.standard_spec.union_with(other))
+        # a version stays blacklisted only if the other side does not allow it
+        blacklist = {it for it in self.blacklist if not other.allows_version(it)}
 
-            blacklist = set(self.blacklist)
-            if other.allow:
-                blacklist.remove(other.version)
-            else:
-                blacklist.add(other.version)
+        if isinstance(other, HetroVersionIntersection):
+            blacklist.update(it for it in other.blacklist if not self.allows_version(it))
+            return HetroVersionIntersection.create(blacklist, self.standard_spec.union_with(other.standard_spec))
 
+        if isinstance(other, VersionMatch) and not isinstance(other.version, StandardVersion):
             return HetroVersionIntersection.create(blacklist, self.standard_spec)
 
-        if isinstance(other, StandardVersionRange):
-            return HetroVersionIntersection.create(self.blacklist, self.standard_spec.union_with(other))
+        if isinstance(other, (VersionMatch, StandardVersionRange)):
+            return HetroVersionIntersection.create(blacklist, self.standard_spec.union_with(other))
 
         raise UnsupportedOperationException()
 
-- 
2.43.0


From 4405e99bb78897ab9dbab1599471417adeeeeb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 003/144] fix: uniting version unions neither consumes the
 operand nor fails when one segment remains

---
 pkm/src/pkm/api/versions/version_specifiers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 2c9be65..21145c7 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -207,7 +207,7 @@ class VersionsUnion(VersionSpecifier):
             return other.union_with(self)
 
         new_segments = [*self.segments]
-        other_segments = other.segments if isinstance(other, VersionsUnion) else [other]
+        other_segments = [*other.segments] if isinstance(other, VersionsUnion) else [other]
 
         while other_segments:
             os = other_segments.pop()
@@ -224,7 +224,7 @@ class VersionsUnion(VersionSpecifier):
             else:
                 new_segments.append(os)
 
-        return VersionsUnion(new_segments)
+        return VersionsUnion(new_segments) if len(new_segments) > 1 else new_segments[0]
 
     def intersect_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_AllowAll, _RestrictAll)):
-- 
2.43.0


From 80866749d4115b9696dca0196047b9340e5094cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 004/144] fix: compare numeric local version segments by their
 value

---
 pkm/src/pkm/api/versions/version.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 74b6711..e0bf94f 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -320,7 +320,9 @@ def _less(v1: Version, v2: Version) -> bool:
 
         m_num, o_num = m.isnumeric(), o.isnumeric()
         if m_num and o_num:
-            return int(m_num) < int(o_num)
+            if int(m) == int(o):
+                continue
+            return int(m) < int(o)
         if m_num or o_num:
             return o_num
 
-- 
2.43.0


From 361de96180ffffac5144c58ad97f68e2249fd92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 005/144] fix: equal versions hash equally when only one spells
 the zero epoch

---
 pkm/src/pkm/api/versions/version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index e0bf94f..ce5349f 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -134,7 +134,7 @@ class StandardVersion(Version):
 
     def __hash__(self):
         s = self.standartize()
-        return hash((s.release, s.epoch, s.dev_release, s.post_release, s.pre_release, s.local_label))
+        return hash((s.release, s.epoch or 0, s.dev_release, s.post_release, s.pre_release, s.local_label))
 
     def is_pre_or_dev_release(self) -> bool:
         return self.pre_release is not None or self.dev_release is not None
-- 
2.43.0


From 66bece223e586c972ac680b5b5fbe2e8b30d99fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 006/144] fix: order dev releases as PEP 440 does

---
 pkm/src/pkm/api/versions/version.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index ce5349f..2b4e351 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -288,12 +288,11 @@ def _less(v1: Version, v2: Version) -> bool:
             continue
         return s < o
 
-    if v1.dev_release != v2.dev_release:
-        if (v1.dev_release is None) ^ (v2.dev_release is None):
-            return v2.dev_release is None
-
-        if v1.dev_release != v2.dev_release:
-            return v1.dev_release < v2.dev_release
+    # a dev release of the final release itself precedes any of its pre-releases
+    v1_dev_only = v1.dev_release is not None and v1.pre_release is None and v1.post_release is None
+    v2_dev_only = v2.dev_release is not None and v2.pre_release is None and v2.post_release is None
+    if v1_dev_only != v2_dev_only:
+        return v1_dev_only
 
     if v1.pre_release != v2.pre_release:
         if (v1.pre_release is None) ^ (v2.pre_release is None):
@@ -311,6 +310,13 @@ def _less(v1: Version, v2: Version) -> bool:
         if s != o:
             return s < o
 
+    if v1.dev_release != v2.dev_release:
+        if (v1.dev_release is None) ^ (v2.dev_release is None):
+            return v2.dev_release is None
+
+        if v1.dev_release != v2.dev_release:
+            return v1.dev_release < v2.dev_release
+
     my_local_segments = (v1.local_label or "").split('.')
     other_local_segments = (v2.local_label or "").split('.')
 
-- 
2.43.0


From 674c1f832f1f1c695cb3e47f544f0913fd2b38c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 007/144] fix: parse the long spellings of pre and post release
 markers

---
 pkm/src/pkm/api/versions/version_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index 235a9f3..68dd630 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -24,7 +24,8 @@ def parse_specifier(specifier_str: str) -> VersionSpecifier:
 
 
 _PRE_RELEASE_TYPE_NORMALIZER = {
-    'a': 'a', 'b': 'b', 'rc': 'rc', 'c': 'rc', 'alpha': 'a', 'beta': 'b', 'preview': 'rc'
+    # longer spellings first: each is matched before the ones that prefix it
+    'alpha': 'a', 'beta': 'b', 'preview': 'rc', 'pre': 'rc', 'rc': 'rc', 'a': 'a', 'b': 'b', 'c': 'rc'
 }
 
 
@@ -60,7 +61,7 @@ class VersionParser(SimpleParser):
 
         if (prev := self.peek_prev()).isdigit() or prev in _PRE_RELEASE_TYPE_NORMALIZER:
             self.match_any('.', '-', '_')
-        if self.match_any('post', 'r', 'rev') or (self.peek_prev() == '-' and self.peek().isdigit()):
+        if self.match_any('post', 'rev', 'r') or (self.peek_prev() == '-' and self.peek().isdigit()):
             self.match('-')
             post_release = 0 if not self.peek().isdigit() else int(self.read_digits())
 
-- 
2.43.0


From d7509e52a425d6019803db75566a22a2e56d4d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 008/144] fix: accept separators before a pre-release marker
 and inside post/dev markers

---
 pkm/src/pkm/api/versions/version_parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index 68dd630..cbef69c 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -51,8 +51,12 @@ class VersionParser(SimpleParser):
 
         pre_release = None
         # pre_release_type = self.peek_prev() != '.' and self.match_any(*_PRE_RELEASE_TYPE_NORMALIZER.keys())
+        pre_release_start = self.position
+        self.match_any('-', '_')
         pre_release_type = self.match_any(*_PRE_RELEASE_TYPE_NORMALIZER.keys())
-        if pre_release_type:
+        if not pre_release_type:
+            self.position = pre_release_start
+        else:
             self.match_any('.', '-', '_')
             pre_release_num = 0 if not self.peek().isdigit() else int(self.read_digits())
             pre_release = (_PRE_RELEASE_TYPE_NORMALIZER[pre_release_type], pre_release_num)
@@ -62,13 +66,14 @@ class VersionParser(SimpleParser):
         if (prev := self.peek_prev()).isdigit() or prev in _PRE_RELEASE_TYPE_NORMALIZER:
             self.match_any('.', '-', '_')
         if self.match_any('post', 'rev', 'r') or (self.peek_prev() == '-' and self.peek().isdigit()):
-            self.match('-')
+            self.match_any('.', '-', '_')
             post_release = 0 if not self.peek().isdigit() else int(self.read_digits())
 
         dev_release = None
         if self.peek_prev().isdigit():
             self.match_any('.', '-', '_')
         if self.match('dev'):
+            self.match_any('.', '-', '_')
             dev_release = 0 if not self.peek().isdigit() else int(self.read_digits())
 
         local_label = None
-- 
2.43.0


From bb1ff58f3970309c3dd4369bf4ee2fa865fd6a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 009/144] fix: order version matches by version so equal unions
 compare equal

---
 pkm/src/pkm/api/versions/version_specifiers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 21145c7..698da71 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -373,9 +373,9 @@ class VersionMatch(VersionSpecifier):
         if isinstance(other, VersionMatch):
             if self == other:
                 return False
-            if self.allow:
-                return not other.allow
-            return other.allow and self.version < other.version
+            if self.allow != other.allow:
+                return self.allow
+            return self.version < other.version
 
         if isinstance(other, StandardVersionRange):
             if isinstance(self.version, StandardVersion):
-- 
2.43.0


From 1a04d665accb81512189e44bc6c25c814793dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 010/144] fix: version blacklists combine exactly with other
 specifiers, and containment does not depend on spelling

---
 .../pkm/api/versions/version_specifiers.py    | 56 +++++++++++--------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 698da71..2c838b8 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -14,7 +14,11 @@ from pkm.utils.seqs import seq
 class VersionSpecifier(ABC):
 
     def allows_all(self, other: VersionSpecifier) -> bool:
-        return self.intersect_with(other) == other
+        intersection = self.intersect_with(other)
+        if intersection is RestrictAllVersions or intersection == other:
+            return intersection == other
+        # the same set of versions may be spelled in different ways
+        return other.difference_from(intersection) is RestrictAllVersions
 
     def allows_any(self, other: VersionSpecifier) -> bool:
         return self.intersect_with(other) is not RestrictAllVersions
@@ -253,10 +257,10 @@ class HetroVersionIntersection(VersionSpecifier):
         return HashBuilder().unordered_seq(self.blacklist).regular(self.standard_spec).build()
 
     def allows_version(self, version: Version) -> bool:
-        if version in self.blacklist:
+        if version in self.blacklist or version.without_local() in self.blacklist:
             return False
 
-        return not isinstance(version, StandardVersion) or self.standard_spec.allows_version(version)
+        return self.standard_spec.allows_version(version)
 
     def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion)):
@@ -289,15 +293,8 @@ class HetroVersionIntersection(VersionSpecifier):
                 self.blacklist.union(other.blacklist), self.standard_spec.intersect_with(other.standard_spec))
 
         if isinstance(other, VersionMatch):
-            if isinstance(other.version, StandardVersion) and other.allow:
-                if self.standard_spec.allows_version(other.version) and other.version not in self.blacklist:
-                    return other
-                return RestrictAllVersions
-
             if other.allow:
-                if other.version in self.blacklist:
-                    return RestrictAllVersions
-                return other
+                return HetroVersionIntersection.create(self.blacklist, self.standard_spec.intersect_with(other))
 
             return HetroVersionIntersection.create({*self.blacklist, other.version}, self.standard_spec)
 
@@ -307,10 +304,10 @@ class HetroVersionIntersection(VersionSpecifier):
         raise UnsupportedOperationException()
 
     def inverse(self) -> VersionSpecifier:
-        union = [*(VersionMatch(it) for it in self.blacklist)]
-        if self.standard_spec is not AllowAllVersions:
-            union.append(self.standard_spec.inverse())
-        return VersionsUnion(union)
+        result = self.standard_spec.inverse()
+        for it in self.blacklist:
+            result = result.union_with(VersionMatch(it))
+        return result
 
     def __str__(self) -> str:
         result = ", ".join(f"!={it}" for it in self.blacklist)
@@ -343,7 +340,18 @@ class HetroVersionIntersection(VersionSpecifier):
 
     @classmethod
     def create(cls, blacklist: Set[Version], standard_spec: VersionSpecifier) -> VersionSpecifier:
-        blacklist = {it for it in blacklist if not isinstance(it, StandardVersion) or standard_spec.allows_version(it)}
+        if isinstance(standard_spec, VersionsUnion):
+            segments = [cls.create(blacklist, segment) for segment in standard_spec.segments]
+            segments = [segment for segment in segments if segment is not RestrictAllVersions]
+            if len(segments) > 1:
+                return VersionsUnion(segments)
+            return segments[0] if segments else RestrictAllVersions
+
+        if isinstance(standard_spec, VersionMatch) and standard_spec.allow:
+            if not blacklist.isdisjoint({standard_spec.version, standard_spec.version.without_local()}):
+                return RestrictAllVersions
+
+        blacklist = {it for it in blacklist if standard_spec.allows_version(it)}
 
         if standard_spec is RestrictAllVersions:
             return RestrictAllVersions
@@ -442,18 +450,19 @@ class VersionMatch(VersionSpecifier):
             if self == other:
                 return self
 
-            my_ver, ot_ver = self.version, other.version
-            if my_ver.is_local() != ot_ver.is_local():
-                my_ver, ot_ver = my_ver.without_local(), ot_ver.without_local()
-
             if self.allow and other.allow:
+                my_ver, ot_ver = self.version, other.version
+                if my_ver.is_local() != ot_ver.is_local():
+                    my_ver, ot_ver = my_ver.without_local(), ot_ver.without_local()
+
                 if my_ver == ot_ver:
                     return self if self.version.is_local() else other
                 return RestrictAllVersions
             if self.allow or other.allow:
-                if my_ver == ot_ver:
+                allowed, excluded = (self, other) if self.allow else (other, self)
+                if not excluded.allows_version(allowed.version):
                     return RestrictAllVersions
-                return self if self.allow else other
+                return HetroVersionIntersection.create({excluded.version}, allowed)
             return HetroVersionIntersection({self.version, other.version}, AllowAllVersions)
 
         if isinstance(other, StandardVersionRange) and isinstance(self.version, StandardVersion):
@@ -613,6 +622,9 @@ class StandardVersionRange(VersionSpecifier):
         raise NotImplemented()
 
     def allows_version(self, version: Version) -> bool:
+        if not isinstance(version, StandardVersion):
+            return False
+
         min_, max_ = self.min, self.max
         if (min_ is not None and self.includes_min and min_ == version) \
                 or (max_ is not None and self.includes_max and max_ == version):
-- 
2.43.0


From 82263f2f31576e8a6d362fd208e582d41bc65c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 011/144] fix: the solver distinguishes absent packages, merges
 repeated requirements and handles self dependencies

---
 pkm/src/pkm/resolution/pubgrub.py | 99 ++++++++++++++-----------------
 1 file changed, 44 insertions(+), 55 deletions(-)

diff --git a/pkm/src/pkm/resolution/pubgrub.py b/pkm/src/pkm/resolution/pubgrub.py
index d877a77..709b912 100644
--- a/pkm/src/pkm/resolution/pubgrub.py
+++ b/pkm/src/pkm/resolution/pubgrub.py
@@ -43,17 +43,25 @@ class MalformedPackageException(Exception):
 class Term:
     package: PKG
     constraint: VersionSpecifier
+    # whether this term also holds when its package is not selected at all, negating a term flips this
+    allows_absence: bool = False
 
     def negate(self) -> "Term":
-        return Term(self.package, self.constraint.inverse())
+        return Term(self.package, self.constraint.inverse(), not self.allows_absence)
 
     def intersect(self, other: "Term") -> "Term":
         assert self.package == other.package, 'cannot intersect terms of different packages'
-        return Term(self.package, self.constraint.intersect_with(other.constraint))
+        return Term(
+            self.package, self.constraint.intersect_with(other.constraint),
+            self.allows_absence and other.allows_absence)
 
-    def satisfies(self, constraint: VersionSpecifier) -> bool:
+    def satisfies(self, term: "Term") -> bool:
         """self ⊆ term"""
-        return constraint.allows_all(self.constraint)
+        return (term.allows_absence or not self.allows_absence) \
+            and (self.constraint is RestrictAllVersions or term.constraint.allows_all(self.constraint))
+
+    def is_impossible(self) -> bool:
+        return self.constraint is RestrictAllVersions and not self.allows_absence
 
     @classmethod
     def join(cls, package: PKG, terms: Iterable["Term"]) -> "Term":
@@ -63,18 +71,11 @@ class Term:
         if not first_term:
             return Term.create(package, "*")
 
-        next_term = next(terms_iter, None)
-        if not next_term:
-            return first_term
-
-        package = first_term.package
-        constraint = first_term.constraint
+        result = first_term
+        for term in terms_iter:
+            result = result.intersect(term)
 
-        while next_term is not None:
-            constraint = constraint.intersect_with(next_term.constraint)
-            next_term = next(terms_iter, None)
-
-        return cls(package, constraint)
+        return result
 
     def __repr__(self):
         return f"[{self.package} {self.constraint}]"
@@ -90,7 +91,7 @@ class Assignment:
     decision_level: int
     order_index: int
     cause: Optional["Incompatibility"]
-    accumulated: VersionSpecifier
+    accumulated: Term
 
     def is_decision(self) -> bool:
         return self.cause is None
@@ -172,16 +173,16 @@ class PartialSolution:
     def make_assignment(self, assignment_value: Term, cause: Optional["Incompatibility"] = None):
         package_assignments = self.assignments_by_package[assignment_value.package]
 
-        accumulated_constraint = assignment_value.constraint
+        accumulated = assignment_value
         if package_assignments:
-            accumulated_constraint = package_assignments[-1].accumulated.intersect_with(accumulated_constraint)
+            accumulated = package_assignments[-1].accumulated.intersect(accumulated)
 
         dlevel = self._decision_level
 
         if cause is None and assignment_value.package != self._root_package:
             dlevel += 1
 
-        return Assignment(assignment_value, dlevel, len(self._assignments_by_order), cause, accumulated_constraint)
+        return Assignment(assignment_value, dlevel, len(self._assignments_by_order), cause, accumulated)
 
     def assign(self, assignment_value: Union[Term, Assignment], cause: Optional["Incompatibility"] = None):
         assignment = self.make_assignment(assignment_value, cause) \
@@ -230,16 +231,16 @@ class IncompatibilitySatisfaction:
     ) -> Optional[Assignment]:
 
         if package_assignments := solution.assignments_by_package[term.package]:
-            if term.constraint.allows_all(package_assignments[-1].accumulated):
+            if package_assignments[-1].accumulated.satisfies(term):
                 for assignment in package_assignments:
                     if assignment is next_satisfier:
                         return None
 
                     acc = assignment.accumulated
                     if next_satisfier:
-                        if term.constraint.allows_all(acc.intersect_with(next_satisfier.term.constraint)):
+                        if acc.intersect(next_satisfier.term).satisfies(term):
                             return assignment
-                    elif term.constraint.allows_all(acc):
+                    elif acc.satisfies(term):
                         return assignment
         return None
 
@@ -259,9 +260,6 @@ class IncompatibilitySatisfaction:
         satisfier = satisfiers.pop(satisfier_index)
 
         for term in incompatibility.terms:
-            if solution.requires(term.package):
-                satisfiers.append(solution.requiering_decision(term.package))
-
             if term.package == satisfier.term.package:
                 if prev_satisfier := cls.find_satisfier(solution, term, satisfier):
                     satisfiers.append(prev_satisfier)
@@ -299,13 +297,13 @@ class Incompatibility:
 
         for term in self.terms:
             package_assignments = assignments[term.package]
-            if package_assignments and package_assignments[-1].accumulated is RestrictAllVersions:
+            if package_assignments and package_assignments[-1].accumulated.is_impossible():
                 return IncompatibilitySatisfaction.create_unsatisfied(self)
 
         for term in self.terms:
             satisfier = IncompatibilitySatisfaction.find_satisfier(solution, term)
             if not satisfier and (assignments := solution.assignments_by_package[term.package]) \
-                    and not assignments[-1].accumulated.allows_any(term.constraint):
+                    and assignments[-1].accumulated.intersect(term).is_impossible():
                 return IncompatibilitySatisfaction.create_unsatisfied(self)
 
             if not satisfier:
@@ -443,17 +441,6 @@ class DependencyIncompatibility(Incompatibility):
         self.dependency = dependency
         self.added = False
 
-    def check_satisfaction(self, solution: "PartialSolution") -> IncompatibilitySatisfaction:
-        if dependant_assignments := solution.assignments_by_package[self.dependant.package]:
-            dependant_assignment = dependant_assignments[-1]
-            acc = dependant_assignment.accumulated
-
-            if acc.allows_any(self.dependant.constraint) or \
-                    (acc is not RestrictAllVersions and self.dependant.constraint.allows_all(acc)):
-                return super().check_satisfaction(solution)
-
-        return IncompatibilitySatisfaction.create_unsatisfied(self)
-
     def update_dependant(self, new_dependant: Term):
         package = str(new_dependant.package)
         assert package == str(self.dependant.package), \
@@ -479,13 +466,21 @@ class _PackageVersion:
     def fetch_dependencies_info(self, problem: Problem):
         if not self.dependencies:
             version_dependencies = problem.get_dependencies(self.term.package, self.version)
-            self.dependencies = {
-                d.package: PackageDependency(d)
-                for d in version_dependencies}
+            dependencies: Dict[PKG, Term] = {}
+            for d in version_dependencies:  # the same package may be constrained several times
+                dependencies[d.package] = dependencies[d.package].intersect(d) if d.package in dependencies else d
+
+            self.dependencies = {package: PackageDependency(d) for package, d in dependencies.items()}
 
     def compute_incompatibilities(self) -> List[Incompatibility]:
         result: List[Incompatibility] = []
         for dependency in self.dependencies.values():
+            if dependency.term.package == self.term.package:
+                if not dependency.term.constraint.allows_version(self.version):
+                    result.append(Incompatibility(
+                        (self.term,), None, f"{self.term} depends on {dependency.term}"))
+                continue
+
             last_requiring = self
 
             while last_requiring.next:
@@ -665,21 +660,13 @@ class Solver(Generic[PKG_T]):
                 if term.package != satisfier.term.package}
 
             assert satisfier.cause != incompatibility  # this massup the error reporting...
-            if not satisfier.term.satisfies(term.constraint) or not prior_cause_terms:
-                prior_cause_terms.add(
-                    Term(satisfier.term.package,
-                         # satisfier.term.constraint.difference_from(term.constraint).inverse()))
-                         satisfier.accumulated.difference_from(term.constraint).inverse()))
+            if not satisfier.term.satisfies(term):
+                prior_cause_terms.add(satisfier.term.intersect(term.negate()).negate())
 
             prev_incompatibility = incompatibility
             incompatibility = Incompatibility.create(
                 list(prior_cause_terms), internal_cause=(satisfier.cause, incompatibility))
 
-            if len(prior_cause_terms) == 0:
-                self._solution.backtrack(0)
-                self._solution.assign(Term(term.package, RestrictAllVersions), cause=incompatibility)
-                return term.package
-
             # print(f"root cause: {incompatibility}")
 
             if not self._is_tautology(incompatibility):
@@ -724,12 +711,14 @@ class Solver(Generic[PKG_T]):
 
         minor_adjustment_dlevel = -1
         for conflict in conflicts:
-            dependency: Term = find_first(conflict.terms, lambda it: it.package != package)
+            dependency: Optional[Term] = find_first(conflict.terms, lambda it: it.package != package)
+            if not dependency:
+                return False
             dependency_assignments = self._solution.assignments_by_package[dependency.package]
             dependency_requirement = dependency.constraint.inverse()
             if len(dependency_assignments) > 1 and dependency_assignments[-1].is_decision():
                 actual_limitation = dependency_assignments[-2].accumulated
-                if actual_limitation.allows_any(dependency_requirement):
+                if actual_limitation.constraint.allows_any(dependency_requirement):
                     # print(f"{package} is conflicting with {dependency.package}, it requires that ", end='')
                     # print(f"{dependency_requirement} but it actual limitation in solution is '{actual_limitation}'")
                     dlevel = dependency_assignments[-1].decision_level - 1
@@ -756,7 +745,7 @@ class Solver(Generic[PKG_T]):
         # print(f"undecided packages: {undecided_packages}")
         package_matching_versions: Dict[PKG, List[_PackageVersion]] = {}
         for package in undecided_packages:
-            acc_assignment = self._solution.assignments_by_package[package][-1].accumulated
+            acc_assignment = self._solution.assignments_by_package[package][-1].accumulated.constraint
 
             if isinstance(acc_assignment, VersionMatch) and acc_assignment.allow and \
                     not isinstance(acc_assignment.version, StandardVersion):
@@ -780,7 +769,7 @@ class Solver(Generic[PKG_T]):
 
         while True:
             if not versions:
-                acc_assignment = self._solution.assignments_by_package[package][-1].accumulated
+                acc_assignment = self._solution.assignments_by_package[package][-1].accumulated.constraint
 
                 if ic := self._package_availability_incompatibilities.get(package):
                     ic.update_inavailability(ic.terms[0].constraint.union_with(acc_assignment))
-- 
2.43.0


From 045a097ef118af214ecef8156dd3e24f98d21bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 012/144] fix: the solver keeps one incompatibility object per
 dependency and handles contradictory requirements

---
 pkm/src/pkm/resolution/pubgrub.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/resolution/pubgrub.py b/pkm/src/pkm/resolution/pubgrub.py
index 709b912..d53aab8 100644
--- a/pkm/src/pkm/resolution/pubgrub.py
+++ b/pkm/src/pkm/resolution/pubgrub.py
@@ -475,10 +475,13 @@ class _PackageVersion:
     def compute_incompatibilities(self) -> List[Incompatibility]:
         result: List[Incompatibility] = []
         for dependency in self.dependencies.values():
-            if dependency.term.package == self.term.package:
-                if not dependency.term.constraint.allows_version(self.version):
-                    result.append(Incompatibility(
-                        (self.term,), None, f"{self.term} depends on {dependency.term}"))
+            is_self_dependency = dependency.term.package == self.term.package
+            if dependency.term.is_impossible() or \
+                    (is_self_dependency and not dependency.term.constraint.allows_version(self.version)):
+                result.append(Incompatibility((self.term,), None, f"{self.term} depends on {dependency.term}"))
+                continue
+
+            if is_self_dependency:
                 continue
 
             last_requiring = self
@@ -504,8 +507,9 @@ class _PackageVersion:
                              incompatibility.dependant.constraint.union_with(self.effective_constraint_range)))
                     continue
 
-            nt = Term(self.term.package, self.effective_constraint_range)
-            dependency.incompatibility = DependencyIncompatibility(nt, dependency.term)
+            if not dependency.incompatibility:
+                nt = Term(self.term.package, self.effective_constraint_range)
+                dependency.incompatibility = DependencyIncompatibility(nt, dependency.term)
             result.append(dependency.incompatibility)
 
         return result
-- 
2.43.0


From d743da9d4aa5b9c01da96f5b68cd880639a9966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 013/144] fix: a range is printed as ~= only when its upper
 bound is exactly the compatible one

---
 pkm/src/pkm/api/versions/version_specifiers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 2c838b8..27993b3 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -538,7 +538,8 @@ class StandardVersionRange(VersionSpecifier):
         if self.includes_min and (not self.includes_max) \
                 and self.min and self.max \
                 and len(smr := self.min.release) > 1 \
-                and self.max.release == (*smr[:-2], smr[-2] + 1, 0):
+                and self.max.release == (*smr[:-2], smr[-2] + 1, 0) \
+                and self.max == StandardVersion(self.max.release, self.min.epoch):
 
             return f"~={self.min}"
 
-- 
2.43.0


From da6d11d686786c71b35a1c540e8227e3ccddea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:03 +0000
Subject: [PATCH 014/144] fix: the resolver treats different spellings of a
 package name as one package, also for overrides

---
 pkm/src/pkm/resolution/dependency_resolver.py | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pkm/src/pkm/resolution/dependency_resolver.py b/pkm/src/pkm/resolution/dependency_resolver.py
index 02e58b8..4ad0c14 100644
--- a/pkm/src/pkm/resolution/dependency_resolver.py
+++ b/pkm/src/pkm/resolution/dependency_resolver.py
@@ -12,6 +12,7 @@ from pkm.resolution.pubgrub import Problem, MalformedPackageException, Term, Sol
 from pkm.utils.dicts import get_or_put
 from pkm.utils.hashes import HashBuilder
 from pkm.utils.promises import Promise
+from pkm.utils.properties import cached_property
 from pkm.utils.sequences import single_or_raise
 
 if TYPE_CHECKING:
@@ -43,7 +44,7 @@ def resolve_dependencies(root: Dependency, target: "PackageInstallationTarget",
         if pkg.extras:
             continue
 
-        result.append(problem.opened_packages[PackageDescriptor(pkg.name, version)])
+        result.append(problem.opened_packages[pkg.descriptor(version)])
 
     return result
 
@@ -55,7 +56,8 @@ class _PkmPackageInstallationProblem(Problem):
         self._target = target
         self._repo = repo
         self._root = root
-        self._dependency_overrides = dependency_overrides or {}
+        self._dependency_overrides = {
+            PackageDescriptor.package_name_key(name): o for name, o in (dependency_overrides or {}).items()}
 
         from pkm.api.pkm import pkm
         self._threads = pkm.threads
@@ -68,7 +70,7 @@ class _PkmPackageInstallationProblem(Problem):
                           lambda: Promise.execute(self._threads, self._repo.list, package.name, self._target.env))
 
     def get_dependencies(self, package: _Pkg, version: Version) -> List[Term]:
-        descriptor = PackageDescriptor(package.name, version)
+        descriptor = package.descriptor(version)
 
         try:
             if isinstance(version, UrlVersion) and descriptor not in self.opened_packages:
@@ -91,7 +93,7 @@ class _PkmPackageInstallationProblem(Problem):
 
         for d in dependencies:
             if d.is_applicable_for(self._target.env, package.extras):
-                if o := self._dependency_overrides.get(d.package_name):
+                if o := self._dependency_overrides.get(d.package_name_key):
                     result.append(Term(_Pkg.of(o), o.version_spec))
                 else:
                     result.append(Term(_Pkg.of(d), d.version_spec))
@@ -105,7 +107,7 @@ class _PkmPackageInstallationProblem(Problem):
         packages = list({p.version: p for p in all_packages if p.is_compatible_with(self._target.env)}.values())
 
         for package in packages:
-            self.opened_packages[replace(package.descriptor, name=package.descriptor.name.lower())] = package
+            self.opened_packages[replace(package.descriptor, name=package.descriptor.name_key)] = package
 
         return cast(List[StandardVersion], [p.version for p in packages if isinstance(p.version, StandardVersion)])
 
@@ -113,11 +115,22 @@ class _PkmPackageInstallationProblem(Problem):
         return bool(self._repo.match(Dependency(package.name, VersionMatch(version), package.extras), self._target.env))
 
 
-@dataclass(frozen=True, eq=True)
+@dataclass(frozen=True, eq=False)
 class _Pkg:
     name: str
     extras: Optional[List[str]]
 
+    @cached_property
+    def name_key(self) -> str:
+        return PackageDescriptor.package_name_key(self.name)
+
+    def descriptor(self, version: Version) -> PackageDescriptor:
+        return PackageDescriptor(self.name_key, version)
+
+    def __eq__(self, other):
+        # different spellings of a package name ('a-b', 'a_b', 'A.b') denote the same package
+        return isinstance(other, _Pkg) and self.name_key == other.name_key and self.extras == other.extras
+
     def __str__(self):
         result = self.name
         if self.extras:
@@ -131,7 +144,7 @@ class _Pkg:
         return str(self) < str(other)
 
     def __hash__(self):
-        hb = HashBuilder().regular(self.name)
+        hb = HashBuilder().regular(self.name_key)
         if self.extras:
             hb.ordered_seq(self.extras)
 
@@ -139,4 +152,4 @@ class _Pkg:
 
     @classmethod
     def of(cls, d: Dependency) -> _Pkg:
-        return _Pkg(d.package_name.lower(), d.extras)
+        return _Pkg(d.package_name.lower(), d.extras or None)
-- 
2.43.0


From b6f55a57b3103d78bdb1770f90e4be607ff166f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 015/144] fix: distribution packages read their dependencies
 from the distribution metadata

---
 pkm/src/pkm/api/distributions/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/distributions/distribution.py b/pkm/src/pkm/api/distributions/distribution.py
index 951743c..e950757 100644
--- a/pkm/src/pkm/api/distributions/distribution.py
+++ b/pkm/src/pkm/api/distributions/distribution.py
@@ -88,7 +88,7 @@ class _DistributionPackage(Package, Serializable):
     def dependencies(
             self, target: "PackageInstallationTarget",
             extras: Optional[List[str]] = None) -> List["Dependency"]:
-        return [d for d in self.published_metadata.dependencies if d.is_applicable_for(target.env, extras)]
+        return [d for d in self._metadata(target.env).dependencies if d.is_applicable_for(target.env, extras)]
 
     def is_compatible_with(self, env: "Environment") -> bool:
         from pkm.api.distributions.wheel_distribution import WheelDistribution
-- 
2.43.0


From 21422a3b73b91523b9bf540dabd6f16ecdc66fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 016/144] fix: uninstall recognizes packages by their
 normalized name and reports only what it removed

---
 .../pkm/api/packages/package_installation.py    | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 84b9aa3..e6044bc 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -73,9 +73,10 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         self.reload()
 
         preinstalled_packages = list(self.site_packages.installed_packages())
-        requested_deps = {p.name: p.user_request for p in preinstalled_packages if p.user_request}
+        preinstalled_keys = {p.name_key for p in preinstalled_packages}
+        requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request}
         for package_name in packages_to_remove:
-            requested_deps.pop(package_name, None)
+            requested_deps.pop(PackageDescriptor.package_name_key(package_name), None)
 
         user_request = _UserRequestPackage(list(requested_deps.values()))
         installation_repo = _RemovalRepository(preinstalled_packages, user_request)
@@ -83,14 +84,20 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         installation = resolve_dependencies(user_request.to_dependency(), self, installation_repo)
         InstallationPlan(self, installation, {}).execute()
 
-        kept = {p.name for p in installation}
+        kept = {p.name_key for p in installation}
+        removed = set()
 
         for p in packages_to_remove:
-            if p in kept:
+            name_key = PackageDescriptor.package_name_key(p)
+            if name_key not in preinstalled_keys:
+                continue
+            if name_key in kept:
                 self.site_packages.installed_package(p).dist_info.unmark_as_user_requested()
+            else:
+                removed.add(p)
 
         self.reload()
-        return {p for p in packages_to_remove if p not in kept}
+        return removed
 
     def install(
             self, dependencies: List[Dependency], repository: Optional[Repository] = None, user_requested: bool = True,
-- 
2.43.0


From bb0b3ab321725d92d7c0087c4d3c6603b8295e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 017/144] fix: updates and store modes recognize packages by
 their normalized name

---
 pkm/src/pkm/api/packages/package_installation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index e6044bc..056b37b 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -153,7 +153,7 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
 
         self.reload()
 
-        updates = set(updates or ())
+        updates = {PackageDescriptor.package_name_key(u) for u in (updates or ())}
         preinstalled_packages = [p for p in self.site_packages.installed_packages() if p.name_key not in updates]
         pre_requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request}
         unspecified_spec_packages = \
@@ -221,6 +221,9 @@ class InstallationPlan:
     def selected_package(self, name: str) -> Optional[Package]:
         return first_or_none(it for it in self.packages if it.name == name)
 
+    def _store_mode_by_name_key(self) -> Dict[str, StoreMode]:
+        return {PackageDescriptor.package_name_key(name): mode for name, mode in (self.store_modes or {}).items()}
+
     def compute_operations_for_target(
             self, target: Optional[PackageInstallationTarget] = None) -> Dict[Package, PackageOperation]:
 
@@ -237,7 +240,7 @@ class InstallationPlan:
             for p in self.packages
             if not isinstance(p, _UserRequestPackage)}
 
-        store_modes = {name: value for name, value in (self.store_modes or {}).items()}
+        store_modes = self._store_mode_by_name_key()
 
         for name_key, package_to_install in toinstall.items():
 
@@ -281,7 +284,7 @@ class InstallationPlan:
 
         target = target or self.default_target
         operations = self.compute_operations_for_target(target)
-        store_modes = self.store_modes or {}
+        store_modes = self._store_mode_by_name_key()
         site = target.site_packages
 
         tasks: List[_PackageOperationTask] = []
-- 
2.43.0


From d451216ffc5fba11bb9b811aba11e645e7c9488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 018/144] fix: dependency overrides also hold when installed
 packages have to be updated

---
 pkm/src/pkm/api/packages/package_installation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 056b37b..2589e01 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -194,7 +194,7 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
             installation_repo = _InstallationRepository(
                 repository, preinstalled_packages, user_request, unspecified_spec_packages, False)
             installation = resolve_dependencies(
-                user_request.to_dependency(), self, installation_repo)
+                user_request.to_dependency(), self, installation_repo, dependencies_override)
 
         user_requests = {**pre_requested_deps}
         if user_requested:
-- 
2.43.0


From 7771981dc230ce34d0919da9b53c0941a3b90158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 019/144] fix: requesting a package that has no matching
 version reports it instead of failing on an empty list

---
 pkm/src/pkm/api/packages/package_installation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 2589e01..da027ac 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -449,7 +449,7 @@ class _InstallationRepository(Repository, ABC):
         packages = self._repo.match(dependency, env)
         if installed:
             packages.sort(key=lambda it: 0 if installed.version == it.version else 1)
-        elif self._fast_plan_mode and dependency.package_name_key in self._unspecified_spec_packages:
+        elif packages and self._fast_plan_mode and dependency.package_name_key in self._unspecified_spec_packages:
             max_version_package = max(packages, key=lambda it: it.version)
             if not isinstance(max_version_package.version, StandardVersion):
                 unspecified_limit = VersionMatch(max_version_package.version)
-- 
2.43.0


From 2776a188581e311fd204fe783b2dd1623f9c587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 020/144] fix: updating a package neither breaks other
 requested packages nor removes the updated one

---
 pkm/src/pkm/api/packages/package_installation.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index da027ac..c16ee5e 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -154,8 +154,9 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         self.reload()
 
         updates = {PackageDescriptor.package_name_key(u) for u in (updates or ())}
-        preinstalled_packages = [p for p in self.site_packages.installed_packages() if p.name_key not in updates]
-        pre_requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request}
+        installed_packages = list(self.site_packages.installed_packages())
+        preinstalled_packages = [p for p in installed_packages if p.name_key not in updates]
+        pre_requested_deps = {p.name_key: p.user_request for p in installed_packages if p.user_request}
         unspecified_spec_packages = \
             unspecified_spec_packages or [
                 d.package_name_key
@@ -172,7 +173,9 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         try:
             # first we try the fast path: only adding packages without updating
             # but requiring latest matching versions of new user requested packages
-            user_request = _UserRequestPackage(list(new_deps.values()))
+            # (updated packages may be required by other user requested packages, so these requests must hold as well)
+            updating = len(preinstalled_packages) < len(installed_packages)
+            user_request = _UserRequestPackage(list((all_deps if updating else new_deps).values()))
             installation_repo = _InstallationRepository(
                 repository, preinstalled_packages, user_request, unspecified_spec_packages, True)
 
@@ -180,7 +183,7 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
                 user_request.to_dependency(), self, installation_repo, dependencies_override)
 
             installation_names = {i.name_key for i in installation}
-            for preinstalled in preinstalled_packages:
+            for preinstalled in installed_packages:
                 if preinstalled.name_key not in installation_names:
                     installation.append(preinstalled)
 
-- 
2.43.0


From 3821ec676c86439668887134cb3d9a69be9dd11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 021/144] fix: a failed installation is rolled back completely,
 including generated, compiled and overwritten files

---
 .../api/distributions/wheel_distribution.py   | 18 +++----
 pkm/src/pkm/utils/files.py                    | 49 ++++++++++++-------
 2 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index b42c0ed..626f55f 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -109,7 +109,7 @@ class WheelDistribution(Distribution):
                 if d.is_dir():
                     if d == data_dir:
                         for k in d.iterdir():
-                            target_path = getattr(target, k.name) or Path(target.data, k.name)
+                            target_path = getattr(target, k.name, None) or Path(target.data, k.name)
                             if k.name == 'scripts':
                                 ct.copy_tree(
                                     k, Path(target_path),
@@ -126,20 +126,17 @@ class WheelDistribution(Distribution):
             scripts_path = Path(target.scripts)
             for entrypoint in entrypoints:
                 if entrypoint.is_script():
+                    ct.reserve(scripts_path / entrypoint.name)
                     ct.touch(Executables.generate_for_entrypoint(target.env, entrypoint, scripts_path))
 
             #  compile py to pyc
-            new_pyc_files: List[str] = []
             with warnings.catch_warnings():
                 warnings.filterwarnings('ignore')
-                for cc in ct.copied_files:
+                for cc in list(ct.copied_files):
                     if cc.suffix == '.py':
+                        # mark the compiled files in the transaction, so that they will be added to record
+                        ct.reserve(Path(importlib.util.cache_from_source(str(cc))))
                         compileall.compile_file(cc, force=True, quiet=2)
-                        new_pyc_files.append(importlib.util.cache_from_source(str(cc)))
-
-            # mark the compiled files in the transaction, so that they will be added to record
-            for npf in new_pyc_files:
-                ct.touch(Path(npf))
 
             # build the new records file
             new_dist_info = DistInfo.load(site_packages / dist_info.path.name)
@@ -150,13 +147,16 @@ class WheelDistribution(Distribution):
             } if not skip_record_verification else None
             new_record_file.sign_files(ct.copied_files, site_packages, precomputed_hashes)
 
+            ct.reserve(new_record_file.path)
             new_record_file.save()
 
             # and finally, mark the installer and the requested flag
-            (new_dist_info.path / "INSTALLER").write_text(f"pkm")
+            ct.reserve(new_dist_info.path / "INSTALLER").write_text(f"pkm")
             if user_request:
+                ct.reserve(new_dist_info.user_requested_path())
                 new_dist_info.mark_as_user_requested(user_request)
             if installation_info:
+                ct.reserve(new_dist_info.installation_info_path())
                 new_dist_info.save_installation_info(installation_info)
 
     def install_to(self, target: "PackageInstallationTarget", user_request: Optional[Dependency] = None,
diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index cef9a65..5059a74 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -143,8 +143,8 @@ class CopyTransaction:
 
         if file_copy:
             def cp(s, d):
+                self.reserve(d)
                 file_copy(s, d)
-                self.touch(d)
         else:
             cp = self.copy
 
@@ -154,7 +154,7 @@ class CopyTransaction:
                 continue
 
             if file.is_dir():
-                self.copy_tree(file, target / file.name, accept)
+                self.copy_tree(file, target / file.name, accept, file_copy)
             else:
                 cp(file, target / file.name)
 
@@ -167,8 +167,12 @@ class CopyTransaction:
         if not target.exists():
             if not target.parent.exists():
                 self.mkdir(target.parent)
-            target.mkdir()
-            self._copied_files.add(target)
+            try:
+                target.mkdir()
+                self._copied_files.add(target)
+            except FileExistsError:
+                if not target.is_dir():  # otherwise, it was concurrently created by another transaction
+                    raise
 
         return target
 
@@ -181,19 +185,23 @@ class CopyTransaction:
         if source.is_dir():
             raise UnsupportedOperationException("copy should not work with directories, use copy_tree or mkdir instead")
 
-        if target.exists():
-            self.rm(target)
+        self.reserve(target)
+        shutil.copy(source, target)
 
-        try:
-            shutil.copy(source, target)
-        except FileNotFoundError:
-            if not target.exists():
-                self.mkdir(target.parent)
-                shutil.copy(source, target)
-            else:
-                raise
+    def reserve(self, target: Path) -> Path:
+        """
+        reserves the `target` path for a file that is about to be written as part of this transaction,
+        if a file already exists in this path it will be removed (rollback supported operation)
+        :param target: the path of the file that is about to be written
+        :return `target` to be used with chaining
+        """
+        if target.exists() or target.is_symlink():
+            self.rm(target)
+        else:
+            self.mkdir(target.parent)
 
         self._copied_files.add(target)
+        return target
 
     @property
     def copied_files(self) -> Iterator[Path]:
@@ -255,16 +263,19 @@ class CopyTransaction:
 
     def _rollback(self):
         for file in self._copied_files:
-            if not file.is_dir():
+            if file.is_symlink() or not file.is_dir():
                 file.unlink(missing_ok=True)
 
-        for file in self._copied_files:
-            if file.is_dir() and is_empty_directory(file):
+        # children must be removed before their parents
+        for file in sorted(self._copied_files, key=lambda it: len(it.parts), reverse=True):
+            if is_empty_directory(file):
                 file.rmdir()
 
+        restored: Set[Path] = set()
         for i, path in enumerate(self._overwritten_files):
-            restore_path = self._temp_dir / str(i)
-            shutil.move(restore_path, path)
+            if path not in restored:  # otherwise, it was overwritten more than once, and the first is the original
+                restored.add(path)
+                shutil.move(self._temp_dir / str(i), path)
 
         self._commit()
 
-- 
2.43.0


From 21493ab785f910fdf2dc301366615efe3d3d2025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 022/144] fix: clearing a cached property does not fail when
 another thread clears it too

---
 pkm/src/pkm/utils/properties.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/properties.py b/pkm/src/pkm/utils/properties.py
index 56630a6..22d11ab 100644
--- a/pkm/src/pkm/utils/properties.py
+++ b/pkm/src/pkm/utils/properties.py
@@ -70,8 +70,10 @@ class cached_property:
             setattr(instance, self._attr, value)
 
     def __delete__(self, instance):
-        if hasattr(instance, self._attr):
+        try:
             delattr(instance, self._attr)
+        except AttributeError:
+            ...  # there is no cached value (or it was concurrently removed)
 
 
 def clear_cached_properties(obj: Any):
-- 
2.43.0


From 405e386515420eed0d9baa1005a7c3fa37dad828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:25 +0000
Subject: [PATCH 023/144] fix: uninstalling removes only files of the
 uninstalled package, even in shared and linked directories

---
 pkm/src/pkm/api/distributions/distinfo.py |  4 ++--
 pkm/src/pkm/api/packages/site_packages.py | 23 +++++++++++++++++------
 pkm/src/pkm/utils/files.py                |  9 +++++++--
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/distinfo.py b/pkm/src/pkm/api/distributions/distinfo.py
index df9e68a..0db88a6 100644
--- a/pkm/src/pkm/api/distributions/distinfo.py
+++ b/pkm/src/pkm/api/distributions/distinfo.py
@@ -201,8 +201,8 @@ class DistInfo(Serializable):
         """
         root = self.path.parent
         for record in self.load_record_cfg().records:
-            file = Path(root, record.file).resolve()
-            yield file
+            file = Path(root, record.file)
+            yield file.parent.resolve() / file.name  # the file itself may be a link, its target is not ours
 
         yield self.record_path()
 
diff --git a/pkm/src/pkm/api/packages/site_packages.py b/pkm/src/pkm/api/packages/site_packages.py
index 47ac6a5..1e1564b 100644
--- a/pkm/src/pkm/api/packages/site_packages.py
+++ b/pkm/src/pkm/api/packages/site_packages.py
@@ -11,7 +11,7 @@ from pkm.api.packages.package_installation_info import StoreMode, PackageInstall
 from pkm.api.packages.package_metadata import PackageMetadata
 from pkm.api.versions.version_specifiers import VersionMatch
 from pkm.utils.dicts import put_if_absent
-from pkm.utils.files import is_empty_directory, is_relative_to
+from pkm.utils.files import is_relative_to
 from pkm.utils.types import Serializable
 from pkm.utils.properties import cached_property, clear_cached_properties
 from pkm.utils.sequences import pop_or_none
@@ -129,6 +129,14 @@ def _read_user_request(dist_info: DistInfo, metadata: PackageMetadata) -> Option
     return None
 
 
+def _remove_if_empty(directory: Path) -> bool:
+    try:
+        directory.rmdir()
+        return True
+    except OSError:  # not empty, or concurrently removed
+        return False
+
+
 class InstalledPackage(Package, Serializable):
 
     def __init__(self, dist_info: DistInfo, site: Optional[SitePackages] = None):
@@ -215,18 +223,21 @@ class InstalledPackage(Package, Serializable):
             installed_file.unlink(missing_ok=True)
             parents_to_check.add(installed_file.parent)
 
-        installation_site = self.dist_info.path.parent
+        installation_site = self.dist_info.path.parent.resolve()
         while parents_to_check:
             parent = parents_to_check.pop()  # noqa : pycharm does not know's about set's pop method?
 
             if parent == installation_site or not is_relative_to(parent, installation_site):
                 continue
 
-            if (precompiled := parent / "__pycache__").exists():
-                shutil.rmtree(precompiled, ignore_errors=True)
+            if (precompiled := parent / "__pycache__").is_dir():
+                # the directory may be shared with other packages, remove only the files which lost their source
+                for pyc in precompiled.glob("*.pyc"):
+                    if not (parent / f"{pyc.name.split('.')[0]}.py").exists():
+                        pyc.unlink(missing_ok=True)
+                _remove_if_empty(precompiled)
 
-            if is_empty_directory(parent):
-                parent.rmdir()
+            if _remove_if_empty(parent):
                 parents_to_check.add(parent.parent)
 
         if self._dist_info.path.exists():
diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index 5059a74..c2804b0 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -186,7 +186,11 @@ class CopyTransaction:
             raise UnsupportedOperationException("copy should not work with directories, use copy_tree or mkdir instead")
 
         self.reserve(target)
-        shutil.copy(source, target)
+        try:
+            shutil.copy(source, target)
+        except FileNotFoundError:  # the parent may have been concurrently removed
+            self.mkdir(target.parent)
+            shutil.copy(source, target)
 
     def reserve(self, target: Path) -> Path:
         """
@@ -287,7 +291,8 @@ def is_relative_to(path: Path, root: Path) -> bool:
     :param root: the path that may contain `path`
     """
 
-    return str(path.absolute()).startswith(str(root.absolute()))
+    path, root = path.absolute(), root.absolute()
+    return root == path or root in path.parents
 
 
 def dir_size(directory: Path) -> int:
-- 
2.43.0


From ea1fd933f898b39ea66b207c7fc2b1cad1584e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 024/144] fix: packages can be uninstalled from a site whose
 installed versions contradict each other

---
 pkm/src/pkm/api/packages/package_installation.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index c16ee5e..e93b07b 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from _ast import Set
 from abc import ABC
 from concurrent.futures import ThreadPoolExecutor
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from enum import Enum
 from pathlib import Path
 from typing import List, Dict, Optional, Union, Set, TYPE_CHECKING
@@ -78,7 +78,8 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         for package_name in packages_to_remove:
             requested_deps.pop(PackageDescriptor.package_name_key(package_name), None)
 
-        user_request = _UserRequestPackage(list(requested_deps.values()))
+        # nothing is going to be installed, so it only matters which packages are needed and not their versions
+        user_request = _UserRequestPackage([_of_any_version(d) for d in requested_deps.values()])
         installation_repo = _RemovalRepository(preinstalled_packages, user_request)
 
         installation = resolve_dependencies(user_request.to_dependency(), self, installation_repo)
@@ -373,6 +374,10 @@ class _UserRequestPackage(Package):
         return Dependency(self.name, VersionMatch(self.version))
 
 
+def _of_any_version(dependency: Dependency) -> Dependency:
+    return replace(dependency, version_spec=AllowAllVersions)
+
+
 class _RemovalRepository(AbstractRepository):
 
     def __init__(self, preinstalled: List[InstalledPackage], user_request: Package):
@@ -410,7 +415,8 @@ class _RemovalPackage(Package, Serializable):
     def dependencies(
             self, target: "PackageInstallationTarget", extras: Optional[List[str]] = None) -> List["Dependency"]:
         sitep = target.site_packages
-        return [d for d in self.package.dependencies(target, extras) if sitep.installed_package(d.package_name)]
+        return [_of_any_version(d) for d in self.package.dependencies(target, extras)
+                if sitep.installed_package(d.package_name)]
 
     def is_compatible_with(self, env: "Environment") -> bool:
         return self.package.is_compatible_with(env)
-- 
2.43.0


From acd425bb689baf458bdfdbdb8f07b35bfc9077b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:18 +0000
Subject: [PATCH 025/144] fix: file system repositories find packages by their
 normalized name

---
 pkm/src/pkm/repositories/file_system_repository.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/repositories/file_system_repository.py b/pkm/src/pkm/repositories/file_system_repository.py
index 55a5b08..2d22ba5 100644
--- a/pkm/src/pkm/repositories/file_system_repository.py
+++ b/pkm/src/pkm/repositories/file_system_repository.py
@@ -5,7 +5,7 @@ from typing import List, Dict, Optional
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.distribution import Distribution
 from pkm.api.environments.environment import Environment
-from pkm.api.packages.package import Package
+from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.projects.project import Project
 from pkm.api.projects.project_group import ProjectGroup
 from pkm.api.repositories.repository import AbstractRepository, RepositoryBuilder, Repository
@@ -19,10 +19,12 @@ class PackagesDictRepository(AbstractRepository):
 
     def __init__(self, name: str, packages: Dict[str, List[Package]]):
         super().__init__(name)
-        self._packages = packages
+        self._packages: Dict[str, List[Package]] = defaultdict(list)
+        for package_name, named_packages in packages.items():
+            self._packages[PackageDescriptor.package_name_key(package_name)].extend(named_packages)
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
-        all_packages = self._packages.get(dependency.package_name) or []
+        all_packages = self._packages.get(dependency.package_name_key) or []
         return self._sorted_by_version([p for p in all_packages if dependency.version_spec.allows_version(p.version)])
 
 
-- 
2.43.0


From 52bdb6c084b23cd510d82d7958d0a04f8ee1e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:13 +0000
Subject: [PATCH 026/144] fix: a rollback undoes the operations of its
 transaction from the last to the first

---
 pkm/src/pkm/utils/files.py | 40 +++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index c2804b0..26be174 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -5,7 +5,7 @@ import shutil
 from contextlib import contextmanager
 from pathlib import Path
 from tempfile import mkdtemp
-from typing import Optional, Callable, ContextManager, Iterator, List, Set
+from typing import Optional, Callable, ContextManager, Iterator, List, Set, Tuple
 
 from pkm.utils.commons import UnsupportedOperationException
 
@@ -126,7 +126,7 @@ class CopyTransaction:
 
     def __init__(self):
         self._copied_files: Set[Path] = set()
-        self._overwritten_files: List[Path] = []  # source overwrite, temp location
+        self._undo_log: List[Tuple[Path, Optional[Path]]] = []  # created path or removed path and its temp location
         self._temp_dir: Optional[Path] = None
 
     def copy_tree(self, source: Path, target: Path,
@@ -169,7 +169,7 @@ class CopyTransaction:
                 self.mkdir(target.parent)
             try:
                 target.mkdir()
-                self._copied_files.add(target)
+                self.touch(target)
             except FileExistsError:
                 if not target.is_dir():  # otherwise, it was concurrently created by another transaction
                     raise
@@ -204,7 +204,7 @@ class CopyTransaction:
         else:
             self.mkdir(target.parent)
 
-        self._copied_files.add(target)
+        self.touch(target)
         return target
 
     @property
@@ -219,7 +219,8 @@ class CopyTransaction:
         mark the given `paths` as copied in this transaction
         :param paths: list of path to mark
         """
-        self._copied_files.update(paths)
+        for path in paths:
+            self.touch(path)
 
     def touch(self, path: Path, fs_touch: bool = False):
         """
@@ -228,6 +229,7 @@ class CopyTransaction:
         :param fs_touch: if true will also touch the path in the filesystem
         """
         self._copied_files.add(path)
+        self._undo_log.append((path, None))
         if fs_touch:
             path.touch(exist_ok=True)
 
@@ -237,7 +239,7 @@ class CopyTransaction:
         :param path: the path to mark
         """
         self.touch(path)
-        self._copied_files.update(path.rglob("*"))
+        self.touch_all([*path.rglob("*")])
 
     def rm(self, path: Path):
         """
@@ -245,9 +247,9 @@ class CopyTransaction:
         works for both files and directories
         :param path: the path to remove
         """
-        temp = self._temp_dir / str(len(self._overwritten_files))
+        temp = self._temp_dir / str(len(self._undo_log))
         shutil.move(path, temp)
-        self._overwritten_files.append(path)
+        self._undo_log.append((path, temp))
 
     def __enter__(self) -> CopyTransaction:
         self._temp_dir = Path(mkdtemp())
@@ -266,20 +268,14 @@ class CopyTransaction:
         self._temp_dir = None
 
     def _rollback(self):
-        for file in self._copied_files:
-            if file.is_symlink() or not file.is_dir():
-                file.unlink(missing_ok=True)
-
-        # children must be removed before their parents
-        for file in sorted(self._copied_files, key=lambda it: len(it.parts), reverse=True):
-            if is_empty_directory(file):
-                file.rmdir()
-
-        restored: Set[Path] = set()
-        for i, path in enumerate(self._overwritten_files):
-            if path not in restored:  # otherwise, it was overwritten more than once, and the first is the original
-                restored.add(path)
-                shutil.move(self._temp_dir / str(i), path)
+        # the operations are undone from the last to the first
+        for path, moved_to in reversed(self._undo_log):
+            if moved_to:
+                shutil.move(moved_to, path)
+            elif is_empty_directory(path) and not path.is_symlink():
+                path.rmdir()
+            elif path.is_symlink() or path.is_file():
+                path.unlink()
 
         self._commit()
 
-- 
2.43.0


From 770a9391cf78d1d720727fbdcb12362691dc1fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 027/144] fix: an ini file that cannot be read is an error, not
 an empty configuration

---
 pkm/src/pkm/config/configfiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index 7682f8d..98c1788 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -56,7 +56,8 @@ class INIConfigIO(ConfigIO):
     def read(self, path: Path) -> _RAW_CONFIG_T:
         data = {}
         cp = _CaseSensitiveConfigParser()
-        cp.read(str(path))
+        with path.open("r") as fd:  # cp.read(..) silently ignores files that cannot be read
+            cp.read_file(fd)
         for section_name, section_values in cp.items():
             if section_name and section_name != cp.default_section:
                 data[section_name] = {**section_values}
-- 
2.43.0


From 472c100033eb71f946a4a0189b56a858a34ceb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 028/144] fix: waiting for several promises leaves none of them
 running, also when one ends by an interrupt or exit

---
 pkm/src/pkm/utils/promises.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/promises.py b/pkm/src/pkm/utils/promises.py
index e432a52..56cc699 100644
--- a/pkm/src/pkm/utils/promises.py
+++ b/pkm/src/pkm/utils/promises.py
@@ -102,7 +102,7 @@ class Promise(ABC, Generic[_T]):
 def await_all_promises_or_cancel(promises: List[Promise]):
     try:
         await_all_promises(promises)
-    except Exception as e:
+    except BaseException as e:
         for p in [uncanceled for uncanceled in promises if not uncanceled.request_cancel()]:
             try:
                 p.result()
-- 
2.43.0


From d4f1d60b7220d49f42d765ff27b605a241363006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:26 +0000
Subject: [PATCH 029/144] fix: a promise that failed with an exception that is
 falsy is failed

---
 pkm/src/pkm/utils/promises.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/utils/promises.py b/pkm/src/pkm/utils/promises.py
index 56cc699..39cf142 100644
--- a/pkm/src/pkm/utils/promises.py
+++ b/pkm/src/pkm/utils/promises.py
@@ -181,7 +181,7 @@ class _SimplePromise(Promise[_T]):
         while True:
             with self._wait_lock:
                 if self._done:
-                    if self._err:
+                    if self._err is not None:
                         raise self._err
                     return self._result
 
@@ -194,7 +194,7 @@ class _SimplePromise(Promise[_T]):
         return self._done
 
     def is_failed(self) -> bool:
-        return self._done and self._err
+        return self._done and self._err is not None
 
     def request_cancel(self) -> bool:
         return False
-- 
2.43.0


From c76bf2f56902d5d1b2dafa337b95f5708d2cda11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 030/144] fix: large results and outputs of worker processes
 arrive completely

---
 pkm/src/pkm/utils/multiproc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/multiproc/__init__.py b/pkm/src/pkm/utils/multiproc/__init__.py
index bb410c9..4d021a0 100644
--- a/pkm/src/pkm/utils/multiproc/__init__.py
+++ b/pkm/src/pkm/utils/multiproc/__init__.py
@@ -105,7 +105,7 @@ class _WorkerHandler:
         executable = sys.executable
         self._proc = Popen(
             args=[executable, "-u", str(Path(__file__).parent / "worker.py")],
-            stderr=PIPE, stdout=PIPE, stdin=PIPE, bufsize=0,
+            stderr=PIPE, stdout=PIPE, stdin=PIPE,
             env=os.environ
         )
 
-- 
2.43.0


From 27ed30514b9e0137cab0b20b90042b5dfde1d1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 031/144] fix: a task or result that cannot be pickled does not
 disturb the tasks after it

---
 pkm/src/pkm/utils/multiproc/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/utils/multiproc/__init__.py b/pkm/src/pkm/utils/multiproc/__init__.py
index 4d021a0..f62ea02 100644
--- a/pkm/src/pkm/utils/multiproc/__init__.py
+++ b/pkm/src/pkm/utils/multiproc/__init__.py
@@ -84,14 +84,14 @@ class _Worker:
         while True:
             cmd: _Command = pickle.load(self._stdin)
             try:
-                result = cmd.execute()
-                pickle.dump(_CommandResult(result), self._stderr)
-                self._stderr.flush()
+                result = pickle.dumps(_CommandResult(cmd.execute()))
             except Exception as e:  # noqa
                 err_strace = StringIO()
                 traceback.print_exc(file=err_strace)
-                pickle.dump(_CommandResult(err_strace=err_strace.getvalue()), self._stderr)
-                self._stderr.flush()
+                result = pickle.dumps(_CommandResult(err_strace=err_strace.getvalue()))
+
+            self._stderr.write(result)
+            self._stderr.flush()
 
 
 class _WorkerHandler:
@@ -142,7 +142,7 @@ class _WorkerHandler:
 
                 try:
                     if task_result.attach_worker(self):
-                        pickle.dump(next_task, self._proc.stdin)
+                        self._proc.stdin.write(pickle.dumps(next_task))
                         self._proc.stdin.flush()
 
                         proc_result: _CommandResult = pickle.load(self._proc.stderr)
-- 
2.43.0


From ce9f5bfe9dbd8a86019c08627fef1d4c2a9d13db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 032/144] fix: tasks and the processes they start do not
 disturb the communication with the worker process

---
 pkm/src/pkm/utils/multiproc/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/utils/multiproc/__init__.py b/pkm/src/pkm/utils/multiproc/__init__.py
index f62ea02..674aaa2 100644
--- a/pkm/src/pkm/utils/multiproc/__init__.py
+++ b/pkm/src/pkm/utils/multiproc/__init__.py
@@ -72,9 +72,13 @@ class _Worker:
         self._stdout_lock = Lock()
 
     def _attach_to_process(self):
-        self._stdout = sys.stdout.buffer
-        self._stderr = sys.stderr.buffer
-        self._stdin = sys.stdin.buffer
+        # the tasks, and the processes they start, must not reach the streams that are used to communicate with the pool
+        self._stdin, self._stdout, self._stderr = (
+            os.fdopen(os.dup(fd), mode) for fd, mode in ((0, 'rb'), (1, 'wb'), (2, 'wb')))
+
+        null = os.open(os.devnull, os.O_RDWR)
+        for fd in (0, 1, 2):
+            os.dup2(null, fd)
 
         sys.stdout = _StandardStreamPipe(self._stdout, 0, self._stdout_lock)
         sys.stderr = _StandardStreamPipe(self._stdout, 1, self._stdout_lock)
-- 
2.43.0


From 3da91d761c3b2b411805105c5ae112b6801ffde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 033/144] fix: a worker process that died is not given further
 tasks

---
 pkm/src/pkm/utils/multiproc/__init__.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/utils/multiproc/__init__.py b/pkm/src/pkm/utils/multiproc/__init__.py
index 674aaa2..487f6ba 100644
--- a/pkm/src/pkm/utils/multiproc/__init__.py
+++ b/pkm/src/pkm/utils/multiproc/__init__.py
@@ -137,8 +137,6 @@ class _WorkerHandler:
                 try:
                     next_task: _Task = q.get(block=True, timeout=self._pool.max_inactivity_seconds)
                 except Empty:
-                    self.kill()
-                    self._proc.wait()
                     return
 
                 task_result: _TaskResult = cast(_TaskResult, next_task.result)
@@ -146,10 +144,16 @@ class _WorkerHandler:
 
                 try:
                     if task_result.attach_worker(self):
-                        self._proc.stdin.write(pickle.dumps(next_task))
-                        self._proc.stdin.flush()
+                        message = pickle.dumps(next_task)
 
-                        proc_result: _CommandResult = pickle.load(self._proc.stderr)
+                        try:
+                            self._proc.stdin.write(message)
+                            self._proc.stdin.flush()
+                            proc_result: _CommandResult = pickle.load(self._proc.stderr)
+                        except BaseException:
+                            self.kill()  # there is no telling what this worker does from now on
+                            self._proc.wait()
+                            raise
 
                         if proc_result.err_strace:
                             task_result.deferred.fail(
@@ -162,6 +166,8 @@ class _WorkerHandler:
                 finally:
                     q.task_done()
         finally:
+            self.kill()
+            self._proc.wait()
             # noinspection PyProtectedMember
             self._pool._removed_worker(self)
 
-- 
2.43.0


From 9df904560ebf602cd8183218a88ece7fb999a9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 034/144] fix: cancelling a task of the process pool cancels it
 only if it did not start, and completes its promise

---
 pkm/src/pkm/utils/multiproc/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/utils/multiproc/__init__.py b/pkm/src/pkm/utils/multiproc/__init__.py
index 487f6ba..b526e27 100644
--- a/pkm/src/pkm/utils/multiproc/__init__.py
+++ b/pkm/src/pkm/utils/multiproc/__init__.py
@@ -7,6 +7,7 @@ import sys
 import traceback
 import typing
 from abc import ABC, abstractmethod
+from concurrent.futures import CancelledError
 from dataclasses import dataclass
 from io import StringIO
 from pathlib import Path
@@ -215,12 +216,14 @@ class _TaskResult:
         return True
 
     def _on_cancel(self) -> bool:
-        if self._canceled or self.deferred.promise().is_completed():
-            with self._lock:
-                self._canceled = True
-                if self._attached_worker:
-                    self._attached_worker.kill()
+        with self._lock:
+            if self._attached_worker:
+                return False  # already started (and may already be done)
+            if self._canceled:
+                return True
+            self._canceled = True
 
+        self.deferred.fail(CancelledError())
         return True
 
 
-- 
2.43.0


From 5396bcc22aa9485c0532198977f69bb73dc35140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 035/144] fix: closing the process pool ends its workers and
 leaves no task unanswered

---
 pkm/src/pkm/utils/multiproc/__init__.py | 33 ++++++++++++++++---------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/pkm/src/pkm/utils/multiproc/__init__.py b/pkm/src/pkm/utils/multiproc/__init__.py
index b526e27..d0ed261 100644
--- a/pkm/src/pkm/utils/multiproc/__init__.py
+++ b/pkm/src/pkm/utils/multiproc/__init__.py
@@ -140,6 +140,10 @@ class _WorkerHandler:
                 except Empty:
                     return
 
+                if next_task is None:  # the pool is closing
+                    q.task_done()
+                    return
+
                 task_result: _TaskResult = cast(_TaskResult, next_task.result)
                 next_task.result = None
 
@@ -243,12 +247,12 @@ class ProcessPoolExecutor(Closeable):
     def execute(self, execution: Callable[_PARAMS, _T],
                 *args: _PARAMS.args, **kwargs: _PARAMS.kwargs) -> Promise[_T]:
 
-        assert not self._closed or execution == sys.exit, "attempting execution after/during shutdown"
-
         result = _TaskResult()
 
-        # noinspection PyTypeChecker
-        self._task_queue.put(_Task(execution, args, kwargs, result))
+        with self._workers_lock:
+            assert not self._closed, "attempting execution after/during shutdown"
+            # noinspection PyTypeChecker
+            self._task_queue.put(_Task(execution, args, kwargs, result))
 
         self._spawn_new_worker_if_needed()
 
@@ -261,25 +265,32 @@ class ProcessPoolExecutor(Closeable):
         self._spawn_new_worker_if_needed()
 
     def _spawn_new_worker_if_needed(self):
-        new_worker = None
         with self._workers_lock:
             n_workers = len(self._workers)
-            if self._task_queue.unfinished_tasks > n_workers and n_workers < self._max_workers:
+            if not self._closed and self._task_queue.unfinished_tasks > n_workers and n_workers < self._max_workers:
                 new_worker = _WorkerHandler(self, f"worker {self._next_worker_id}")
                 self._next_worker_id += 1
                 self._workers[new_worker.name] = new_worker
-        if new_worker:
-            new_worker.start()
+                new_worker.start()
 
     def close(self):
-        self._closed = True
+        with self._workers_lock:
+            self._closed = True
+            workers = list(self._workers.values())
 
-        workers = list(self._workers.values())
         for _ in workers:
-            self.execute(sys.exit, 0)
+            self._task_queue.put(None)
 
         for worker in workers:
             worker.join()
 
+        # nobody is left to execute the remaining tasks
+        try:
+            while True:
+                if task := self._task_queue.get_nowait():
+                    task.result.deferred.promise().request_cancel()
+        except Empty:
+            pass
+
     def is_closed(self) -> bool:
         return self._closed
-- 
2.43.0


From 3ec86e3ee165ebfc27469c37f2ab2fe1fe7a003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 036/144] fix: the output of a worker process is forwarded
 until the process ends

---
 pkm/src/pkm/utils/multiproc/__init__.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/utils/multiproc/__init__.py b/pkm/src/pkm/utils/multiproc/__init__.py
index d0ed261..84127e8 100644
--- a/pkm/src/pkm/utils/multiproc/__init__.py
+++ b/pkm/src/pkm/utils/multiproc/__init__.py
@@ -118,13 +118,17 @@ class _WorkerHandler:
         return self._pool.is_closed() or self._proc.poll() is not None
 
     def _handle_log(self):
-        try:
-            stream = [sys.stdout, sys.stderr]
-            while not self._should_terminate():
+        stream = [sys.stdout, sys.stderr]
+        while True:
+            try:
                 write: _StdWrite = pickle.load(self._proc.stdout)
+            except (EOFError, pickle.UnpicklingError):
+                return  # the process ended
+
+            try:
                 stream[write.stream_id].write(write.msg)
-        except EOFError:
-            pass
+            except Exception:  # noqa
+                ...  # this output can not be written, but the worker must not block because nobody reads what it writes
 
     def __del__(self):
         if self._proc.poll() is not None:
-- 
2.43.0


From 8d4bfd06c3958d4512037d70853411883ed048b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 037/144] fix: setting a cached property does not fail when
 another thread sets or clears it too

---
 pkm/src/pkm/utils/properties.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkm/src/pkm/utils/properties.py b/pkm/src/pkm/utils/properties.py
index 22d11ab..99cc680 100644
--- a/pkm/src/pkm/utils/properties.py
+++ b/pkm/src/pkm/utils/properties.py
@@ -64,8 +64,7 @@ class cached_property:
 
         if self._setter:
             self._setter(instance, value)
-            if hasattr(instance, self._attr):
-                delattr(instance, self._attr)
+            self.__delete__(instance)
         else:
             setattr(instance, self._attr, value)
 
-- 
2.43.0


From 7b235728f2b6193fe22d4425ab5619e264c77307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 038/144] fix: a rollback goes on when a concurrent
 installation uses one of its directories

---
 pkm/src/pkm/utils/files.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index 26be174..4c3e641 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -272,8 +272,12 @@ class CopyTransaction:
         for path, moved_to in reversed(self._undo_log):
             if moved_to:
                 shutil.move(moved_to, path)
-            elif is_empty_directory(path) and not path.is_symlink():
-                path.rmdir()
+            elif path.is_dir() and not path.is_symlink():
+                try:
+                    path.rmdir()
+                except OSError:
+                    if is_empty_directory(path):  # otherwise, it is used (maybe by a concurrent transaction)
+                        raise
             elif path.is_symlink() or path.is_file():
                 path.unlink()
 
-- 
2.43.0


From 2538f62d93987b8a452178fb447d963d09b900ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 039/144] fix: a fetch is in progress only until it ended,
 however it ended

---
 pkm/src/pkm/utils/http/http_client.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 4e4140b..3041087 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -436,11 +436,6 @@ class HttpClient:
                                     raise
                                 else:
                                     raise HttpException(str(e), response) from e
-                            finally:
-                                # print(f"thread: {threading.current_thread().ident} attempting to release task")
-                                with self._fetch_lock:
-                                    del self._fetch_inprogress[url]
-                                # print(f"thread: {threading.current_thread().ident} succss to release task")
 
                         # print(f"[END] GET {url} resulted with cache files: {cache_files}")
                         return cache_files
@@ -452,10 +447,18 @@ class HttpClient:
                 mop.notify(FetchResourceCacheHitEvent())
                 return promise.result()
 
+            def _release():
+                with self._fetch_lock:
+                    del self._fetch_inprogress[url]
+
             try:
-                deffered.complete(_fetch())
-            except Exception as e:
+                fetched = _fetch()
+            except BaseException as e:
+                _release()
                 deffered.fail(e)
+            else:
+                _release()
+                deffered.complete(fetched)
 
             return promise.result()
 
-- 
2.43.0


From 602237373c20ea6b9b5af2757b0b1c729fcbdccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 040/144] fix: a response that ended before its content was
 complete is not stored as the fetched resource

---
 pkm/src/pkm/utils/http/http_client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 3041087..5cab15b 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -251,6 +251,9 @@ class FetchedResource:
             with open(self.data, 'wb') as df:
                 shutil.copyfileobj(response, df)
 
+            if response.length:  # the part of the content that was not received
+                raise HttpException("connection closed before the content was completely received", response)
+
             rheaders = response.headers
             last_modified = rheaders.get('last-modified', rheaders.get('date'))
 
-- 
2.43.0


From 9e2eda53c89a68a2c1c31ac1fe0c670efcddf633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 041/144] fix: a resource whose data is missing is requested
 unconditionally

---
 pkm/src/pkm/utils/http/http_client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 5cab15b..2cb1daf 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -421,7 +421,8 @@ class HttpClient:
 
                             # noinspection PyShadowingNames
                             try:
-                                cache.add_headers(fetch_info, headers)
+                                if cache_files.exists():
+                                    cache.add_headers(fetch_info, headers)
                                 with self._request("GET", parsed_url, headers=headers) as response:
                                     clength = int(response.headers.get('content-length', '-1'))
                                     mop.notify(FetchResourceDownloadStartEvent(clength, cache_files.data))
-- 
2.43.0


From 3cd9ecf2193f1fde81bcdff5de12b6896c912a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 042/144] fix: connections with unread responses or errors are
 not used for further requests, failures while reading are not retried

---
 pkm/src/pkm/utils/http/http_client.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 2cb1daf..2970175 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -114,6 +114,13 @@ class _ConnectionProxy(Closeable):
             self._owner._release(self._conn)
             self._conn = None
 
+    def discard(self):
+        """
+        closes this connection so that nothing that was already sent or received through it affect later requests
+        """
+        if self._conn is not None:
+            self._conn.close()
+
 
 class _Connections(Closeable):
     def __init__(self, ctype: Type[HTTPConnection], host: str, port: int, cached_amount: int):
@@ -333,6 +340,7 @@ class HttpClient:
 
         while num_connection_retries < self._max_connection_retries and num_redirects_performed <= max_redirects:
             with self._pool.connection_for(url) as conn:
+                handled = False
                 try:
                     # print(f"[CONN] using connection {conn.number} to connect to {str(url)}")  # noqa
                     conn.request(mtd, url.resource_part(), headers=headers, body=payload)
@@ -349,13 +357,22 @@ class HttpClient:
                                 url = Url.parse(new_location)
                             response.read()
                         else:
+                            handled = True
                             if response.headers.get('Content-Encoding') == 'gzip':
                                 yield cast(HTTPResponse, _GzipResponseWrapper(response))
                             else:
                                 yield response
+                            if not response.isclosed():  # it was not read to its end
+                                conn.discard()
                             return
                 except ConnectionError:
+                    conn.discard()
+                    if handled:
+                        raise
                     num_connection_retries += 1
+                except BaseException:
+                    conn.discard()
+                    raise
 
         error = "max redirects reached" if num_redirects_performed > self._max_redirects else "connection failed"
         raise HttpException(error)
-- 
2.43.0


From 231a75e39becc3e769da3c3abd1f171398126d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 043/144] fix: relative redirections are resolved against the
 redirected url

---
 pkm/src/pkm/utils/http/http_client.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 2970175..769d65a 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -5,7 +5,7 @@ import shutil
 import socket
 from collections import deque
 from contextlib import contextmanager
-from dataclasses import dataclass, replace
+from dataclasses import dataclass
 from datetime import datetime
 from datetime import timezone
 from gzip import GzipFile
@@ -14,7 +14,7 @@ from pathlib import Path
 from socket import AddressFamily
 from threading import Lock
 from typing import Deque, Dict, Type, Optional, cast, Any, ContextManager, IO, Union, Iterable
-from urllib.parse import urlsplit
+from urllib.parse import urljoin, urlsplit
 
 from pkm.config.configclass import ConfigFile, config, config_field
 from pkm.config.configfiles import TomlConfigIO
@@ -351,10 +351,7 @@ class HttpClient:
                             if not (new_location := response.headers.get("Location")):
                                 raise HttpException(
                                     "server responded with redirect but without supplying a new location")
-                            if new_location.startswith("/"):
-                                url = replace(url, path=new_location)
-                            else:
-                                url = Url.parse(new_location)
+                            url = Url.parse(urljoin(str(url), new_location))
                             response.read()
                         else:
                             handled = True
-- 
2.43.0


From 70a93941481573eed47262a03f4e53656b5da1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 044/144] fix: the fragment of a url is not sent to the server

---
 pkm/src/pkm/utils/http/http_client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 769d65a..851eb13 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -65,8 +65,7 @@ class Url:
 
     def resource_part(self) -> str:
         query_str = "" if not self.query_string else f"?{self.query_string}"
-        fragment_str = "" if not self.fragment else f"#{self.fragment}"
-        return f"{self.path}{query_str}{fragment_str}"
+        return f"{self.path}{query_str}"
 
     def __str__(self):
         default_port = (self.scheme == 'https' and self.port == 443) or (self.scheme == 'http' and self.port == 80)
-- 
2.43.0


From c9387af502f2231f8cc7350441836de01710dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 045/144] fix: cached resources are stored inside the cache
 directory, whatever the path in their url

---
 pkm/src/pkm/utils/http/http_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 851eb13..993b5c4 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -312,7 +312,7 @@ class HttpClient:
 
     def _resource_files_of(self, url: Url) -> FetchedResource:
         url_hash = hashlib.md5(str(url).encode('ascii')).hexdigest()
-        url_path = Path(url.path.lstrip('/'))
+        url_path = Path(*(part for part in url.path.split('/') if part not in ('', '.', '..')))
 
         if url_path.parent:
             cache_dir = self.workspace / url.host / url_path.parent / url_hash
-- 
2.43.0


From 54e6f5400d13ff83ed59ec72917b1ffb6cb47b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:55 +0000
Subject: [PATCH 046/144] fix: a fetched resource replaces the cached one only
 when it is complete, readers never see a part of it

---
 pkm/src/pkm/utils/http/http_client.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 993b5c4..af3712d 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -15,6 +15,7 @@ from socket import AddressFamily
 from threading import Lock
 from typing import Deque, Dict, Type, Optional, cast, Any, ContextManager, IO, Union, Iterable
 from urllib.parse import urljoin, urlsplit
+from uuid import uuid4
 
 from pkm.config.configclass import ConfigFile, config, config_field
 from pkm.config.configfiles import TomlConfigIO
@@ -250,15 +251,21 @@ class FetchedResource:
 
     def save(self, response: HTTPResponse):
         self.data.parent.mkdir(exist_ok=True, parents=True)
-        if self.fetch_info.exists():
-            self.fetch_info.unlink()
+        received = self.data.with_name(f"{uuid4().hex}.part")
 
         try:
-            with open(self.data, 'wb') as df:
+            with open(received, 'wb') as df:
                 shutil.copyfileobj(response, df)
 
             if response.length:  # the part of the content that was not received
                 raise HttpException("connection closed before the content was completely received", response)
+        except:  # noqa
+            received.unlink(missing_ok=True)
+            raise
+
+        try:
+            self.fetch_info.unlink(missing_ok=True)
+            received.replace(self.data)
 
             rheaders = response.headers
             last_modified = rheaders.get('last-modified', rheaders.get('date'))
-- 
2.43.0


From df79157ee6e0401512649ca5740e0c0e587d4f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:55 +0000
Subject: [PATCH 047/144] fix: resources at the root of a host can be fetched

---
 pkm/src/pkm/utils/http/http_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index af3712d..b23d011 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -326,7 +326,7 @@ class HttpClient:
         else:
             cache_dir = self.workspace / url.host / url_hash
 
-        data_file = cache_dir / url_path.name
+        data_file = cache_dir / (url_path.name or 'index')
         fetch_file = data_file.with_suffix(".fetch.toml")
 
         return FetchedResource(fetch_file, data_file, self.workspace)
-- 
2.43.0


From cafae7ccb392b648e0b95dd5873be4765cd757d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:03 +0000
Subject: [PATCH 048/144] fix: a request is retried on a new connection, not on
 another idle one that may be closed too

---
 pkm/src/pkm/utils/http/http_client.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index b23d011..87b9832 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -132,10 +132,10 @@ class _Connections(Closeable):
         self._cached_amount = cached_amount
         self._closed = False
 
-    def acquire(self) -> HTTPConnection:
+    def acquire(self, fresh: bool = False) -> HTTPConnection:
         result: Optional[HTTPConnection] = None
         with self._lock:
-            if self._connections:
+            if self._connections and not fresh:
                 result = self._connections.pop()
 
         if not result:
@@ -170,7 +170,7 @@ class _ConnectionPool(Closeable):
         self._lock = Lock()
         self._closed = False
 
-    def connection_for(self, url: Url) -> HTTPConnection:
+    def connection_for(self, url: Url, fresh: bool = False) -> HTTPConnection:
         connection_key = url.connection_part()
         with self._lock:
             if self._closed:
@@ -179,7 +179,7 @@ class _ConnectionPool(Closeable):
             return get_or_put(
                 self._connections, connection_key,
                 lambda: _Connections(url.connection_type, url.host, url.port, cached_amount=self._cached_amount)) \
-                .acquire()
+                .acquire(fresh)
 
     def close(self):
         with self._lock:
@@ -345,7 +345,7 @@ class HttpClient:
         max_redirects = self._max_redirects if max_redirects < 0 else max_redirects
 
         while num_connection_retries < self._max_connection_retries and num_redirects_performed <= max_redirects:
-            with self._pool.connection_for(url) as conn:
+            with self._pool.connection_for(url, fresh=num_connection_retries > 0) as conn:
                 handled = False
                 try:
                     # print(f"[CONN] using connection {conn.number} to connect to {str(url)}")  # noqa
-- 
2.43.0


From eb3c9dd147c8358c87e0407d000ce3c260603a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:48 +0000
Subject: [PATCH 049/144] fix: locked packages are found by any spelling of
 their name

---
 pkm/src/pkm/resolution/packages_lock.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/resolution/packages_lock.py b/pkm/src/pkm/resolution/packages_lock.py
index 348b0bd..e330d20 100644
--- a/pkm/src/pkm/resolution/packages_lock.py
+++ b/pkm/src/pkm/resolution/packages_lock.py
@@ -38,7 +38,7 @@ class PackagesLock:
     def __init__(self, locked_packages: Optional[List[_LockedVersion]] = None, lock_file: Optional[Path] = None):
         locked_packages = unone(locked_packages, list)
         self._locked_packages: Dict[str, List[_LockedVersion]] = \
-            groupby(locked_packages, lambda it: it.package.name)
+            groupby(locked_packages, lambda it: it.package.name_key)
         self._lock_file = lock_file
 
     def unlock_packages(self, package_names: Iterable[str]) -> PackagesLock:
@@ -49,7 +49,7 @@ class PackagesLock:
         :return self (for chaining support)
         """
         for pn in package_names:
-            self._locked_packages.pop(pn, None)
+            self._locked_packages.pop(PackageDescriptor.package_name_key(pn), None)
 
         return self
 
@@ -71,7 +71,7 @@ class PackagesLock:
         """
 
         relevant_locks = [lp for lst in self._locked_packages.values() for lp in lst] if not package else \
-            [lp for lp in (self._locked_packages.get(package) or ())]
+            [lp for lp in (self._locked_packages.get(PackageDescriptor.package_name_key(package)) or ())]
 
         if not relevant_locks:
             return []
@@ -102,7 +102,7 @@ class PackagesLock:
         for package in env.site_packages.installed_packages():
             new_locks.append(_LockedVersion(env_hash, package.descriptor))
 
-        self._locked_packages = groupby(new_locks, lambda it: it.package.name)
+        self._locked_packages = groupby(new_locks, lambda it: it.package.name_key)
         return self
 
     def save(self, lock_file: Optional[Path] = None):
-- 
2.43.0


From e0a749df5b5196c933d3b070d9b95d58710e48cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:48 +0000
Subject: [PATCH 050/144] fix: the version locked for an environment is
 preferred over those locked for others

---
 pkm/src/pkm/resolution/packages_lock.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/resolution/packages_lock.py b/pkm/src/pkm/resolution/packages_lock.py
index e330d20..3037de5 100644
--- a/pkm/src/pkm/resolution/packages_lock.py
+++ b/pkm/src/pkm/resolution/packages_lock.py
@@ -120,8 +120,10 @@ class PackagesLock:
 
     def sort_packages_by_lock_preference(self, env: Environment, packages: List[Package]) -> List[Package]:
         if packages:
-            locked_versions = {lp.version for lp in self.locked_versions(env, packages[0].name)}
-            packages.sort(key=lambda it: 0 if it.version in locked_versions else 1)
+            package_key = packages[0].name_key
+            locked_versions = {lp.version for lp in self.locked_versions(env, package_key)}
+            env_versions = {lp.version for lp in self.env_specific_locks(env) if lp.name_key == package_key}
+            packages.sort(key=lambda it: 0 if it.version in env_versions else 1 if it.version in locked_versions else 2)
 
         return packages
 
-- 
2.43.0


From 71a5b9a107dae128a0a2c2fa1b7d26356749c2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 051/144] fix: two repositories with the same definition keep
 their own names

---
 pkm/src/pkm/api/repositories/repository_loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index 93f9ade..f29634d 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -119,7 +119,7 @@ class RepositoryLoader:
         return _CompositeRepository(name, package_search_list, binding_only_repositories, package_binding)
 
     def build(self, name: str, builder: str, **args) -> Repository:
-        key = _CachedRepositoryKey(builder, args)
+        key = _CachedRepositoryKey(name, builder, args)
         if not (cached := self._cached_instances.get(key)):
             if not (builder := self._builders.get(builder)):
                 raise KeyError(f"unknown repository type: {builder}")
@@ -131,11 +131,13 @@ class RepositoryLoader:
 
 @dataclass(eq=True)
 class _CachedRepositoryKey:
+    name: str
     builder: str
     args: Dict[str, str]
 
     def __hash__(self):
         return HashBuilder() \
+            .regular(self.name) \
             .regular(self.builder) \
             .unordered_mapping(self.args) \
             .build()
-- 
2.43.0


From 470a251c96584c81c6c6cdecfbc0f162fa167e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 052/144] fix: a url that no repository handles matches
 nothing, instead of raising a TypeError

---
 pkm/src/pkm/api/repositories/repository_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index f29634d..4ba3a03 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -163,10 +163,10 @@ class _CompositeRepository(AbstractRepository):
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
 
         if url := dependency.required_url():
-            for repo in self._url_handlers[url.protocol]:
+            for repo in self._url_handlers.get(url.protocol, ()):
                 if match := repo.match(dependency, env):
                     return match
-            raise []
+            return []
 
         if repo_name := self._package_binding.get(dependency.package_name):
             if not (repo := first_or_none(it for it in self._package_search_list if it.name == repo_name)):
-- 
2.43.0


From 17f9b1f85c7f2e14cee79af0e6184d83caf86ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 053/144] fix: packages can be bound to unnamed repositories,
 each binding to its own, and are found by any spelling

---
 .../repositories_configuration.py             | 15 +++++++++++++++
 .../pkm/api/repositories/repository_loader.py | 19 ++++++++++---------
 .../api/repositories/repository_management.py |  2 +-
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repositories_configuration.py b/pkm/src/pkm/api/repositories/repositories_configuration.py
index 99f9925..7d29340 100644
--- a/pkm/src/pkm/api/repositories/repositories_configuration.py
+++ b/pkm/src/pkm/api/repositories/repositories_configuration.py
@@ -24,6 +24,21 @@ class RepositoryInstanceConfig:
     bind_only: bool = config_field(key="bind-only", default=False)
     args: Dict[str, str] = config_field(leftover=True)
 
+    @classmethod
+    def from_binding(cls, binding: Mapping[str, Any]) -> "RepositoryInstanceConfig":
+        """
+        :param binding: the configuration of an unnamed repository, as it is stored in the package bindings
+        :return: the definition of this repository
+        """
+        args = dict(binding)
+        return cls(args.pop('type'), args.pop('bind-only', True), args)
+
+    def to_binding(self) -> Dict[str, Any]:
+        """
+        :return: the configuration to store in the package bindings in order to bind packages to this repository
+        """
+        return {'type': self.type, 'bind-only': self.bind_only, **self.args}
+
 
 @config(io=TomlConfigIO())
 class RepositoriesConfiguration(ConfigFile):
diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index 4ba3a03..c95136d 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -8,9 +8,9 @@ from typing import List, Dict, Iterable, Optional, Set, Mapping
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
-from pkm.api.packages.package import Package
+from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.repositories.repositories_configuration import RepositoriesConfiguration, \
-    RepositoriesConfigInheritanceMode
+    RepositoriesConfigInheritanceMode, RepositoryInstanceConfig
 from pkm.api.repositories.repository import Repository, RepositoryBuilder, AbstractRepository
 from pkm.repositories.file_repository import FileRepository
 from pkm.repositories.pypi_repository import PypiRepositoryBuilder
@@ -102,14 +102,15 @@ class RepositoryLoader:
 
         package_binding: Dict[str, str] = {}
         for package, binding in config.package_bindings.items():
+            package_key = PackageDescriptor.package_name_key(package)
             if isinstance(binding, str):
-                package_binding[package] = binding
+                package_binding[package_key] = binding
             else:
-                type_ = binding.pop('type')
-                binding = self.build(name, type_, **binding)
-                binding_only_repositories.add(binding.name)
-                package_search_list.append(binding)
-                package_binding[package] = binding.name
+                definition = RepositoryInstanceConfig.from_binding(binding)
+                instance = self.build(f"{name}#{package_key}", definition.type, **definition.args)
+                binding_only_repositories.add(instance.name)
+                package_search_list.append(instance)
+                package_binding[package_key] = instance.name
 
         if not package_search_list:
             if config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
@@ -168,7 +169,7 @@ class _CompositeRepository(AbstractRepository):
                     return match
             return []
 
-        if repo_name := self._package_binding.get(dependency.package_name):
+        if repo_name := self._package_binding.get(dependency.package_name_key):
             if not (repo := first_or_none(it for it in self._package_search_list if it.name == repo_name)):
                 raise NoSuchElementException(f"package: {dependency.package_name} is bound to "
                                              f"repository: {repo_name}, but this repository is not defined")
diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index fe0d330..ac08fe3 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -99,7 +99,7 @@ class RepositoryManagement(ABC):
     def register_bindings(self, packages: List[str], repo: Optional[Union[str, RepositoryInstanceConfig]]):
         if repo:
             if isinstance(repo, RepositoryInstanceConfig):
-                repo = repo.to_config()
+                repo = repo.to_binding()
 
             self.configuration.package_bindings = {
                 **self.configuration.package_bindings,
-- 
2.43.0


From e90ad53f786d43b1255458e2d90b5174dd511d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 054/144] fix: a context that inherits nothing and defines no
 repository does not use those of its parent

---
 pkm/src/pkm/api/repositories/repository_loader.py     | 5 -----
 pkm/src/pkm/api/repositories/repository_management.py | 2 +-
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index c95136d..93b98ad 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -112,11 +112,6 @@ class RepositoryLoader:
                 package_search_list.append(instance)
                 package_binding[package_key] = instance.name
 
-        if not package_search_list:
-            if config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
-                return self.global_repo
-            return next_in_context
-
         return _CompositeRepository(name, package_search_list, binding_only_repositories, package_binding)
 
     def build(self, name: str, builder: str, **args) -> Repository:
diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index ac08fe3..6d32705 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -117,7 +117,7 @@ class RepositoryManagement(ABC):
     def attached_repo(self) -> Repository:
         repo = None
         for rman in reversed(self.package_lookup_chain()):
-            if not isinstance(rman, PkmRepositoryManagement) and rman.configuration.path.exists():
+            if not isinstance(rman, PkmRepositoryManagement) and (repo is None or rman.configuration.path.exists()):
                 repo = self._loader.load(str(rman.configuration.path), rman.configuration, repo)
             repo = rman._wrap_attached_repository(repo)
 
-- 
2.43.0


From 565f5527a28458bb2ee7cb3d99fc8efbb275185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:25 +0000
Subject: [PATCH 055/144] fix: a context that inherits only the global
 repositories keeps its own ones

---
 pkm/src/pkm/api/repositories/repository_loader.py |  3 ++-
 .../pkm/api/repositories/repository_management.py | 15 +++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index 93b98ad..52a2984 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -74,6 +74,7 @@ class RepositoryLoader:
 
         self.global_repo_config = RepositoriesConfiguration.load(main_cfg)
 
+        self._global_repo: Optional[Repository] = None
         self._global_repo = self.load('global', self.global_repo_config, base)
         self.workspace = workspace
 
@@ -98,7 +99,7 @@ class RepositoryLoader:
         if config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_CONTEXT:
             package_search_list.append(next_in_context)
         elif config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
-            package_search_list.append(self.global_repo)
+            package_search_list.append(self._global_repo or next_in_context)
 
         package_binding: Dict[str, str] = {}
         for package, binding in config.package_bindings.items():
diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index 6d32705..d2722e5 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -55,11 +55,6 @@ class RepositoryManagement(ABC):
         """
 
     def package_lookup_chain(self) -> List[RepositoryManagement]:
-        if self.configuration.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
-            return [pkm.repository_management]
-        elif self.configuration.inheritance_mode != RepositoriesConfigInheritanceMode.INHERIT_CONTEXT:
-            return [self]
-
         pending: List[Tuple[RepositoryManagement, bool]] = [(self, True)]
         closed: Set[Path] = set()
         chain: List[RepositoryManagement] = []
@@ -69,7 +64,15 @@ class RepositoryManagement(ABC):
             if not add_if_absent(closed, rman.configuration.path):
                 continue
             chain.append(rman)
-            if inherit:
+
+            inheritance_mode = rman.configuration.inheritance_mode
+            if inheritance_mode == RepositoriesConfigInheritanceMode.NO_INHERITANCE:
+                break
+            elif inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
+                if rman is not pkm.repository_management:
+                    chain.append(pkm.repository_management)
+                break
+            elif inherit:
                 pending.extend(
                     (context.repository_management, inherit) for (context, inherit) in rman.parent_contexts())
 
-- 
2.43.0


From cdc283c000ccf6e29c92a71d3e48169089af8ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 056/144] fix: the repositories of a zoo without package
 sharing settings can be used

---
 pkm/src/pkm/api/repositories/repository_management.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index d2722e5..58cc657 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -208,7 +208,7 @@ class ZooRepositoryManagement(RepositoryManagement):
         return [(pkm, True)]
 
     def _wrap_attached_repository(self, inherited: Optional[Repository]) -> Repository:
-        if self.zoo.config.package_sharing.enabled:
+        if (package_sharing := self.zoo.config.package_sharing) and package_sharing.enabled:
             inherited = SharedPackagesRepository(self.zoo.path / ".zoo/shared", inherited)
 
         return inherited
-- 
2.43.0


From 97fdb3ecd3f383763a087044318ea3c217f999a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:48 +0000
Subject: [PATCH 057/144] fix: changes of the configured repositories can be
 saved

---
 pkm/src/pkm/api/repositories/repositories_configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/repositories/repositories_configuration.py b/pkm/src/pkm/api/repositories/repositories_configuration.py
index 7d29340..672cfc1 100644
--- a/pkm/src/pkm/api/repositories/repositories_configuration.py
+++ b/pkm/src/pkm/api/repositories/repositories_configuration.py
@@ -44,7 +44,7 @@ class RepositoryInstanceConfig:
 class RepositoriesConfiguration(ConfigFile):
     repos: Dict[str, RepositoryInstanceConfig] = config_field(default_factory=dict)
     inheritance: str = "context"
-    package_bindings: Mapping[str, Any] = config_field(key="package-bindings", default_factory=dict)
+    package_bindings: Dict[str, Any] = config_field(key="package-bindings", default_factory=dict)
 
     @cached_property
     def inheritance_mode(self) -> RepositoriesConfigInheritanceMode:
-- 
2.43.0


From af32330428667f42a4bbd1deaf4576a73a0649f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 058/144] fix: binding a package replaces its binding under any
 spelling of its name

---
 .../api/repositories/repository_management.py | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index 58cc657..b68531c 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -7,7 +7,7 @@ from typing import Dict, List, Optional, Tuple, Iterable, Union, Set
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
 from pkm.api.environments.environments_zoo import EnvironmentsZoo
-from pkm.api.packages.package import Package
+from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.pkm import HasAttachedRepository, Pkm, pkm
 from pkm.api.projects.project import Project
 from pkm.api.projects.project_group import ProjectGroup
@@ -100,20 +100,18 @@ class RepositoryManagement(ABC):
         return result
 
     def register_bindings(self, packages: List[str], repo: Optional[Union[str, RepositoryInstanceConfig]]):
+        bound_keys = {PackageDescriptor.package_name_key(p) for p in packages}
+        bindings = {
+            p: r for p, r in self.configuration.package_bindings.items()
+            if PackageDescriptor.package_name_key(p) not in bound_keys
+        }
+
         if repo:
             if isinstance(repo, RepositoryInstanceConfig):
                 repo = repo.to_binding()
+            bindings.update((p, repo) for p in packages)
 
-            self.configuration.package_bindings = {
-                **self.configuration.package_bindings,
-                **{p: repo for p in packages}
-            }
-        else:
-            self.configuration.package_bindings = {
-                p: r for p, r in self.configuration.package_bindings.items()
-                if p not in packages
-            }
-
+        self.configuration.package_bindings = bindings
         self._update_config()
 
     @cached_property
-- 
2.43.0


From 324a8f326ed67eee89daa1dd61f1b9e1a8817d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 059/144] fix: a table that was replaced by a plain value is
 saved as such

---
 pkm/src/pkm/config/toml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index c3498b3..04ad4bf 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -102,6 +102,7 @@ class _StyleSheet:
         if display != 'auto' and result.display != display:
             result = copy(result)
             result.display = display
+            result.key_str = None  # it was written for the other display
             if display == 'assignment':
                 result.epilog = ' '
 
-- 
2.43.0


From 362e639a729f0d1597717a3ce4519f572041b907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 060/144] fix: toml strings are read as toml defines them

---
 pkm/src/pkm/config/toml.py | 62 +++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 04ad4bf..23d97ef 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -8,6 +8,7 @@ from typing import Optional, Dict, Any, Mapping, List, Tuple, Union, MutableMapp
 from pkm.utils.parsers import SimpleParser
 
 _KEY_RX = re.compile(r'[a-zA-Z\d\-_]+')
+_ESCAPES = {'b': '\b', 't': '\t', 'n': '\n', 'f': '\f', 'r': '\r', '"': '"', '\\': '\\'}
 KEY_T = Tuple
 DUMPS_T = Callable[[Dict[str, Any]], str]
 
@@ -414,39 +415,50 @@ class _TomlParser(SimpleParser):
 
         return result
 
-    def read_multiline_basic_str(self) -> str:
-        self.match_or_err('"""', 'multiline basic string expected')
-        s = '"""' + self.until_match('"""')
-        while s[-1] == '\\':
-            s += self.next(3) + self.until_match('"""')
+    def _read_str_content(self, quotes: str, escapes: bool) -> str:
+        self.match_or_err(quotes, f'{quotes} expected')
+        multiline = len(quotes) == 3
+        if multiline:
+            self.match('\n')  # a newline that immediately follows the opening quotes is not part of the string
 
-        s += '"""'
-        self.match_or_err('"""', 'multiline basic string ending expected')
+        result = ''
+        while self.is_not_empty():
+            if self.match(quotes):
+                for _ in range(2):  # quotes that immediately precede the closing ones are part of the string
+                    if multiline and self.match(quotes[0]):
+                        result += quotes[0]
+                return result
+
+            n = self.next()
+            if n == '\n' and not multiline:
+                break
+            result += self._read_escape(multiline) if n == '\\' and escapes else n
 
-        return eval(s)
+        self.raise_err('string closing expected')
 
-    def read_multiline_literal_str(self) -> str:
-        self.match_or_err("'''", 'multiline literal string expected')
-        string = self.until_match("'''")
-        self.match_or_err("'''", "missing multiline literal string closing")
-        return string
+    def _read_escape(self, multiline: bool) -> str:
+        n = self.next()
+        if n in _ESCAPES:
+            return _ESCAPES[n]
+        if n in ('u', 'U'):
+            return chr(int(self.next(4 if n == 'u' else 8), 16))
 
-    def read_basic_str(self) -> str:
-        self.match_or_err('"', 'basic string expected')
-        s = '"' + self.until_match('"')
-        while s[-1] == '\\':
-            s += self.next() + self.until_match('"')
+        self.position -= len(n)
+        if multiline and '\n' in self.match_ws():  # line ending backslash
+            return ''
+        self.raise_err('unknown escape sequence')
 
-        s += '"'
-        self.match_or_err('"', 'basic string ending expected')
+    def read_multiline_basic_str(self) -> str:
+        return self._read_str_content('"""', True)
 
-        return eval(s)
+    def read_multiline_literal_str(self) -> str:
+        return self._read_str_content("'''", False)
+
+    def read_basic_str(self) -> str:
+        return self._read_str_content('"', True)
 
     def read_literal_str(self) -> str:
-        self.match_or_err("'", 'literal string expected')
-        string = self.until_match("'")
-        self.match_or_err("'", "missing literal string closing")
-        return string
+        return self._read_str_content("'", False)
 
     def read_str(self) -> str:
         n = self.peek(3)
-- 
2.43.0


From f8596a62cca5ec138dd3297ff9c7b64d5b44cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 061/144] fix: a toml file may end with a comment

---
 pkm/src/pkm/config/toml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 23d97ef..4744b31 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -409,7 +409,7 @@ class _TomlParser(SimpleParser):
             result += self.match_ws(allow_new_lines)
             n = self.peek()
             if n == '#':  # comment
-                result += self.until_match('\n')
+                result += self.until(lambda i, s: s[i] == '\n')
             else:
                 break
 
-- 
2.43.0


From ebd45f6420ddd5a582846489474799a2defeb80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 062/144] fix: toml numbers and dates are read as toml defines
 them

---
 pkm/src/pkm/config/toml.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 4744b31..fc38264 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -9,6 +9,8 @@ from pkm.utils.parsers import SimpleParser
 
 _KEY_RX = re.compile(r'[a-zA-Z\d\-_]+')
 _ESCAPES = {'b': '\b', 't': '\t', 'n': '\n', 'f': '\f', 'r': '\r', '"': '"', '\\': '\\'}
+_DATE_RX = re.compile(r'\d{4}-\d\d-\d\d')
+_TIME_RX = re.compile(r'\d\d:\d\d')
 KEY_T = Tuple
 DUMPS_T = Callable[[Dict[str, Any]], str]
 
@@ -542,26 +544,26 @@ class _TomlParser(SimpleParser):
             dtable_key = (*table_key, *key[0:i])
             self.style.update_value_auto_display(dtable_key, {}, display)
 
-    def read_date(self) -> TimeLiteral:
-        ts = self.until(lambda s, i: s[i].isnumeric() or s[i] in '-.: TZ')
-        return TimeLiteral(ts)
-
     def read_number_or_date(self) -> Union[Number, TimeLiteral]:
-        pos = self.position
+        p = self.position
+        literal = self.until(lambda i, s: not s[i].isalnum() and s[i] not in '+-.:_')
 
-        sign = (self.match('-') and '-') or (self.match('+') and '+') or ''
-        nstr = sign + self.until(lambda i, s: not s[i].isnumeric() and s[i] not in '.e')
+        if _DATE_RX.fullmatch(literal) and _TIME_RX.match(self.peek(9), 1) and self.peek() == ' ':
+            literal += self.next() + self.until(lambda i, s: not s[i].isalnum() and s[i] not in '+-.:')
 
-        n = self.peek()
-        if n in '-:':
-            self.position = pos
-            return self.read_date()
+        if _DATE_RX.match(literal) or _TIME_RX.match(literal):
+            return TimeLiteral(literal)
 
-        if not nstr:
+        try:
+            if literal.lower().startswith(('0x', '0o', '0b')):
+                return int(literal, 0)
+            if literal.lstrip('+-').isdigit() or '_' in literal and literal.lstrip('+-').replace('_', '').isdigit():
+                return int(literal)
+            return float(literal)
+        except ValueError:
+            self.position = p
             self.raise_err("number expected")
 
-        return eval(nstr)
-
     def read_bool(self) -> bool:
         if self.match('true'):
             return True
@@ -618,7 +620,7 @@ class _TomlParser(SimpleParser):
         p = self.position
         n = self.peek()
         result = None
-        if n in "+-" or n.isnumeric():
+        if n in "+-" or n.isnumeric() or self.peek(3) in ('inf', 'nan'):
             result = self.read_number_or_date()
             value_str = self.text[p:self.position]
         elif n in '\'"':
-- 
2.43.0


From 4f69a9f8ee5a31525e21cb0d38d1d439c393782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 063/144] fix: empty inline tables in toml files can be read

---
 pkm/src/pkm/config/toml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index fc38264..35eb52c 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -679,7 +679,9 @@ class _TomlParser(SimpleParser):
             self.read_non_data()
             key_start = self.peek()
             self.position = p
-            if not key_start or key_start == '[':
+            if not key_start or key_start == '[' or inline and key_start == '}':
+                if inline:
+                    self.read_non_data(False)
                 break
 
             k = self.read_key(base_key=table_key)
-- 
2.43.0


From 996cdfa4026457a8ec5021d367473b0ac8fef980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 064/144] fix: toml tables inside arrays of tables, and tables
 following their subtables, are read completely

---
 pkm/src/pkm/config/toml.py | 41 +++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 35eb52c..cc1b722 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -79,11 +79,6 @@ class _StyleSheet:
         self.keys: Dict[KEY_T, _KeyStyle] = {}
         self.values: Dict[KEY_T, _ValueStyle] = {}
 
-    def lastify(self, key: KEY_T) -> KEY_T:
-        lk = len(key) + 1
-        index = sum(len(k) == lk and k[:-1] == key for k in self.keys.keys())
-        return *key, index
-
     def set_key_style(self, key: KEY_T, style: _KeyStyle):
         self.keys[key] = style
 
@@ -404,6 +399,7 @@ class _TomlParser(SimpleParser):
     def __init__(self, text: str, file_name: Optional[str]):
         super().__init__(text, file_name)
         self.style = _StyleSheet()
+        self._data: Dict[str, Any] = {}
 
     def read_non_data(self, allow_new_lines: bool = True) -> str:
         result = ''
@@ -525,7 +521,9 @@ class _TomlParser(SimpleParser):
         if table_list_key:
             self.match_ws()
             self.match_or_err(']', 'expecting table list key termination')
-            key = self.style.lastify(key)
+
+        if table_key:
+            key = self._resolve_table_key(key, table_list_key)
 
         key_str = self.text[p:self.position]
         epilog = self.read_non_data(False)
@@ -646,20 +644,41 @@ class _TomlParser(SimpleParser):
 
         return result
 
+    def _resolve_table_key(self, key: KEY_T, new_item: bool) -> KEY_T:
+        """
+        :param key: key of a table as written in its header
+        :param new_item: True if this table is a new item of the array of tables at `key`
+        :return: the path to this table: `key` including the indexes in the arrays of tables that it leads through
+        """
+        data, path = self._data, []
+        for i, part in enumerate(key):
+            path.append(part)
+            data = data.get(part, {})
+            if i + 1 == len(key) and new_item:
+                path.append(len(data))
+            elif isinstance(data, List):
+                path.append(len(data) - 1)
+                data = data[-1]
+
+        return tuple(path)
+
     def _enter(self, data: Any, key: KEY_T, value: Any):
         if not key:
             return data
 
         if isinstance(data, List):
-            if len(key) == 1 and isinstance(key[0], Number):
+            if len(key) == 1:
                 data.append(value)
                 return
 
-            return self._enter(data[-1], key, value)
+            return self._enter(data[key[0]], key[1:], value)
 
         if isinstance(data, MutableMapping):
             if len(key) == 1:
-                data[key[0]] = value
+                if isinstance(value, Mapping) and isinstance(data.get(key[0]), MutableMapping):
+                    data[key[0]].update(value)  # defined before through its subtables
+                else:
+                    data[key[0]] = value
                 return
 
             if key[0] not in data:
@@ -710,15 +729,13 @@ class _TomlParser(SimpleParser):
             self.match_or_err('\n', 'expecting newline after table key')
             data = self.read_table_assignments(key)
 
-        if key[-1] == -1:
-            key = (*key[:-1], id(data))
         self.style.set_value_style(key, data, _ValueStyle(prolog=prolog, display='regular'))
         return key, data
 
     def read(self) -> Dict[str, Any]:
         prolog = self.read_non_data()
         epilog = ''
-        data = self.read_table_assignments(())
+        data = self._data = self.read_table_assignments(())
 
         while self.is_not_empty():
             p = self.position
-- 
2.43.0


From 440eadbe038290518396d0e4c93f5e42def89bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 065/144] fix: empty tables are written to toml files

---
 pkm/src/pkm/config/toml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index cc1b722..252032f 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -126,7 +126,7 @@ class _StyleSheet:
             if isinstance(value, Mapping):
                 is_root = not key
                 is_first_level = len(key) == 1
-                has_no_assignments = all(
+                has_no_assignments = len(value) > 0 and all(
                     isinstance(it, Mapping) or
                     (isinstance(it, List) and self.value_style((*key, k), it).display == 'table-array')
                     for k, it in value.items())
@@ -324,6 +324,9 @@ class _Writer:
     def _write_hidden_table(self, data: Mapping[str, Any], key: KEY_T, vstyle: _ValueStyle) -> str:
         result = ''
 
+        if not data:
+            return self._write_regular_table(data, key, self.style.value_style(key, data, 'regular'))
+
         for partial_key, item in data.items():
             item_key = (*key, partial_key)
 
-- 
2.43.0


From 9fb0f6c813a4d81c86feda511db07663b666fbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 066/144] fix: control characters in strings are escaped in
 toml files

---
 pkm/src/pkm/config/toml.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 252032f..844ec2e 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -9,6 +9,9 @@ from pkm.utils.parsers import SimpleParser
 
 _KEY_RX = re.compile(r'[a-zA-Z\d\-_]+')
 _ESCAPES = {'b': '\b', 't': '\t', 'n': '\n', 'f': '\f', 'r': '\r', '"': '"', '\\': '\\'}
+_ESCAPE_TABLE = {
+    **{code: f'\\u{code:04x}' for code in (*range(32), 127)},
+    **{ord(char): f'\\{escape}' for escape, char in _ESCAPES.items()}}
 _DATE_RX = re.compile(r'\d{4}-\d\d-\d\d')
 _TIME_RX = re.compile(r'\d\d:\d\d')
 KEY_T = Tuple
@@ -231,16 +234,7 @@ class _Writer:
     def _write_str(self, data: str, vstyle: _ValueStyle) -> str:
         value_str = vstyle.value_str
         if value_str is None:
-            escaped = data.translate({
-                ord('\b'): '\\b',
-                ord('\t'): '\\t',
-                ord('\n'): '\\n',
-                ord('\f'): '\\f',
-                ord('\r'): '\\r',
-                ord('"'): '\\"',
-                ord('\\'): '\\\\',
-            })
-
+            escaped = data.translate(_ESCAPE_TABLE)
             value_str = f'"{escaped}"'
 
         return f'{vstyle.prolog}{value_str}{vstyle.epilog}'
-- 
2.43.0


From e81cea7e2c34aa658b6d686392605d006853bb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 067/144] fix: arrays and tables that became empty are written
 correctly to toml files

---
 pkm/src/pkm/config/toml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 844ec2e..987b330 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -213,11 +213,11 @@ class _Writer:
             return self._write_value(v, k, s)
 
         result += ', '.join(_write_value(v, i).strip(' ') for i, v in enumerate(data))
-        result += f'{vstyle.content_trailing}]{vstyle.epilog}'
+        result += f"{vstyle.content_trailing if data else ''}]{vstyle.epilog}"
         return result
 
     def _write_table(self, data: Mapping[str, Any], key: KEY_T, vstyle: _ValueStyle) -> str:
-        if vstyle.display == 'regular':
+        if vstyle.display == 'regular' or not data and vstyle.display == 'dotted':
             return self._write_regular_table(data, key, vstyle)
 
         if vstyle.display == 'hidden':
-- 
2.43.0


From 9c0066d84c2c849c60198752c8e15250753216af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:26 +0000
Subject: [PATCH 068/144] fix: empty arrays in toml tables that hold nothing
 else are written

---
 pkm/src/pkm/config/toml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 987b330..c58f162 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -328,7 +328,8 @@ class _Writer:
             is_table = isinstance(item, Mapping)
 
             inappropriate_item = not is_list and not is_table
-            inappropriate_item = inappropriate_item or is_list and any(not isinstance(it, Mapping) for it in item)
+            inappropriate_item = inappropriate_item or is_list and not (
+                item and all(isinstance(it, Mapping) for it in item))
 
             if inappropriate_item:
                 return self._write_regular_table(data, key, self.style.value_style(key, data, 'regular'))
-- 
2.43.0


From 6999434485eb9ff643abed5ec4dd580d074f9f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:26 +0000
Subject: [PATCH 069/144] fix: comments after arrays, inline tables and array
 items stay in toml files

---
 pkm/src/pkm/config/toml.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index c58f162..17b5a9e 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -568,7 +568,6 @@ class _TomlParser(SimpleParser):
         self.raise_err("boolean expected")
 
     def read_inline_list(self, key: KEY_T) -> List[Any]:
-        prolog = self.read_non_data(False)
         self.match_or_err('[', 'expecting list start')
         result = []
         p = self.position
@@ -586,7 +585,7 @@ class _TomlParser(SimpleParser):
             next_ = self.read_inline_value(item_key)
             item_style = self.style.value_style(item_key, next_)
             item_style.prolog = item_prolog
-            item_style.epilog = self.read_non_data()
+            item_style.epilog += self.read_non_data()
             result.append(next_)
 
             p = self.position
@@ -595,18 +594,14 @@ class _TomlParser(SimpleParser):
 
         content_trailing = content_trailing or self.read_non_data()
         self.match_or_err(']', 'expecting list end')
-        epilog = self.read_non_data(False)
-        self.style.set_value_style(key, result, _ValueStyle(prolog=prolog, epilog=epilog, display='inline',
-                                                            content_trailing=content_trailing))
+        self.style.set_value_style(key, result, _ValueStyle(display='inline', content_trailing=content_trailing))
         return result
 
     def read_inline_table(self, key: KEY_T) -> Dict[str, Any]:
-        prolog = self.read_non_data(False)
         self.match_or_err('{', 'expecting inline-table start')
         result = self.read_table_assignments(key, inline=True)
         self.match_or_err('}', 'expecting inline-table end')
-        epilog = self.read_non_data(False)
-        self.style.set_value_style(key, result, _ValueStyle(prolog=prolog, epilog=epilog, display='inline'))
+        self.style.set_value_style(key, result, _ValueStyle(display='inline'))
         return result
 
     def read_inline_value(self, key: KEY_T) -> Any:
-- 
2.43.0


From f93f79295b8d06e9ede3ea8a0e5811d9dd9e7477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 070/144] fix: comments in empty arrays stay, dotted tables
 that became empty are written in place

---
 pkm/src/pkm/config/toml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 17b5a9e..c51d68d 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -114,6 +114,9 @@ class _StyleSheet:
         if not predefined_style or not predefined_style.value_sig.is_similar_to(value):
             predefined_style = _DEFAULT_VALUE_STYLE
 
+        if predefined_style.display == 'dotted' and not value:
+            predefined_style = _DEFAULT_VALUE_STYLE
+
         if isinstance(value, (Table, Array)):
             predefined_style = _ValueStyle(**value.style)
 
@@ -213,11 +216,11 @@ class _Writer:
             return self._write_value(v, k, s)
 
         result += ', '.join(_write_value(v, i).strip(' ') for i, v in enumerate(data))
-        result += f"{vstyle.content_trailing if data else ''}]{vstyle.epilog}"
+        result += f"{vstyle.content_trailing if data else vstyle.content_trailing.lstrip(',')}]{vstyle.epilog}"
         return result
 
     def _write_table(self, data: Mapping[str, Any], key: KEY_T, vstyle: _ValueStyle) -> str:
-        if vstyle.display == 'regular' or not data and vstyle.display == 'dotted':
+        if vstyle.display == 'regular':
             return self._write_regular_table(data, key, vstyle)
 
         if vstyle.display == 'hidden':
-- 
2.43.0


From da09051423c25fee7aae8d4bdf5b3b8552222948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:41 +0000
Subject: [PATCH 071/144] fix: saving a toml table keeps the order of its
 subtables

---
 pkm/src/pkm/config/toml.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index c51d68d..64c1314 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -3,7 +3,7 @@ from copy import copy
 from dataclasses import dataclass
 from numbers import Number
 from pathlib import Path
-from typing import Optional, Dict, Any, Mapping, List, Tuple, Union, MutableMapping, Callable
+from typing import Optional, Dict, Any, Mapping, List, Tuple, Union, MutableMapping, Callable, Collection
 
 from pkm.utils.parsers import SimpleParser
 
@@ -290,11 +290,14 @@ class _Writer:
         result += self._write_key(key, 0, key_display)
 
         delayed_items: Dict[KEY_T, Any] = {}
+        delayed_styles: Dict[KEY_T, _ValueStyle] = {}
         has_assignments = False
 
         for partial_key, item in data.items():
             item_key = (*key, partial_key)
             item_style = self.style.value_style(item_key, item)
+            if item_style.display == 'inline' and isinstance(item, Mapping) and self._was_moved(item_key, delayed_items):
+                item_style = _ValueStyle(display='regular')  # keeps the order
 
             if item_style.display == 'inline':
                 result += f"{self._write_key(item_key, len(key), 'assignment')}" \
@@ -306,17 +309,26 @@ class _Writer:
                     has_assignments = True
                 else:
                     delayed_items[item_key] = item
+                    delayed_styles[item_key] = item_style
 
         if has_assignments:
             result += '\n'
 
         for item_key, item in delayed_items.items():
-            result += self._write_value(item, item_key, self.style.value_style(item_key, item))
+            result += self._write_value(item, item_key, delayed_styles[item_key])
 
         result += vstyle.epilog
 
         return result
 
+    def _was_moved(self, key: KEY_T, preceding: Collection[KEY_T]) -> bool:
+        """:return: True if the item with the given `key` was not in front of the `preceding` ones when it was read,
+        so that it should not be written there"""
+        known = list(self.style.values) if preceding else []
+        return any(
+            key not in known or it not in known or known.index(key) < known.index(it)
+            for it in preceding)
+
     # noinspection PyUnusedLocal
     def _write_hidden_table(self, data: Mapping[str, Any], key: KEY_T, vstyle: _ValueStyle) -> str:
         result = ''
-- 
2.43.0


From c65a5d12a0cc8b31e5b4281892de10740abab204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:08 +0000
Subject: [PATCH 072/144] fix: toml headers may contain spaces before their
 closing bracket

---
 pkm/src/pkm/config/toml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 64c1314..805e67f 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -529,10 +529,11 @@ class _TomlParser(SimpleParser):
         key = tuple(parts)
 
         if table_key:
+            self.match_ws(False)
             self.match_or_err(']', 'expecting table key termination')
 
         if table_list_key:
-            self.match_ws()
+            self.match_ws(False)
             self.match_or_err(']', 'expecting table list key termination')
 
         if table_key:
-- 
2.43.0


From 79f12fb15252906614e6a64febc25969ef832b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:08 +0000
Subject: [PATCH 073/144] fix: entry points with colons in their names or
 percent signs in their references can be read and written

---
 pkm/src/pkm/config/configfiles.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index 98c1788..3133739 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -37,6 +37,10 @@ class JsonConfigIO(ConfigIO):
 class _CaseSensitiveConfigParser(configparser.ConfigParser):
     optionxform = staticmethod(str)
 
+    def __init__(self):
+        # no section is special, names may contain colons and values are taken as they are
+        super().__init__(delimiters=('=',), default_section='\n', interpolation=None)
+
 
 class INIConfigIO(ConfigIO):
     def write(self, path: Path, data: _RAW_CONFIG_T):
@@ -59,7 +63,7 @@ class INIConfigIO(ConfigIO):
         with path.open("r") as fd:  # cp.read(..) silently ignores files that cannot be read
             cp.read_file(fd)
         for section_name, section_values in cp.items():
-            if section_name and section_name != cp.default_section:
+            if section_name != cp.default_section:
                 data[section_name] = {**section_values}
             else:
                 data.update(section_values)
-- 
2.43.0


From 9d966e2f8d2446e1459c2e8cd0789e9095188beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:08 +0000
Subject: [PATCH 074/144] fix: values of WHEEL files may contain colons

---
 pkm/src/pkm/config/configfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index 3133739..5a8d1d4 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -94,7 +94,7 @@ class WheelFileConfigIO(ConfigIO):
     def read(self, path: Path) -> _RAW_CONFIG_T:
         seperator_rx = re.compile("\\s*:\\s*")
         lines = (line.strip() for line in path.read_text().splitlines())
-        kvs = (seperator_rx.split(kv) for kv in lines if kv)
+        kvs = (seperator_rx.split(kv, 1) for kv in lines if kv)
         return {k: v for k, v in kvs}
 
 
-- 
2.43.0


From d2b9577429217a8e09886a78d52cc9d94ee8b4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:49 +0000
Subject: [PATCH 075/144] fix: toml tables that change their form are written
 without comments in one line, nested dotted keys are kept, 1 and true differ

---
 pkm/src/pkm/config/toml.py | 70 +++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 805e67f..4ba0cda 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -1,9 +1,9 @@
 import re
 from copy import copy
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from numbers import Number
 from pathlib import Path
-from typing import Optional, Dict, Any, Mapping, List, Tuple, Union, MutableMapping, Callable, Collection
+from typing import Optional, Dict, Any, Mapping, List, Tuple, Union, MutableMapping, Callable, Collection, Iterator
 
 from pkm.utils.parsers import SimpleParser
 
@@ -30,7 +30,7 @@ class _ValueSignature:
             # return type(other) == type(self._value)
             return isinstance(other, type(self._value))
 
-        return id(self._value) == id(other) or self._value == other
+        return type(self._value) is type(other) and self._value == other  # true equals 1
 
 
 _none_signature = _ValueSignature(None)
@@ -104,7 +104,7 @@ class _StyleSheet:
             result = copy(result)
             result.display = display
             result.key_str = None  # it was written for the other display
-            if display == 'assignment':
+            if display in ('assignment', 'dotted'):
                 result.epilog = ' '
 
         return result
@@ -115,7 +115,7 @@ class _StyleSheet:
             predefined_style = _DEFAULT_VALUE_STYLE
 
         if predefined_style.display == 'dotted' and not value:
-            predefined_style = _DEFAULT_VALUE_STYLE
+            predefined_style = _ValueStyle(display='inline', prolog=' ')
 
         if isinstance(value, (Table, Array)):
             predefined_style = _ValueStyle(**value.style)
@@ -270,7 +270,7 @@ class _Writer:
 
         result += key_str
         result += key_style.epilog
-        if display != 'assignment':
+        if display not in ('assignment', 'dotted'):
             result += '\n'
 
         return result
@@ -363,40 +363,38 @@ class _Writer:
         return result
 
     def _write_inline_table(self, data: Mapping[str, Any], key: KEY_T, vstyle: _ValueStyle) -> str:
-        result = f"{vstyle.prolog}{{"
-
-        def _write_assignment(partial_key: str, item: Any) -> str:
-            item_key = (*key, partial_key)
-            item_style = self.style.value_style(item_key, item, 'inline')
-
-            return f"{self._write_key(item_key, len(key), 'assignment')}" \
-                   f"={self._write_value(item, item_key, item_style)}"
-
-        result += ', '.join(_write_assignment(k, v) for k, v in data.items())
-        result += f"}}{vstyle.epilog}"
-        return result
+        assignments = self._assignments(data, key, len(key), one_line=True)
+        return f"{vstyle.prolog}{{{', '.join(assignments)}}}{vstyle.epilog}"
 
     def _write_dotted_table(self, data: Mapping[str, Any], key: KEY_T, vstyle: _ValueStyle) -> str:
-        subkey = self._write_key_part(key)
-        result = ""
+        return '\n'.join(self._assignments(data, key, len(key) - 1)) + '\n' + vstyle.epilog
 
-        def _write_assignment(partial_key: str, item: Any) -> str:
+    def _assignments(
+            self, data: Mapping[str, Any], key: KEY_T, offset: int, one_line: bool = False) -> Iterator[str]:
+        """
+        :param data: the table to assign the items of
+        :param key: the key of this table
+        :param offset: the amount of parts of the key that should not be written
+        :param one_line: whether the assignments are written into one line, so that they cannot contain comments
+        :return: iterator over the assignments
+        """
+        for partial_key, item in data.items():
             item_key = (*key, partial_key)
-            key_style = self.style.key_style(item_key)
-            key_str = self._write_key(item_key, len(key), 'assignment')
-            if not key_style.key_str:
-                key_str = f"{subkey}.{key_str}"
-            item_style = self.style.value_style(item_key, item, 'inline')
-            value_str = self._write_value(item, item_key, item_style)
+            if isinstance(item, Mapping) and self.style.value_style(item_key, item).display == 'dotted':
+                yield from self._assignments(item, item_key, offset, one_line)
+                continue
 
-            if isinstance(item, Mapping) and item_style.display == 'dotted':
-                return value_str
-            return f"{key_str}={value_str}"
+            display = 'assignment' if offset == len(key) else 'dotted'
+            key_str = self._write_key(item_key, offset, display)
+            item_style = self.style.value_style(item_key, item, 'inline')
+            if one_line:
+                prolog = self.style.key_style(item_key, display).prolog
+                if '\n' in prolog:
+                    key_str = key_str[len(prolog):]
+                if '#' in item_style.prolog + item_style.epilog:
+                    item_style = replace(item_style, prolog=' ', epilog='')
 
-        result += '\n'.join(_write_assignment(k, v) for k, v in data.items())
-        result += '\n'
-        result += vstyle.epilog
-        return result
+            yield f"{key_str}={self._write_value(item, item_key, item_style)}"
 
     def _write_table_list(self, data: List[Mapping[str, Any]], key: KEY_T, vstyle: _ValueStyle) -> str:
         def _write_table_item(table: Mapping[str, Any], index: int):
@@ -541,7 +539,7 @@ class _TomlParser(SimpleParser):
 
         key_str = self.text[p:self.position]
         epilog = self.read_non_data(False)
-        display = 'assignment'
+        display = 'dotted' if len(key) > 1 else 'assignment'
         if table_key:
             display = 'table'
         if table_list_key:
@@ -743,6 +741,8 @@ class _TomlParser(SimpleParser):
 
     def read(self) -> Dict[str, Any]:
         prolog = self.read_non_data()
+        if prolog and self.is_empty():
+            prolog += '\n'  # there may be data to write after it
         epilog = ''
         data = self._data = self.read_table_assignments(())
 
-- 
2.43.0


From bbfb1d1bc7c6abcb234bc13d9dc69230bc4b98c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:30 +0000
Subject: [PATCH 076/144] fix: wheels can be used in environments with musl
 instead of glibc

---
 pkm/src/pkm/api/environments/environment_introspection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 124eb5a..4280564 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -294,7 +294,7 @@ class EnvironmentIntrospection:
             my_glibc_version = None
             my_musl_version = None
             if (elf := _ElfData.read(Path(self.interpreter_path))) and elf.have_compatible_abi(my_arch):
-                my_glibc_version = self._glibc_version.release[:2]
+                my_glibc_version = self._glibc_version.release[:2] if self._glibc_version else None
                 my_musl_version = elf.compute_musl_version()
 
             def linux_score(plt: str) -> Optional[Tuple]:
@@ -316,7 +316,7 @@ class EnvironmentIntrospection:
                     return None
 
                 if my_musl_version is not None and plt_no_arch.startswith("musllinux_"):
-                    musl_ver = tuple(int(it) for it in plt_no_arch.split("_"))[1:3]
+                    musl_ver = tuple(int(it) for it in plt_no_arch.split("_")[1:3])
                     if len(musl_ver) != 2 or musl_ver[0] != my_musl_version[0] or musl_ver[1] > my_musl_version[1]:
                         return None
                     return (1, *vdscore(my_musl_version, musl_ver))
-- 
2.43.0


From 118074dca5abbb32eb8e8cc74862f94278ca205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:30 +0000
Subject: [PATCH 077/144] fix: the program headers of 32 bit interpreters are
 read with their layout

---
 pkm/src/pkm/api/environments/environment_introspection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 4280564..0121181 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -560,8 +560,8 @@ class _ElfData:
                 fd.seek(ph_offset + i * ph_size)
                 header = _unpack(fd, structs.program_header)
                 if header[0] == _PT_INTERP:
-                    sz = header[5]
-                    fd.seek(header[2])
+                    offset, sz = (header[1], header[4]) if is_32_bit else (header[2], header[5])
+                    fd.seek(offset)
                     interpreter = os.fsdecode(fd.read(sz)).strip("\0")
                     break
 
-- 
2.43.0


From 6a4885a7fe0baaef60650632d95306bb9408932d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:30 +0000
Subject: [PATCH 078/144] fix: the name of the platform says which wheels fit
 only on platforms without own rules

---
 pkm/src/pkm/api/environments/environment_introspection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 0121181..d900e2c 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -343,8 +343,6 @@ class EnvironmentIntrospection:
             # (binary_format or os score , identifying_component_major_score, identifying_component_minor_score)
             if plt == 'any':
                 score_components.extend((0, 0, 0))
-            elif plt == my_platform:
-                score_components.extend((1, 0, 0))
             elif my_platform_type == "Darwin":
                 if (dscore := darwin_score(plt)) is None:
                     return None
@@ -353,6 +351,8 @@ class EnvironmentIntrospection:
                 if (lscore := linux_score(plt)) is None:
                     return None
                 score_components.extend(lscore)
+            elif plt == my_platform:
+                score_components.extend((1, 0, 0))
             else:
                 return None
 
-- 
2.43.0


From 3196032f7ede577a3339fb57dacf9047bc1be5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:30 +0000
Subject: [PATCH 079/144] fix: wheels for macOS are compared by their minor
 version too, versions of one component are understood

---
 pkm/src/pkm/api/environments/environment_introspection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index d900e2c..13ab064 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -262,7 +262,7 @@ class EnvironmentIntrospection:
 
         if my_platform_type == "Darwin":
             my_plat_version_str, _, my_cpu_arch = self._data['platform']['mac_ver']
-            my_plat_version = tuple(int(it) for it in my_plat_version_str.split("."))[:2]
+            my_plat_version = (*(int(it) for it in my_plat_version_str.split(".")), 0)[:2]
             my_arch = _mac_arch(my_cpu_arch, self.is_32bit_interpreter)
             my_plat_supported_binary_formats = _mac_binary_formats(my_plat_version, my_arch)
             if my_plat_version[0] >= 11 and my_arch != "x86_64":
@@ -312,7 +312,7 @@ class EnvironmentIntrospection:
                         glibc_version = legacy_glibc_version or tuple(int(it) for it in plt_no_arch.split("_")[1:3])
                         if len(glibc_version) != 2 or my_glibc_version < glibc_version:
                             return None
-                        return (1, *vdscore(glibc_version, my_glibc_version))
+                        return (1, *vdscore(my_glibc_version, glibc_version))
                     return None
 
                 if my_musl_version is not None and plt_no_arch.startswith("musllinux_"):
@@ -326,7 +326,7 @@ class EnvironmentIntrospection:
         def vdscore(v1: Tuple, v2: Tuple) -> Tuple:
             if v1[0] == v2[0]:
                 return 1, 1 / (1 + abs(v1[1] - v2[1]))
-            return 1 / (1 + abs(v1[0] - v2[0])), 0
+            return 1 / (1 + abs(v1[0] - v2[0])), v2[1]
 
         # precomputation done. now for creating the scorer
 
-- 
2.43.0


From 2d8c98289b615a576be9bcfe75177f4b50585d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:58 +0000
Subject: [PATCH 080/144] fix: names of packages and extras may start with
 digits, the list of extras may be empty

---
 pkm/src/pkm/api/dependencies/dependency.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/dependency.py b/pkm/src/pkm/api/dependencies/dependency.py
index da92f0b..034bc03 100644
--- a/pkm/src/pkm/api/dependencies/dependency.py
+++ b/pkm/src/pkm/api/dependencies/dependency.py
@@ -76,7 +76,8 @@ class PEP508DependencyParser(SimpleParser):
         self.match_or_err('[', 'expecting extras start ([)')
         extras: List[str] = []
 
-        while self.is_not_empty():
+        self.match_ws()
+        while self.is_not_empty() and self.peek() != ']':
             self.match_ws()
             extras.append(self._read_identifier())
             self.match_ws()
@@ -91,7 +92,7 @@ class PEP508DependencyParser(SimpleParser):
         return self.subparser(VersionParser).read_specifier()
 
     def _read_identifier(self) -> str:
-        if (p := self.peek()).isalpha() or p == '_':
+        if (p := self.peek()).isalnum() or p == '_':
             return self.until(lambda i, t: not t[i].isalnum() and t[i] not in '_-.')
         self.raise_err('expecting identifier')
 
-- 
2.43.0


From b7902b60e5a71f2cab28178cbceda83ade973a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:58 +0000
Subject: [PATCH 081/144] fix: package names that differ in runs of separators
 name the same package

---
 pkm/src/pkm/api/packages/package.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index 7e4c57f..70976ba 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -69,7 +69,8 @@ class PackageDescriptor:
 
     @staticmethod
     def package_name_key(package_name: str) -> str:
-        return PackageDescriptor.normalize_src_package_name(package_name).lower()
+        # runs of separators, in whatever mix, are equal to a single one
+        return re.sub('_+', '_', PackageDescriptor.normalize_src_package_name(package_name).lower())
 
     @staticmethod
     def normalize_src_package_name(package_name: str) -> str:
-- 
2.43.0


From 647e2ac2ba8744b11a33290fe1dd7b3e77056739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:58 +0000
Subject: [PATCH 082/144] fix: versions in requirements are not case sensitive,
 urls are

---
 pkm/src/pkm/api/versions/version.py        |  7 ++++---
 pkm/src/pkm/api/versions/version_parser.py | 21 +++++++++++++--------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 2b4e351..e3968f3 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -74,9 +74,10 @@ class UrlVersion(Version):
 
     @classmethod
     def parse(cls, txt: str) -> UrlVersion:
-        match = VERSION_URL_RX.match(txt.lower())
+        match = VERSION_URL_RX.match(txt)
         parsed_url = Url.parse(match.group('url'))
-        return cls(match.group('url'), match.group('repo'), parsed_url.scheme)
+        repo = match.group('repo')
+        return cls(match.group('url'), repo and repo.lower(), parsed_url.scheme)
 
 
 @dataclass(frozen=True)
@@ -251,7 +252,7 @@ class StandardVersion(Version):
     @classmethod
     def parse(cls, txt: str) -> "StandardVersion":
         from pkm.api.versions.version_parser import VersionParser
-        return VersionParser(txt.lower()).read_version()
+        return VersionParser(txt).read_version()
 
 
 def _less(v1: Version, v2: Version) -> bool:
diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index cbef69c..8474c75 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -1,6 +1,6 @@
 from dataclasses import replace
 from pathlib import Path
-from typing import List
+from typing import List, Optional
 
 from pkm.api.versions.version import Version, NamedVersion, StandardVersion, UrlVersion
 from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions, VersionMatch
@@ -9,18 +9,17 @@ from pkm.utils.parsers import SimpleParser
 
 def parse_version(version_str: str) -> Version:
     try:
-        lowered_vstr = version_str.lower()
-        if '://' in lowered_vstr:
-            return UrlVersion.parse(lowered_vstr)
+        if '://' in version_str:
+            return UrlVersion.parse(version_str)
 
-        return VersionParser(lowered_vstr).read_version()
+        return VersionParser(version_str).read_version()
     except ValueError:
         ...
     return NamedVersion(version_str)
 
 
 def parse_specifier(specifier_str: str) -> VersionSpecifier:
-    return VersionParser(specifier_str.lower()).read_specifier()
+    return VersionParser(specifier_str).read_specifier()
 
 
 _PRE_RELEASE_TYPE_NORMALIZER = {
@@ -31,6 +30,12 @@ _PRE_RELEASE_TYPE_NORMALIZER = {
 
 class VersionParser(SimpleParser):
 
+    def match(self, *substrs: str) -> Optional[str]:
+        # versions are not case-sensitive (urls, that are, are not read by matching)
+        if len(substrs) == 1 and self.peek(len(substrs[0])).lower() == substrs[0]:
+            return self.next(len(substrs[0]))
+        return super().match(*substrs)
+
     def read_version(self) -> StandardVersion:
         self.match_ws()
 
@@ -63,7 +68,7 @@ class VersionParser(SimpleParser):
 
         post_release = None
 
-        if (prev := self.peek_prev()).isdigit() or prev in _PRE_RELEASE_TYPE_NORMALIZER:
+        if (prev := self.peek_prev()).isdigit() or prev.lower() in _PRE_RELEASE_TYPE_NORMALIZER:
             self.match_any('.', '-', '_')
         if self.match_any('post', 'rev', 'r') or (self.peek_prev() == '-' and self.peek().isdigit()):
             self.match_any('.', '-', '_')
@@ -79,7 +84,7 @@ class VersionParser(SimpleParser):
         local_label = None
         if self.match('+'):
             local_label = self.until(lambda i, s: s[i] not in ".-_" and not s[i].isalnum())
-            local_label = local_label.translate(local_label.maketrans('-_', '..'))
+            local_label = local_label.lower().translate(local_label.maketrans('-_', '..'))
 
         if self.peek_prev() == '.':
             self.position -= 1
-- 
2.43.0


From 9e407b2681b76b9494da8a0802d7a1d28eec92a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 083/144] fix: urls of packages may hold a user and a password

---
 pkm/src/pkm/api/versions/version.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index e3968f3..b3d9652 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -2,10 +2,10 @@ from __future__ import annotations
 from abc import ABC, abstractmethod
 from dataclasses import dataclass, replace
 from typing import Tuple, Optional, Literal
+from urllib.parse import urlsplit
 import re
 
 from pkm.utils.commons import UnsupportedOperationException
-from pkm.utils.http.http_client import Url
 
 VERSION_URL_RX = re.compile(r"((?P<repo>\w+)\+)?(?P<url>.*)")
 
@@ -75,9 +75,8 @@ class UrlVersion(Version):
     @classmethod
     def parse(cls, txt: str) -> UrlVersion:
         match = VERSION_URL_RX.match(txt)
-        parsed_url = Url.parse(match.group('url'))
         repo = match.group('repo')
-        return cls(match.group('url'), repo and repo.lower(), parsed_url.scheme)
+        return cls(match.group('url'), repo and repo.lower(), urlsplit(match.group('url')).scheme)
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From 9c3c6913bf9f0a940f1f87e81c7e5a55fb76ac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 084/144] fix: names that only start like a version are not
 taken for that version

---
 pkm/src/pkm/api/versions/version_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index 8474c75..d127fd6 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -12,7 +12,10 @@ def parse_version(version_str: str) -> Version:
         if '://' in version_str:
             return UrlVersion.parse(version_str)
 
-        return VersionParser(version_str).read_version()
+        parser = VersionParser(version_str)
+        version = parser.read_version()
+        if parser.is_empty():
+            return version
     except ValueError:
         ...
     return NamedVersion(version_str)
-- 
2.43.0


From 18b4e834e15ff22afd6bfe4b4da4d49a002f5555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 085/144] fix: arbitrary equality (===) finds the version it
 names and ends before the environment marker

---
 pkm/src/pkm/api/versions/version_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index d127fd6..1e39ee4 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -120,8 +120,8 @@ class VersionParser(SimpleParser):
 
         if self.match('==='):
             self.match_ws()
-            version_str = self.until(lambda i, t: t[i].isspace() or t[i] == ',')
-            return VersionMatch(NamedVersion(version_str))
+            version_str = self.until(lambda i, t: t[i].isspace() or t[i] in ',;)')
+            return VersionMatch(parse_version(version_str))
 
         exclusion_inclusion = self.match_any('==', '!=')
         if exclusion_inclusion:
-- 
2.43.0


From f3b0096e947c919a78139ce3615ef38d58571e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 086/144] fix: the marker of a printed url requirement is not a
 part of its url

---
 pkm/src/pkm/api/dependencies/dependency.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/dependencies/dependency.py b/pkm/src/pkm/api/dependencies/dependency.py
index 034bc03..6903957 100644
--- a/pkm/src/pkm/api/dependencies/dependency.py
+++ b/pkm/src/pkm/api/dependencies/dependency.py
@@ -58,7 +58,9 @@ class Dependency:
 
         version_str = "" if self.version_spec is AllowAllVersions else f" {str(self.version_spec)}"
 
-        marker_str = f";{self.env_marker}" if self.env_marker else ''
+        # without the space, the marker would be a part of the url
+        marker_sep = " ;" if self.required_url() else ";"
+        marker_str = f"{marker_sep}{self.env_marker}" if self.env_marker else ''
 
         return f"{self.package_name}{extras_str}{version_str}{marker_str}"
 
-- 
2.43.0


From 9da30212423e4cd3b6e5a86f4dd98366377e4756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 087/144] fix: markers compare texts that are not versions as
 texts, and know ===

---
 pkm/src/pkm/api/dependencies/env_markers.py | 22 +++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index 8c98a18..7a9812a 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -1,7 +1,7 @@
 from typing import Callable, Optional, List, Sequence, TYPE_CHECKING
 
-from pkm.api.versions.version import Version
-from pkm.api.versions.version_specifiers import VersionSpecifier
+from pkm.api.versions.version import Version, StandardVersion
+from pkm.api.versions.version_parser import VersionParser
 from pkm.utils.parsers import SimpleParser
 
 _EXTRAS_COLLECTION_T = List
@@ -36,6 +36,15 @@ _MARKER_STR_CHARS = set(
     ' \t0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIZKLMNOPQRSTUVWXYZ().{}-_*#:;,/?[]!`~@$%^&=+|<>')
 
 
+def _compare_versions(a: str, op: str, b: str) -> bool:
+    a_ver = Version.parse(a)
+    spec_parser = VersionParser(f"{op} {b}")
+    spec = spec_parser.read_specifier()
+    if not isinstance(a_ver, StandardVersion) or not spec_parser.is_empty():
+        raise ValueError(f"not a comparison of versions: {a} {op} {b}")
+    return spec.allows_version(a_ver)
+
+
 class PEP508EnvMarkerParser(SimpleParser):
 
     def _read_identifier(self) -> str:
@@ -64,7 +73,7 @@ class PEP508EnvMarkerParser(SimpleParser):
             return lambda e, x: e.markers[v_ident]
 
     def _read_marker_op(self) -> _MARKER_OP_T:
-        version_or_string_op = self.match_any("<=", "<", ">=", ">", "!=", "==", "===", "~=")
+        version_or_string_op = self.match_any("<=", "<", ">=", ">", "!=", "===", "==", "~=")
         if version_or_string_op:
             def _op(a: Sequence[str], b: Sequence[str]) -> bool:
 
@@ -74,10 +83,11 @@ class PEP508EnvMarkerParser(SimpleParser):
                     elif isinstance(b, _EXTRAS_COLLECTION_T):
                         return a in b
 
+                if version_or_string_op == '===':
+                    return str(a) == str(b)
+
                 try:
-                    a_ver = Version.parse(str(a))
-                    spec = VersionSpecifier.parse(f"{version_or_string_op} {b}")
-                    return spec.allows_version(a_ver)
+                    return _compare_versions(str(a), version_or_string_op, str(b))
                 except ValueError:
                     if version_or_string_op == '~=':
                         raise
-- 
2.43.0


From 5b696622916e5789507289c5e37e30816cfc37ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 088/144] fix: the strings of environment markers may hold a J

---
 pkm/src/pkm/api/dependencies/env_markers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index 7a9812a..eb4df33 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -33,7 +33,7 @@ class EnvironmentMarker:
 
 
 _MARKER_STR_CHARS = set(
-    ' \t0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIZKLMNOPQRSTUVWXYZ().{}-_*#:;,/?[]!`~@$%^&=+|<>')
+    ' \t0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ().{}-_*#:;,/?[]!`~@$%^&=+|<>')
 
 
 def _compare_versions(a: str, op: str, b: str) -> bool:
-- 
2.43.0


From 181456ce71a2b145296766fd75922485153d0989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 089/144] fix: requirements that exclude versions in the
 middle, or all, are written in a form that can be read

---
 pkm/src/pkm/api/dependencies/dependency.py    |  2 +-
 .../pkm/api/versions/version_specifiers.py    | 76 ++++++++++++++++++-
 2 files changed, 76 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/dependency.py b/pkm/src/pkm/api/dependencies/dependency.py
index 6903957..a157ac5 100644
--- a/pkm/src/pkm/api/dependencies/dependency.py
+++ b/pkm/src/pkm/api/dependencies/dependency.py
@@ -56,7 +56,7 @@ class Dependency:
     def __str__(self):
         extras_str = f"[{','.join(self.extras)}]" if self.extras else ''
 
-        version_str = "" if self.version_spec is AllowAllVersions else f" {str(self.version_spec)}"
+        version_str = "" if self.version_spec is AllowAllVersions else f" {self.version_spec.to_pep440()}"
 
         # without the space, the marker would be a part of the url
         marker_sep = " ;" if self.required_url() else ";"
diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 27993b3..4c334b1 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 from abc import abstractmethod, ABC
 from dataclasses import dataclass
-from typing import List, Optional, Set
+from typing import List, Optional, Set, Tuple
 
 from pkm.api.versions.version import Version, StandardVersion, UrlVersion
 from pkm.utils.commons import UnsupportedOperationException
@@ -49,6 +49,12 @@ class VersionSpecifier(ABC):
     def __str__(self) -> str:
         ...
 
+    def to_pep440(self) -> str:
+        """
+        :return: text that means this specifier wherever pep440 specifiers are expected (in requirements, for example)
+        """
+        return str(self)
+
     @abstractmethod
     def __lt__(self, other: VersionSpecifier) -> VersionSpecifier:
         ...
@@ -116,6 +122,9 @@ class _RestrictAll(VersionSpecifier):
     def __str__(self):
         return "<none>"
 
+    def to_pep440(self) -> str:
+        return "<0, >0"
+
     def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
         return other
 
@@ -206,6 +215,32 @@ class VersionsUnion(VersionSpecifier):
                     return f"!={s1.max}"
         return seq(segs).str_join('; ')
 
+    def to_pep440(self) -> str:
+        # there is no "or" in pep440: write the range from the first segment to the last, and what is missing in between
+        ranges: List[_Bounds] = []
+        exclusions: List[str] = []
+        for segment in self.segments:
+            if isinstance(segment, HetroVersionIntersection):
+                exclusions.extend(f"!={it}" for it in segment.blacklist)
+                segment = segment.standard_spec
+
+            if isinstance(segment, StandardVersionRange):
+                ranges.append((segment.min, segment.max, segment.includes_min, segment.includes_max))
+            elif isinstance(segment, VersionMatch) and segment.allow and isinstance(segment.version, StandardVersion):
+                ranges.append((segment.version, segment.version, True, True))
+            else:
+                return str(self)
+
+        for before, after in zip(ranges, ranges[1:]):
+            if (gap := _gap_to_pep440(before, after)) is None:
+                return str(self)
+            exclusions.extend(gap)
+
+        (min_, _, includes_min, _), (_, max_, _, includes_max) = ranges[0], ranges[-1]
+        if min_ or max_:
+            exclusions.insert(0, str(StandardVersionRange(min_, max_, includes_min, includes_max)))
+        return ', '.join(exclusions)
+
     def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_AllowAll, _RestrictAll)):
             return other.union_with(self)
@@ -240,6 +275,45 @@ class VersionsUnion(VersionSpecifier):
         return result
 
 
+# min, max, includes min, includes max
+_Bounds = Tuple[Optional[StandardVersion], Optional[StandardVersion], bool, bool]
+
+
+def _gap_to_pep440(before: _Bounds, after: _Bounds) -> Optional[List[str]]:
+    """
+    :return: the exclusions that together exclude exactly the versions between the given bounds, None if there are none
+    """
+    (_, start, _, includes_start), (end, _, includes_end, _) = before, after
+    if start is None or end is None or includes_start:
+        return None
+
+    first = start
+    result: List[str] = []
+    while start != end:
+        # the prefix that excludes the most
+        release, length = start.release, len(start.release)
+        while length > 1 and release[length - 1] == 0:
+            length -= 1
+
+        for length in range(length, max(length, len(end.release)) + 1):
+            prefix = (*release, *([0] * length))[:length]
+            start = StandardVersion(prefix, first.epoch)
+            next_start = StandardVersion((*prefix[:-1], prefix[-1] + 1), first.epoch)
+            if not end < next_start:
+                break
+        else:
+            return None
+
+        result.append(f"!={start}.*")
+        if len(result) > 1000 or (len(result) == 1 and start != first):
+            return None
+        start = next_start
+
+    if not includes_end:
+        result.append(f"!={end}")
+    return result
+
+
 @dataclass
 class HetroVersionIntersection(VersionSpecifier):
     blacklist: Set[Version]
-- 
2.43.0


From 4d862e9c3810a3b5554ba7641e45feda0e421896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:47 +0000
Subject: [PATCH 090/144] fix: required python versions with exclusions are
 written in a form that can be read

---
 pkm/src/pkm/config/configclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/configclass.py b/pkm/src/pkm/config/configclass.py
index 39b3f94..bf5def8 100644
--- a/pkm/src/pkm/config/configclass.py
+++ b/pkm/src/pkm/config/configclass.py
@@ -219,7 +219,7 @@ def _common_codecs() -> Dict[Type, ConfigFieldCodec]:
     _COMMON_CODECS = {
         str: _IDFieldCodec, int: _IDFieldCodec, bool: _IDFieldCodec, dict: _DictFieldCodec(), list: _ListFieldCodec(),
         Path: StringableFieldCodec, Version: _ParsableFieldCodec, Dependency: _ParsableFieldCodec,
-        VersionSpecifier: _ParsableFieldCodec, Any: _IDFieldCodec,
+        VersionSpecifier: config_field_codec(VersionSpecifier.parse, lambda v: v.to_pep440()), Any: _IDFieldCodec,
         PackageDescriptor: config_field_codec(PackageDescriptor.read, lambda v: v.write())}
 
     _common_codecs = lambda: _COMMON_CODECS  # noqa
-- 
2.43.0


From b4daad75ce4febc0024fc8932c44ec1b8abbb2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 091/144] fix: repositories that do not know a package have
 nothing to offer, the ones after them are asked

---
 pkm/src/pkm/repositories/pypi_repository.py   | 2 ++
 pkm/src/pkm/repositories/simple_repository.py | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index 6577c9f..aed3e77 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -51,6 +51,8 @@ class PyPiRepository(AbstractRepository, Serializable):
                                 resource_name=f"matching packages for {dependency}") \
                 .read_data_as_json()
         except HttpException as e:
+            if e.response and e.response.status in (404, 410):
+                return []  # this repository does not know the package
             raise InstallationException(
                 f"package: '{dependency.package_name}' could not be retrieved from repository: '{self.name}'") from e
 
diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index e704b85..632f1bb 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -12,7 +12,7 @@ from pkm.api.repositories.repository import Repository, RepositoryBuilder, Abstr
 from pkm.api.versions.version import Version
 from pkm.api.versions.version_specifiers import VersionSpecifier
 from pkm.utils.http.cache_directive import CacheDirective
-from pkm.utils.http.http_client import Url
+from pkm.utils.http.http_client import Url, HttpException
 from pkm.utils.types import Serializable
 from pkm.utils.iterators import groupby
 from pkm.utils.strings import endswith_any, without_suffix
@@ -32,7 +32,12 @@ class SimpleRepository(AbstractRepository):
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         # monitor.on_dependency_match(dependency)
         if not (version_to_package := self._packages.get(dependency.package_name)):
-            data = pkm.httpclient.fetch_resource(f"{self._url}/{dependency.package_name}").data
+            try:
+                data = pkm.httpclient.fetch_resource(f"{self._url}/{dependency.package_name}").data
+            except HttpException as e:
+                if e.response and e.response.status in (404, 410):
+                    return []  # this repository does not know the package
+                raise
             extractor = _HtmlArtifactsExtractor(self._base_url)
             extractor.feed(data.read_text())
 
-- 
2.43.0


From 71864aa8b4743a68171436831e38c4b30ffa8ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 092/144] fix: pages of simple repositories are asked for as
 PEP 503 says, and their links are relative to them

---
 pkm/src/pkm/repositories/simple_repository.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index 632f1bb..7ea4dfb 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -1,6 +1,7 @@
 from html.parser import HTMLParser
 from pathlib import Path
 from typing import List, Union, Tuple, Dict, Optional, Callable
+from urllib.parse import urljoin
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.wheel_distribution import InstallationException
@@ -26,19 +27,21 @@ class SimpleRepository(AbstractRepository):
     def __init__(self, name: str, url: str):
         super().__init__(name)
         self._url = url
-        self._base_url = Url.parse(url).connection_part()
         self._packages: Dict[str, Dict[str, Package]] = {}  # name -> version -> package
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         # monitor.on_dependency_match(dependency)
         if not (version_to_package := self._packages.get(dependency.package_name)):
+            normalized_name = dependency.package_name_key.replace('_', '-')
+            page_url = f"{self._url}/{normalized_name}/"
+
             try:
-                data = pkm.httpclient.fetch_resource(f"{self._url}/{dependency.package_name}").data
+                data = pkm.httpclient.fetch_resource(page_url).data
             except HttpException as e:
                 if e.response and e.response.status in (404, 410):
                     return []  # this repository does not know the package
                 raise
-            extractor = _HtmlArtifactsExtractor(self._base_url)
+            extractor = _HtmlArtifactsExtractor(page_url)
             extractor.feed(data.read_text())
 
             all_artifacts = extractor.artifacts
@@ -71,11 +74,11 @@ def _extract_version(filename: str) -> str:
 
 class _HtmlArtifactsExtractor(HTMLParser):
 
-    def __init__(self, base_url: str, *, convert_charrefs: bool = ...) -> None:
+    def __init__(self, page_url: str, *, convert_charrefs: bool = ...) -> None:
         super().__init__(convert_charrefs=convert_charrefs)
         self._text_handler: Optional[Callable[[str], None]] = None
         self.artifacts: List[PackageArtifact] = []
-        self._base_url = base_url
+        self._page_url = page_url
 
     def handle_data(self, data: str) -> None:
         if self._text_handler:
@@ -96,9 +99,7 @@ class _HtmlArtifactsExtractor(HTMLParser):
             if requires_python_str := attrs.get('data-requires-python'):
                 requires_python = VersionSpecifier.parse(requires_python_str)
 
-            url = attrs.get('href')
-            if not url.startswith('http'):
-                url = f"{self._base_url}/{url.lstrip('/')}"
+            url = urljoin(self._page_url, attrs.get('href'))
 
             if endswith_any(text, _DISTRIBUTION_EXTENSIONS):
                 self.artifacts.append(PackageArtifact(text, requires_python, {'url': url}))
-- 
2.43.0


From c3270967713912189a736d1618d7304f3f6600f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 093/144] fix: the pages of simple repositories are not taken
 from the cache forever

---
 pkm/src/pkm/repositories/simple_repository.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index 7ea4dfb..bd5cbc3 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -31,12 +31,12 @@ class SimpleRepository(AbstractRepository):
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         # monitor.on_dependency_match(dependency)
-        if not (version_to_package := self._packages.get(dependency.package_name)):
+        if not (version_to_package := self._packages.get(dependency.package_name_key)):
             normalized_name = dependency.package_name_key.replace('_', '-')
             page_url = f"{self._url}/{normalized_name}/"
 
             try:
-                data = pkm.httpclient.fetch_resource(page_url).data
+                data = pkm.httpclient.fetch_resource(page_url, CacheDirective.ask_for_update()).data
             except HttpException as e:
                 if e.response and e.response.status in (404, 410):
                     return []  # this repository does not know the package
@@ -55,7 +55,7 @@ class SimpleRepository(AbstractRepository):
 
                 for version_str, version_artifacts in grouped_by_version.items()
             }
-            self._packages[dependency.package_name] = version_to_package
+            self._packages[dependency.package_name_key] = version_to_package
 
         packages = [p for p in version_to_package.values() if dependency.version_spec.allows_version(p.version)]
         return self._sorted_by_version(packages)
-- 
2.43.0


From 7b6f7c06d42d19d1b2e4f339d30dbc24f2ad2a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 094/144] fix: simple repositories do not offer files that were
 yanked

---
 pkm/src/pkm/repositories/simple_repository.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index bd5cbc3..bd1bdc8 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -90,11 +90,11 @@ class _HtmlArtifactsExtractor(HTMLParser):
 
     def handle_starttag(self, tag: str, attrs: List[Tuple[str, Union[str, None]]]) -> None:
         self._text_handler = \
-            lambda txt: self.handle_element(tag, {kv[0]: kv[1] for kv in attrs if kv[1] is not None}, txt)
+            lambda txt: self.handle_element(tag, {kv[0]: kv[1] or '' for kv in attrs}, txt)
 
     def handle_element(self, tag: str, attrs: Dict[str, str], text: str):
         self._text_handler = None
-        if tag == 'a' and 'href' in attrs:
+        if tag == 'a' and attrs.get('href') and 'data-yanked' not in attrs:
             requires_python = None
             if requires_python_str := attrs.get('data-requires-python'):
                 requires_python = VersionSpecifier.parse(requires_python_str)
-- 
2.43.0


From d2470cfdd588465c82077a9e8796f344517902bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 095/144] fix: names of files in simple repositories may be
 surrounded by white space

---
 pkm/src/pkm/repositories/simple_repository.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index bd1bdc8..53b3633 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -94,6 +94,7 @@ class _HtmlArtifactsExtractor(HTMLParser):
 
     def handle_element(self, tag: str, attrs: Dict[str, str], text: str):
         self._text_handler = None
+        text = text.strip()
         if tag == 'a' and attrs.get('href') and 'data-yanked' not in attrs:
             requires_python = None
             if requires_python_str := attrs.get('data-requires-python'):
-- 
2.43.0


From b7030a5e7a9a272f4aaff80413c430bc26bc8430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 096/144] fix: a file whose python requirements cannot be read
 does not hide the others

---
 pkm/src/pkm/repositories/pypi_repository.py   | 9 ++++++---
 pkm/src/pkm/repositories/simple_repository.py | 5 ++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index aed3e77..e173c99 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -134,9 +134,12 @@ def _create_artifact_from_pypi_release(release: Dict[str, Any]) -> Optional[Pack
     if not file_name:
         return None
 
-    return PackageArtifact(
-        file_name, VersionSpecifier.parse(requires_python) if requires_python else None, release
-    )
+    try:
+        return PackageArtifact(
+            file_name, VersionSpecifier.parse(requires_python) if requires_python else None, release
+        )
+    except ValueError:  # its python requirements cannot be read
+        return None
 
 
 # https://warehouse.pypa.io/api-reference/legacy.html
diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index 53b3633..6914dc4 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -98,7 +98,10 @@ class _HtmlArtifactsExtractor(HTMLParser):
         if tag == 'a' and attrs.get('href') and 'data-yanked' not in attrs:
             requires_python = None
             if requires_python_str := attrs.get('data-requires-python'):
-                requires_python = VersionSpecifier.parse(requires_python_str)
+                try:
+                    requires_python = VersionSpecifier.parse(requires_python_str)
+                except ValueError:
+                    return
 
             url = urljoin(self._page_url, attrs.get('href'))
 
-- 
2.43.0


From cd41364bf5edbdf05332c386f7c012226a218850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 097/144] fix: files of indexes may have no digests, or digests
 that cannot be computed

---
 pkm/src/pkm/repositories/pypi_repository.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index e173c99..c482942 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -104,10 +104,10 @@ class PypiPackage(AbstractPackage, Serializable):
             raise FileNotFoundError(f'cannot find requested artifact: {artifact.file_name}')
 
         # validate package hash if available
-        if digests := artifact.other_info['digests']:
+        if digests := artifact.other_info.get('digests'):
             hash_function = 'sha256'
             if hash_function not in digests:
-                hash_function = first_or_none(digests.keys())
+                hash_function = first_or_none(it for it in digests.keys() if it in hashlib.algorithms_available)
 
             if hash_function is not None and not resource.is_hash_valid(hash_function, digests[hash_function]):
                 raise InstallationException(f"invalid hash for resource downloaded from {url}")
-- 
2.43.0


From b4a1718b4bfeea5c487d7e94e53e662aacff95b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 098/144] fix: source distributions in directories are known by
 their name and version

---
 pkm/src/pkm/api/packages/package.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index 70976ba..a9cf5ed 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -104,9 +104,12 @@ class PackageDescriptor:
         :param name: the file name
         :return: the resulted package descriptor
         """
-        parts = name.split("-")
-        version = Version.parse(parts[1])
-        return PackageDescriptor(parts[0], version)
+        if name.endswith('.whl'):
+            package_name, version = name.split("-")[:2]
+        else:
+            package_name, _, version = re.sub(r'(\.tar\.\w+|\.tgz|\.zip)$', '', name).rpartition("-")
+
+        return PackageDescriptor(package_name, Version.parse(version))
 
 
 class Package(ABC):
-- 
2.43.0


From c145a224425f40abda1373759b0ae19a813a85d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 099/144] fix: a file that was received with a wrong content is
 received again

---
 pkm/src/pkm/repositories/pypi_repository.py   | 13 +++++++------
 pkm/src/pkm/repositories/simple_repository.py | 12 +++++++-----
 pkm/src/pkm/utils/http/http_client.py         | 15 +++++++++++++++
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index c482942..08cccbf 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -99,9 +99,7 @@ class PypiPackage(AbstractPackage, Serializable):
         if not url:
             raise KeyError(f'could not find url in given artifact info: {artifact}')
 
-        resource = self._repo._http.fetch_resource(url, resource_name=f"{self.name} {self.version}")
-        if not resource:
-            raise FileNotFoundError(f'cannot find requested artifact: {artifact.file_name}')
+        resource_name = f"{self.name} {self.version}"
 
         # validate package hash if available
         if digests := artifact.other_info.get('digests'):
@@ -109,10 +107,13 @@ class PypiPackage(AbstractPackage, Serializable):
             if hash_function not in digests:
                 hash_function = first_or_none(it for it in digests.keys() if it in hashlib.algorithms_available)
 
-            if hash_function is not None and not resource.is_hash_valid(hash_function, digests[hash_function]):
-                raise InstallationException(f"invalid hash for resource downloaded from {url}")
+            if hash_function is not None:
+                if not (resource := self._repo._http.fetch_verified_resource(
+                        url, hash_function, digests[hash_function], resource_name)):
+                    raise InstallationException(f"invalid hash for resource downloaded from {url}")
+                return resource.data
 
-        return resource.data
+        return self._repo._http.fetch_resource(url, resource_name=resource_name).data
 
     def _unfiltered_dependencies(self, environment: Environment) -> List["Dependency"]:
         json: Dict[str, Any] = self._repo._http \
diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index 6914dc4..e904317 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -122,16 +122,18 @@ class _SimplePackage(AbstractPackage, Serializable):
 
     def _retrieve_artifact(self, artifact: PackageArtifact) -> Path:
         url = artifact.other_info['url']
-        resource = pkm.httpclient.fetch_resource(url, CacheDirective.allways(),
-                                                 resource_name=f"{self.name} {self.version}")
+        resource_name = f"{self.name} {self.version}"
 
         fragment = Url.parse(url).fragment
         if fragment:
             hash_function, _, hash_value = fragment.partition("=")
-            if hash_function and hash_value and not resource.is_hash_valid(hash_function, hash_value):
-                raise InstallationException(f"Invalid hash for a resource received from {url}")
+            if hash_function and hash_value:
+                if not (resource := pkm.httpclient.fetch_verified_resource(
+                        url, hash_function, hash_value, resource_name)):
+                    raise InstallationException(f"Invalid hash for a resource received from {url}")
+                return resource.data
 
-        return resource.data
+        return pkm.httpclient.fetch_resource(url, CacheDirective.allways(), resource_name=resource_name).data
 
 
 class SimpleRepositoryBuilder(RepositoryBuilder):
diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 87b9832..3712084 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -486,6 +486,21 @@ class HttpClient:
 
             return promise.result()
 
+    def fetch_verified_resource(
+            self, url: str, hash_function: str, hash_hex_value: str, resource_name: Optional[str] = None
+    ) -> Optional[FetchedResource]:
+        """
+        fetch a resource whose content is known by its hash, a cached content that is not the expected one is replaced
+        :return: the fetched resource or None if the content that is served has a different hash
+        """
+        for _ in range(2):
+            resource = self.fetch_resource(url, resource_name=resource_name)
+            if resource.is_hash_valid(hash_function, hash_hex_value):
+                return resource
+            resource.delete()
+
+        return None
+
     def clear_resources(self):
         shutil.rmtree(self.workspace)
         self.workspace.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From b61b9627c4e4eb570185c783183664b4525d4c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:05 +0000
Subject: [PATCH 100/144] fix: the configuration of environments is written the
 way python reads it

---
 pkm/src/pkm/api/environments/environment_builder.py |  6 ++----
 pkm/src/pkm/config/configfiles.py                   | 13 +++++++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_builder.py b/pkm/src/pkm/api/environments/environment_builder.py
index e821235..e386473 100644
--- a/pkm/src/pkm/api/environments/environment_builder.py
+++ b/pkm/src/pkm/api/environments/environment_builder.py
@@ -1,4 +1,3 @@
-import re
 import shutil
 import sys
 from dataclasses import dataclass
@@ -11,11 +10,10 @@ from pkm.api.pkm import pkm
 from pkm.api.versions.version import Version
 from pkm.api.versions.version_specifiers import VersionSpecifier
 from pkm.config.configclass import ConfigFile, config, config_field
-from pkm.config.configfiles import WheelFileConfigIO
+from pkm.config.configfiles import PyVEnvConfigIO
 from pkm.utils.commons import NoSuchElementException
 
 _INTERPRETER_INTROSPECTIONS: Dict[str, EnvironmentIntrospection] = {}
-_PYVENV_SEP_RX = re.compile("\\s*=\\s*")
 
 
 class EnvironmentBuilder:
@@ -113,7 +111,7 @@ def _introspection_for(interpreter_path: Path) -> EnvironmentIntrospection:
 
 
 @dataclass
-@config(io=WheelFileConfigIO())
+@config(io=PyVEnvConfigIO())
 class PyVEnvConfiguration(ConfigFile):
     home: Path
     version: Version
diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index 5a8d1d4..33b38fe 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -98,6 +98,19 @@ class WheelFileConfigIO(ConfigIO):
         return {k: v for k, v in kvs}
 
 
+class PyVEnvConfigIO(WheelFileConfigIO):
+    """
+    io for `pyvenv.cfg` files: lines that look like `key = value`
+    """
+
+    def write(self, path: Path, data: _RAW_CONFIG_T):
+        path.write_text(''.join(f'{k} = {v}\n' for k, v in data.items()))
+
+    def read(self, path: Path) -> _RAW_CONFIG_T:
+        kvs = (line.partition('=') for line in path.read_text().splitlines())
+        return {k.strip(): v.strip() for k, sep, v in kvs if sep}
+
+
 class CSVConfigIO(ConfigIO):
 
     def __init__(self, *headers: str, codec: ConfigCodec = None):
-- 
2.43.0


From 30133c0d77862c5ad8a467c50d28ead5a5869f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:53 +0000
Subject: [PATCH 101/144] fix: programs named python that do not run, or say
 something else, do not hide the interpreters

---
 pkm/src/pkm/api/environments/installed_pythons_locator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/environments/installed_pythons_locator.py b/pkm/src/pkm/api/environments/installed_pythons_locator.py
index 19167da..1da0e5d 100644
--- a/pkm/src/pkm/api/environments/installed_pythons_locator.py
+++ b/pkm/src/pkm/api/environments/installed_pythons_locator.py
@@ -53,7 +53,7 @@ class InstalledPythonsLocator:
                     executable,
                     PackageDescriptor("python", Version.parse(version_str.strip()))))
 
-            except (ChildProcessError, CalledProcessError):
+            except (OSError, ValueError, CalledProcessError):
                 # import traceback
                 # traceback.print_exc()
                 pass  # skip this interpreter
@@ -106,7 +106,7 @@ def _lookup_in_path(path: Path):
 
 
 def _lookup_in_env_path() -> Set[Path]:
-    path_parts = [path for it in (os.environ.get("PATH") or "").split(os.pathsep) if (path := Path(it)).exists()]
+    path_parts = [path for it in (os.environ.get("PATH") or "").split(os.pathsep) if (path := Path(it)).is_dir()]
 
     return {
         executable
-- 
2.43.0


From 17dd189a1de8bb26ec5a15edce8d0b9401b4580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:53 +0000
Subject: [PATCH 102/144] fix: processes may print anything

---
 pkm/src/pkm/utils/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/processes.py b/pkm/src/pkm/utils/processes.py
index 26063e4..08749ac 100644
--- a/pkm/src/pkm/utils/processes.py
+++ b/pkm/src/pkm/utils/processes.py
@@ -29,7 +29,7 @@ def monitored_run(execution_name: str, cmd: List[str], **subprocess_run_kwargs)
         def decode(line):  # noqa
             nonlocal decode
             if hasattr(line, 'decode'):
-                decode = lambda line: line.decode()  # noqa
+                decode = lambda line: line.decode(errors='replace')  # noqa
             else:
                 decode = lambda line: line  # noqa
 
-- 
2.43.0


From c98b8759ca16171d723aff691f9e214652478831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:53 +0000
Subject: [PATCH 103/144] fix: processes that are given no variables get none

---
 pkm/src/pkm/api/environments/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environment.py b/pkm/src/pkm/api/environments/environment.py
index 3997669..3342c97 100644
--- a/pkm/src/pkm/api/environments/environment.py
+++ b/pkm/src/pkm/api/environments/environment.py
@@ -219,7 +219,7 @@ class Environment(HasAttachedRepository, Serializable):
         :return: a `CompletedProcess` instance describing the completion of the requested process
         """
         env = {}
-        if extra_env := subprocess_run_kwargs.get('env'):
+        if (extra_env := subprocess_run_kwargs.get('env')) is not None:
             env.update(extra_env)
         else:
             env.update(os.environ)
-- 
2.43.0


From 480bfd13d2d721aa49434ec7d2e9946220edff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:53 +0000
Subject: [PATCH 104/144] fix: commands are executed in environments without
 naming variables and arguments

---
 pkm/src/pkm/api/environments/environment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environment.py b/pkm/src/pkm/api/environments/environment.py
index 3342c97..1beb866 100644
--- a/pkm/src/pkm/api/environments/environment.py
+++ b/pkm/src/pkm/api/environments/environment.py
@@ -206,8 +206,9 @@ class Environment(HasAttachedRepository, Serializable):
         :param env: environment variables
         """
 
+        env = {**(os.environ if env is None else env)}
         with self.activate(env):
-            execvpe(cmd, args, env)
+            execvpe(cmd, args or [], env)
 
     def run_proc(self, args: List[str], **subprocess_run_kwargs) -> CompletedProcess:
         """
-- 
2.43.0


From 7bb758ce276397f595dc4db16d79fc77997e9ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:53 +0000
Subject: [PATCH 105/144] fix: leaving an active zoo restores an empty PATH

---
 pkm/src/pkm/api/environments/environments_zoo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index dfc264d..bcf2be2 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -70,7 +70,7 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
         try:
             yield
         finally:
-            if prev_path:
+            if prev_path is not None:
                 env["PATH"] = prev_path
             else:
                 del env["PATH"]
-- 
2.43.0


From 3f281bb57d593e8f775a3a50b20c80920f828c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:03 +0000
Subject: [PATCH 106/144] fix: deleting an environment of a zoo deletes nothing
 but environments of the zoo

---
 pkm/src/pkm/api/environments/environments_zoo.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index bcf2be2..4fa388d 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -53,7 +53,11 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
 
     def delete_environment(self, name: str):
         # shared repository gc
-        shutil.rmtree(self.path / name)
+        env_path = self._env_path(name)
+        if not (env_path / "pyvenv.cfg").exists():
+            raise ValueError(f"directory {env_path} does not contains an environment")
+
+        shutil.rmtree(env_path)
 
     def clean_unused_shared(self):
         repo = self.attached_repository
@@ -83,10 +87,14 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
             if Environment.is_venv_path(e_path):
                 yield Environment(e_path, zoo=self)
 
-    def load_environment(self, name: str) -> Environment:
-        if not (e_path := self.path / name).exists():
+    def _env_path(self, name: str) -> Path:
+        # environments are direct children of the zoo: other paths (like '..') are not names of environments
+        if Path(name).name != name or not (e_path := self.path / name).exists():
             raise NoSuchElementException(f"environment named {name} could not be found in this zoo")
+        return e_path
 
+    def load_environment(self, name: str) -> Environment:
+        e_path = self._env_path(name)
         if not Environment.is_venv_path(e_path):
             raise ValueError(f"directory {e_path} does not contains a valid environment")
 
-- 
2.43.0


From f5f9a33f90e8fd45e4a159a91becd639c191e9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:03 +0000
Subject: [PATCH 107/144] fix: scripts are exported from zoos whose .zoo
 directory was removed

---
 pkm/src/pkm/api/environments/environments_zoo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index 4fa388d..b06b3b4 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -107,12 +107,14 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
                 and not (script_file := env_scripts / f"{script_name}.exe").exists():
             raise NoSuchElementException(f"script {script_name} could not be find in environment {env_name}")
 
+        self._bin_path.mkdir(exist_ok=True, parents=True)
         shutil.copy(script_file, self._bin_path / script_file.name)
 
     def export_all_scripts(self, env_name: str, package: str):
         env = self.load_environment(env_name)
         env_scripts = env.installation_target.scripts
         bin_path = self._bin_path
+        bin_path.mkdir(exist_ok=True, parents=True)
 
         for file in env.site_packages.installed_package(package).dist_info.installed_files():
             if is_relative_to(file, Path(env_scripts)):
-- 
2.43.0


From b83980b01b416566dcf82254be15bfac6b691aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:03 +0000
Subject: [PATCH 108/144] fix: scripts run in environments whose paths are long
 or have spaces

---
 pkm/src/pkm/launchers/executables.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/launchers/executables.py b/pkm/src/pkm/launchers/executables.py
index c04d77c..9f88d24 100644
--- a/pkm/src/pkm/launchers/executables.py
+++ b/pkm/src/pkm/launchers/executables.py
@@ -1,4 +1,5 @@
 import os
+import shlex
 import stat
 import sys
 from pathlib import Path
@@ -11,6 +12,14 @@ if TYPE_CHECKING:
     from pkm.api.environments.environment import Environment
 
 
+def _shabang(interpreter: str, linesep: str = '\n') -> str:
+    if os.name != 'posix' or (' ' not in interpreter and len(os.fsencode(interpreter)) < 125):
+        return f"#!{interpreter}{linesep}"
+
+    # such interpreters cannot be named in a shabang line, the following is a shell script that is also a python script
+    return f"#!/bin/sh{linesep}'''exec' {shlex.quote(interpreter)} \"$0\" \"$@\"{linesep}' '''{linesep}"
+
+
 class Executables:
 
     @staticmethod
@@ -27,7 +36,7 @@ class Executables:
             if first_line.startswith(b"#!python"):
                 w = 'w' if first_line.startswith(b"#!pythonw") else ''
                 target_fd.write(
-                    f"#!{interpreter_path.absolute()}{w}{os.linesep}".encode(sys.getfilesystemencoding()))
+                    _shabang(f"{interpreter_path.absolute()}{w}", os.linesep).encode(sys.getfilesystemencoding()))
             else:
                 target_fd.write(first_line)
 
@@ -51,7 +60,7 @@ class Executables:
         if env.operating_platform.has_windows_os():
             return build_windows_script_launcher(env, target_dir, file_name, script, is_gui)
         else:
-            source = f"#!{env.interpreter_path.absolute()}\n{script}"
+            source = f"{_shabang(str(env.interpreter_path.absolute()))}{script}"
 
             result_script_path = target_dir / file_name
             result_script_path.write_text(source)
-- 
2.43.0


From c465c27abb704eff62bf23b65fa456ee256b0565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:21 +0000
Subject: [PATCH 109/144] fix: exporting the scripts of a package that is not
 installed says so

---
 pkm/src/pkm/api/environments/environments_zoo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index b06b3b4..f422112 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -113,10 +113,13 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
     def export_all_scripts(self, env_name: str, package: str):
         env = self.load_environment(env_name)
         env_scripts = env.installation_target.scripts
+        if (installed_package := env.site_packages.installed_package(package)) is None:
+            raise NoSuchElementException(f"package {package} is not installed in environment {env_name}")
+
         bin_path = self._bin_path
         bin_path.mkdir(exist_ok=True, parents=True)
 
-        for file in env.site_packages.installed_package(package).dist_info.installed_files():
+        for file in installed_package.dist_info.installed_files():
             if is_relative_to(file, Path(env_scripts)):
                 shutil.copy(file, bin_path / file.name)
 
-- 
2.43.0


From cd8a59855b4ea15317cb4bc2b756345ca3565415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 110/144] fix: projects may have entry points of any group, gui
 scripts are in their own group

---
 pkm/src/pkm/api/projects/pyproject_configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 4ae90da..9b2327d 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -165,13 +165,13 @@ class ProjectConfig:
     def entry_points(self) -> Mapping[str, List[EntryPoint]]:
         result: Dict[str, List[EntryPoint]] = defaultdict(list)
         if self._entry_points:
-            result.update({g: _entrypoints_from_config(g, eps) for g, eps in self.entry_points.values()})
+            result.update({g: _entrypoints_from_config(g, eps) for g, eps in self._entry_points.items()})
         if self._scripts:
             result[EntryPoint.G_CONSOLE_SCRIPTS] \
                 .extend(_entrypoints_from_config(EntryPoint.G_CONSOLE_SCRIPTS, self._scripts))
         if self._gui_scripts:
             result[EntryPoint.G_GUI_SCRIPTS] \
-                .extend(_entrypoints_from_config(EntryPoint.G_CONSOLE_SCRIPTS, self._gui_scripts))
+                .extend(_entrypoints_from_config(EntryPoint.G_GUI_SCRIPTS, self._gui_scripts))
 
         return result
 
-- 
2.43.0


From 3a6e924a7eb7c99f1a99ec17dc00595e9ed75cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 111/144] fix: authors and maintainers are published as they
 are configured

---
 pkm/src/pkm/api/packages/package_metadata.py  | 16 +++++++-------
 .../api/projects/pyproject_configuration.py   | 21 +++++--------------
 2 files changed, 13 insertions(+), 24 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 84360f6..443b543 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -5,7 +5,7 @@ from dataclasses import dataclass
 from email.message import EmailMessage
 from email.parser import Parser
 from pathlib import Path
-from typing import List, TYPE_CHECKING, Dict, Any
+from typing import List, TYPE_CHECKING, Dict, Any, Optional
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.versions.version import Version
@@ -14,7 +14,7 @@ from pkm.config.configclass import ConfigIO, config, config_field, ConfigFile
 from pkm.utils.dicts import get_or_put, remove_none_values
 
 if TYPE_CHECKING:
-    from pkm.api.projects.pyproject_configuration import ProjectConfig
+    from pkm.api.projects.pyproject_configuration import ProjectConfig, ContactInfo
 
 _METADATA_VERSION = '2.1'
 
@@ -101,11 +101,11 @@ class PackageMetadata(ConfigFile):
         #    with the format {name} <{email}> (with appropriate quoting, e.g. using email.headerregistry.Address).
         # 4. Multiple values should be separated by commas.
 
-        author_names = [a.name for a in (prjc.authors or []) if a.name]
-        author_emails = [a.email for a in (prjc.authors or []) if a.email]
+        def names(contacts: Optional[List["ContactInfo"]]) -> Optional[str]:
+            return ', '.join(c.name for c in (contacts or []) if c.name and not c.email) or None
 
-        maintainer_names = [a.name for a in (prjc.authors or []) if a.name]
-        maintainer_emails = [a.email for a in (prjc.authors or []) if a.email]
+        def emails(contacts: Optional[List["ContactInfo"]]) -> Optional[str]:
+            return ', '.join(c.formatted() if c.name else c.email for c in (contacts or []) if c.email) or None
 
         extras = list((prjc.optional_dependencies or {}).keys())
         all_deps = prjc.all_dependencies
@@ -115,8 +115,8 @@ class PackageMetadata(ConfigFile):
             'Name': prjc.name, 'Version': str(prjc.version),
             'Summary': prjc.description, 'Description': prjc.readme_content(),
             'Description-Content-Type': prjc.readme_content_type(), 'Keywords': prjc.keywords or [],
-            'Author': ', '.join(author_names), 'Author-email': ', '.join(author_emails),
-            'Maintainer': ', '.join(maintainer_names), 'Maintainer-email': ', '.join(maintainer_emails),
+            'Author': names(prjc.authors), 'Author-email': emails(prjc.authors),
+            'Maintainer': names(prjc.maintainers), 'Maintainer-email': emails(prjc.maintainers),
             'License': prjc.license_content(), 'Classifier': prjc.classifiers,
             'Requires-Dist': [str(d) for d in all_deps], 'Requires-Python': str(prjc.requires_python),
             'Provides-Extra': extras,
diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 9b2327d..6c245fa 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 import re
 from collections import defaultdict
 from dataclasses import dataclass, replace
-from email.header import Charset  # noqa
 from email.utils import specialsre, escapesre  # noqa
 from pathlib import Path
 from typing import List, Optional, Union, Dict, Mapping, Any, Iterator, Type
@@ -29,29 +28,19 @@ class BuildSystemConfig:
     backend_path: List[str] = config_field(key='backend-path')
 
 
-_contect_info_charset = Charset('utf-8')
-
-
 @dataclass(eq=True)
 @config
 class ContactInfo:
     name: str = None
     email: str = None
 
-    def __post_init__(self):
+    def formatted(self) -> str:
         """
-        adjusted from source of email.utils.formataddr, make sure the given name is according to rfc822
+        :return: this contact in the format `name <email>` where the name is quoted if rfc822 requires it
         """
-        try:
-            self.name.encode('ascii')
-        except UnicodeEncodeError:
-            self.name = _contect_info_charset.header_encode(self.name)
-        else:
-            quotes = ''
-            if specialsre.search(self.name):
-                quotes = '"'
-            name = escapesre.sub(r'\\\g<0>', self.name)
-            self.name = f"{quotes}{name}{quotes}"
+        name = escapesre.sub(r'\\\g<0>', self.name)
+        quotes = '"' if specialsre.search(self.name) else ''
+        return f"{quotes}{name}{quotes} <{self.email}>"
 
 
 def _entrypoints_from_config(group: str, ep: Dict[str, str]) -> List[EntryPoint]:
-- 
2.43.0


From 5aec02c121faaa849fba9135e606c1d2ba319dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 112/144] fix: dependencies of optional groups keep their own
 markers

---
 pkm/src/pkm/api/projects/pyproject_configuration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 6c245fa..166b7a6 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -183,10 +183,10 @@ class ProjectConfig:
         all_deps = [d for d in (self.dependencies or [])]
         optional_deps = self.optional_dependencies or {}
         for od_group, deps in optional_deps.items():
-            extra_rx = re.compile(f'extra\\s*==\\s*(\'{od_group}\'|"{od_group}")')
+            extra_rx = re.compile(f'\\s*extra\\s*==\\s*(\'{re.escape(od_group)}\'|"{re.escape(od_group)}")\\s*')
             for dep in deps:
-                if not dep.env_marker or not extra_rx.match(str(dep.env_marker)):
-                    new_marker = (str(dep.env_marker).rstrip(';') + ';') if dep.env_marker else ''
+                if not dep.env_marker or not extra_rx.fullmatch(str(dep.env_marker)):
+                    new_marker = f"({str(dep.env_marker).rstrip(';')}) and " if dep.env_marker else ''
                     new_marker = f"{new_marker}extra==\'{od_group}\'"
                     all_deps.append(replace(dep, env_marker=EnvironmentMarker.parse_pep508(new_marker)))
                 else:
-- 
2.43.0


From 24d5b5fc86549d09b680f75fcc376c23d7732293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 113/144] fix: readme and license files are looked for in the
 project, a readme may be just a file name

---
 .../api/projects/pyproject_configuration.py   | 43 +++++++++++++++----
 pkm/src/pkm/build/pkm_builders.py             |  2 +-
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 166b7a6..b148f9e 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -148,6 +148,9 @@ class ProjectConfig:
 
     leftovers = config_field(leftover=True)
 
+    # the directory that the paths in this configuration are relative to
+    _directory = Path()
+
     # all_fields: Dict[str, Any]
 
     @cached_property
@@ -200,13 +203,24 @@ class ProjectConfig:
         if not self.readme:
             return ""
 
-        if isinstance(self.readme, str):
-            return self.readme
+        if readme_path := self.readme_path():
+            return readme_path.read_text(encoding='utf-8') if readme_path.exists() else ""
 
-        if self.readme.exists():
-            return self.readme.read_text()
+        return self.readme
 
-        return ""
+    def readme_path(self) -> Optional[Path]:
+        """
+        :return: the path to the readme file of this project, if it has one
+        """
+        if self.readme and (isinstance(self.readme, Path) or self._is_readme_file_name(self.readme)):
+            return self._directory / self.readme
+        return None
+
+    def _is_readme_file_name(self, readme: str) -> bool:
+        try:
+            return (self._directory / readme).is_file()
+        except (OSError, ValueError):
+            return False
 
     def script_entrypoints(self) -> Iterator[EntryPoint]:
         """
@@ -219,8 +233,8 @@ class ProjectConfig:
             yield from gui_scripts
 
     def readme_content_type(self) -> str:
-        if self.readme and isinstance(self.readme, Path):
-            readme_suffix = self.readme.suffix
+        if readme_path := self.readme_path():
+            readme_suffix = readme_path.suffix
             if readme_suffix == '.md':
                 return 'text/markdown'
             elif readme_suffix == '.rst':
@@ -235,7 +249,13 @@ class ProjectConfig:
         if isinstance(self.license, str):
             return self.license
 
-        return self.license.read_text()
+        return self.license_path().read_text(encoding='utf-8')
+
+    def license_path(self) -> Optional[Path]:
+        """
+        :return: the path to the license file of this project, if it has one
+        """
+        return self._directory / self.license if isinstance(self.license, Path) else None
 
 
 _LEGACY_PROJECT_DYNAMIC = [
@@ -253,6 +273,13 @@ class PyProjectConfiguration(ConfigFile):
         key="tool.pkm.distribution", default_factory=lambda: PkmDistributionConfig(PKM_DIST_CFG_TYPE_LIB))
     _leftovers = config_field(leftover=True)
 
+    @classmethod
+    def load(cls, path: Path, *, target_object: Optional["PyProjectConfiguration"] = None) -> "PyProjectConfiguration":
+        result = super().load(path, target_object=target_object)
+        if result.project:
+            result.project._directory = path.absolute().parent
+        return result
+
     @classmethod
     def load_effective(cls, pyproject_file: Path,
                        package: Optional[PackageDescriptor] = None) -> "PyProjectConfiguration":
diff --git a/pkm/src/pkm/build/pkm_builders.py b/pkm/src/pkm/build/pkm_builders.py
index cf530d4..b08ad63 100644
--- a/pkm/src/pkm/build/pkm_builders.py
+++ b/pkm/src/pkm/build/pkm_builders.py
@@ -134,7 +134,7 @@ class _BuildContext:
 
         PackageMetadata.from_project_config(project_config).save(di.metadata_path())
         di.license_path().write_text(
-            project_config.license_content())
+            project_config.license_content(), encoding='utf-8')
 
         # TODO: probably later we will want to add the version of pkm in the generator..
         WheelFileConfiguration.create(generator="pkm", purelib=True).save(di.wheel_path())
-- 
2.43.0


From fdf249cc74e1854efe020199eb9d82d2d9e826e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 114/144] fix: the content type of a readme is the configured
 one

---
 .../api/projects/pyproject_configuration.py   | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index b148f9e..d4119d2 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -78,6 +78,14 @@ class PkmProjectConfig:
     group: Optional[str] = None  # TODO: remove group and use conventions only?
 
 
+class _TypedText(str):
+    content_type: Optional[str] = None
+
+
+class _TypedPath(type(Path())):
+    content_type: Optional[str] = None
+
+
 class _TextOrFileConfigFieldCodec(ConfigFieldCodec):
 
     def __init__(self, allows_raw_text: bool):
@@ -90,18 +98,19 @@ class _TextOrFileConfigFieldCodec(ConfigFieldCodec):
         if not isinstance(v, Mapping):
             raise ValueError(f"malformed value: {v}")
 
-        if 'text' in v:
-            return v['text']
-        else:
-            return Path(v['file'])
+        result = _TypedText(v['text']) if 'text' in v else _TypedPath(v['file'])
+        result.content_type = v.get('content-type')
+        return result
 
     def unparse(self, parent: ConfigCodec, type_: Type, v: Union[Path, str, None]) -> Any:
+        content_type = getattr(v, 'content_type', None)
+        content_type = {'content-type': content_type} if content_type else {}
         if isinstance(v, Path):
-            return {'file': str(v)}
-        elif self._allows_raw_text:
+            return {'file': str(v), **content_type}
+        elif self._allows_raw_text and not isinstance(v, _TypedText):
             return v
         else:
-            return {'text': v}
+            return {'text': str(v), **content_type}
 
 
 @dataclass(eq=True)
@@ -233,6 +242,9 @@ class ProjectConfig:
             yield from gui_scripts
 
     def readme_content_type(self) -> str:
+        if content_type := getattr(self.readme, 'content_type', None):
+            return content_type
+
         if readme_path := self.readme_path():
             readme_suffix = readme_path.suffix
             if readme_suffix == '.md':
-- 
2.43.0


From e7fc10ef2a9bc9d967698844f4525ce976de097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 115/144] fix: metadata is written as it is, whatever its
 length and characters, and its description is read

---
 pkm/src/pkm/api/packages/package_metadata.py | 24 ++++++++------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 443b543..e7dce91 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -1,8 +1,6 @@
 from __future__ import annotations
 
-import warnings
 from dataclasses import dataclass
-from email.message import EmailMessage
 from email.parser import Parser
 from pathlib import Path
 from typing import List, TYPE_CHECKING, Dict, Any, Optional
@@ -27,7 +25,7 @@ _MULTI_FIELDS = {
 class PackageMetadataIO(ConfigIO):
 
     def write(self, path: Path, data: Dict[str, Any]):
-        msg = EmailMessage()
+        lines = []
         for key, value in data.items():
             if value is None:
                 continue
@@ -38,26 +36,21 @@ class PackageMetadataIO(ConfigIO):
             if key == 'Description':
                 continue  # will add it in payload
 
-            if isinstance(value, List):
-                for item in value:
-                    msg[key] = item
-            else:
-                try:
-                    msg[key] = value
-                except Exception as e:
-                    warnings.warn(f"malformed metadata key,value ({key}={value}) | {e}, ignoring it")
+            for item in (value if isinstance(value, List) else [value]):
+                item = '\n        '.join(str(item).splitlines())  # more lines are continuations of the first
+                lines.append(f"{key}: {item}\n")
 
         if payload := data.get("Description"):
-            msg.set_payload(payload)
+            lines.append(f"\n{payload}")
 
-        path.write_text(msg.as_string())
+        path.write_text(''.join(lines), encoding='utf-8')
 
     def read(self, path: Path) -> Dict[str, Any]:
         if not path.exists():
             return {}
 
         parser = Parser()
-        with path.open('r', errors="ignore") as path_fd:
+        with path.open('r', encoding='utf-8', errors="ignore") as path_fd:
             content = parser.parse(path_fd)
 
             data = {}
@@ -72,6 +65,9 @@ class PackageMetadataIO(ConfigIO):
                 else:
                     data[key] = value
 
+            if (payload := content.get_payload()) and 'Description' not in data:
+                data['Description'] = payload
+
         return data
 
 
-- 
2.43.0


From fcbbcb38f9b14a3cbf9181c0e1ad21619a603549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 116/144] fix: published metadata names the urls of the
 project, its keywords once, and no python requirement if there is none

---
 pkm/src/pkm/api/packages/package_metadata.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index e7dce91..ca46a9a 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -110,12 +110,13 @@ class PackageMetadata(ConfigFile):
             'Metadata-Version': _METADATA_VERSION,
             'Name': prjc.name, 'Version': str(prjc.version),
             'Summary': prjc.description, 'Description': prjc.readme_content(),
-            'Description-Content-Type': prjc.readme_content_type(), 'Keywords': prjc.keywords or [],
+            'Description-Content-Type': prjc.readme_content_type(), 'Keywords': ','.join(prjc.keywords or []) or None,
             'Author': names(prjc.authors), 'Author-email': emails(prjc.authors),
             'Maintainer': names(prjc.maintainers), 'Maintainer-email': emails(prjc.maintainers),
-            'License': prjc.license_content(), 'Classifier': prjc.classifiers,
-            'Requires-Dist': [str(d) for d in all_deps], 'Requires-Python': str(prjc.requires_python),
-            'Provides-Extra': extras,
+            'License': prjc.license_content() or None, 'Classifier': prjc.classifiers,
+            'Requires-Dist': [str(d) for d in all_deps],
+            'Requires-Python': None if prjc.requires_python is AllowAllVersions else str(prjc.requires_python),
+            'Provides-Extra': extras, 'Project-URL': [f"{name}, {url}" for name, url in (prjc.urls or {}).items()],
             # 'Dynamic': prjc.dynamic or [], add back when pypi supports metadata version 2.2
         }
 
-- 
2.43.0


From 1f2cf66b67f80c2fcaecf61b5d86205689cb061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 117/144] fix: what pkm puts in a project, hidden directories
 and environments are not part of its packages

---
 pkm/src/pkm/api/projects/project.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 46b8458..e1d2a47 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -387,13 +387,21 @@ class ProjectDirectories:
         else:
             if not (src_dir := project_path / 'src').exists():
                 src_dir = project_path
-            packages = [p for p in src_dir.iterdir() if p.is_dir()]
+            packages = [p for p in src_dir.iterdir() if p.is_dir() and _may_be_package(p)]
 
         etc_pkm = project_path / 'etc' / 'pkm'
         etc_pkm.mkdir(parents=True, exist_ok=True)
         return ProjectDirectories(packages, project_path / 'dist', etc_pkm)
 
 
+def _may_be_package(path: Path) -> bool:
+    if path.name.startswith('.') or path.name == '__pycache__' or (path / 'pyvenv.cfg').exists():
+        return False
+
+    # pkm puts its own files in these
+    return path.name not in ('dist', 'etc') or (path / '__init__.py').exists()
+
+
 def _update_dependencies(
         config: PyProjectConfiguration, new_deps: Dict[str, "Dependency"], optional_group: Optional[str]):
     save_dependencies = [d for d in (config.project.dependencies or []) if d.package_name not in new_deps]
-- 
2.43.0


From 456a569e56e7cdc2f90ffcfcd1d4fff09a6356a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 118/144] fix: source distributions have all that is needed to
 build from them

---
 pkm/src/pkm/build/pkm_builders.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/build/pkm_builders.py b/pkm/src/pkm/build/pkm_builders.py
index b08ad63..b7bc8d9 100644
--- a/pkm/src/pkm/build/pkm_builders.py
+++ b/pkm/src/pkm/build/pkm_builders.py
@@ -15,7 +15,7 @@ from pkm.api.environments.environment import Environment
 from pkm.api.packages.package_metadata import PackageMetadata
 from pkm.api.projects.project import ProjectDirectories, Project
 from pkm.api.projects.pyproject_configuration import ProjectConfig, PyProjectConfiguration
-from pkm.utils.files import temp_dir
+from pkm.utils.files import temp_dir, is_relative_to
 from pkm.utils.iterators import distinct
 
 
@@ -42,10 +42,13 @@ def build_sdist(project: Project, target_dir: Optional[Path] = None) -> Path:
         bc.pyproject.save(data_dir / 'pyproject.toml')
 
         if bc.pyproject.pkm_project.packages:
-            bc.copy_sources(data_dir)
+            bc.copy_sources(data_dir, keep_structure=True)
         else:
+            (data_dir / 'src').mkdir()
             bc.copy_sources(data_dir / 'src')
 
+        bc.copy_text_files(data_dir)
+
         with tarfile.open(sdist_path, 'w:gz', format=tarfile.PAX_FORMAT) as sdist:
             for file in data_dir.glob('*'):
                 sdist.add(file, file.relative_to(bc.build_dir))
@@ -145,7 +148,15 @@ class _BuildContext:
 
         return di
 
-    def copy_sources(self, dst: Path, link_only: bool = False):
+    def copy_text_files(self, dst: Path):
+        project_config, project_dir = self.pyproject.project, self.project.path
+        for file in (project_config.readme_path(), project_config.license_path()):
+            if file and file.exists() and is_relative_to(file, project_dir):
+                file_dst = dst / file.relative_to(project_dir)
+                file_dst.parent.mkdir(parents=True, exist_ok=True)
+                shutil.copy(file, file_dst)
+
+    def copy_sources(self, dst: Path, link_only: bool = False, keep_structure: bool = False):
         dirs = ProjectDirectories.create(self.pyproject)
 
         if link_only:
@@ -156,7 +167,8 @@ class _BuildContext:
             return
 
         for package_dir in dirs.src_packages:
-            destination = dst / package_dir.name
+            package_path = package_dir.relative_to(self.pyproject.path.parent) if keep_structure else package_dir.name
+            destination = dst / package_path
             if package_dir.exists():
                 shutil.copytree(package_dir, destination, ignore=ignore_patterns('__pycache__'))
             else:
-- 
2.43.0


From 1e821f2f9c18334b3c9735984ecbc00baabbda5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 119/144] fix: wheels can be built from files of any age

---
 pkm/src/pkm/build/pkm_app_builders.py | 2 +-
 pkm/src/pkm/build/pkm_builders.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/build/pkm_app_builders.py b/pkm/src/pkm/build/pkm_app_builders.py
index 7465ec4..ac8124e 100644
--- a/pkm/src/pkm/build/pkm_app_builders.py
+++ b/pkm/src/pkm/build/pkm_app_builders.py
@@ -43,7 +43,7 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None,
         # build the actual wheel
         wheel_path = target_dir / WheelDistribution.expected_wheel_file_name(project)
         target_dir.mkdir(parents=True, exist_ok=True)
-        with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED) as wheel:
+        with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED, strict_timestamps=False) as wheel:
             build_dir = Path(target.purelib)
             for file in build_dir.rglob('*'):
                 wheel.write(file, file.relative_to(build_dir))
diff --git a/pkm/src/pkm/build/pkm_builders.py b/pkm/src/pkm/build/pkm_builders.py
index b7bc8d9..133e409 100644
--- a/pkm/src/pkm/build/pkm_builders.py
+++ b/pkm/src/pkm/build/pkm_builders.py
@@ -90,7 +90,7 @@ def build_wheel(project: Project, target_dir: Optional[Path] = None, only_meta:
 
         wheel_path = target_dir / bc.wheel_file_name()
         target_dir.mkdir(parents=True, exist_ok=True)
-        with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED) as wheel:
+        with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED, strict_timestamps=False) as wheel:
             for file in bc.build_dir.rglob('*'):
                 wheel.write(file, file.relative_to(bc.build_dir))
 
-- 
2.43.0


From 7ad8608795034684b90a93b812917b7e1fbf0da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 120/144] fix: wheels can be built for projects that only limit
 the python version from above

---
 pkm/src/pkm/api/distributions/wheel_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index 626f55f..e4b7d75 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -75,7 +75,7 @@ class WheelDistribution(Distribution):
         req = project_config.requires_python
 
         min_interpreter: StandardVersion = req.min \
-            if req and isinstance(req, StandardVersionRange) else \
+            if req and isinstance(req, StandardVersionRange) and req.min else \
             StandardVersion((Environment.current().interpreter_version.release[0],))
 
         req_interpreter = 'py' + ''.join(str(it) for it in min_interpreter.release[:2])
-- 
2.43.0


From 36000d71d81ca240360d49bc9a3815f3daab457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 121/144] fix: wheels say which tag they have

---
 pkm/src/pkm/api/distributions/distinfo.py | 6 ++++--
 pkm/src/pkm/build/pkm_builders.py         | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/distinfo.py b/pkm/src/pkm/api/distributions/distinfo.py
index 0db88a6..b888da7 100644
--- a/pkm/src/pkm/api/distributions/distinfo.py
+++ b/pkm/src/pkm/api/distributions/distinfo.py
@@ -248,8 +248,10 @@ class WheelFileConfiguration(ConfigFile):
             print(f'advanced wheel version: {self.version} detected, will be treated as version 1.0')
 
     @classmethod
-    def create(cls, generator: str, purelib: bool):
-        return WheelFileConfiguration(Version.parse("1.0"), generator, purelib)
+    def create(cls, generator: str, purelib: bool, tag: Optional[str] = None):
+        result = WheelFileConfiguration(Version.parse("1.0"), generator, purelib)
+        result._leftovers = {'Tag': tag} if tag else {}
+        return result
 
 
 class _RecordHashsignatureCodec(ConfigFieldCodec):
diff --git a/pkm/src/pkm/build/pkm_builders.py b/pkm/src/pkm/build/pkm_builders.py
index 133e409..1bac900 100644
--- a/pkm/src/pkm/build/pkm_builders.py
+++ b/pkm/src/pkm/build/pkm_builders.py
@@ -140,7 +140,9 @@ class _BuildContext:
             project_config.license_content(), encoding='utf-8')
 
         # TODO: probably later we will want to add the version of pkm in the generator..
-        WheelFileConfiguration.create(generator="pkm", purelib=True).save(di.wheel_path())
+        WheelFileConfiguration.create(
+            generator="pkm", purelib=True, tag='-'.join(self.wheel_file_name()[:-len('.whl')].split('-')[-3:])
+        ).save(di.wheel_path())
 
         entrypoints = di.load_entrypoints_cfg()
         entrypoints.entrypoints = self.pyproject.project.all_entrypoints()
-- 
2.43.0


From 2aadea94e71a2ceabd1ae7a0697c077f73f75d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 122/144] fix: metadata has no python requirement if any
 version will do

---
 pkm/src/pkm/api/packages/package_metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index ca46a9a..57f99e0 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -36,6 +36,9 @@ class PackageMetadataIO(ConfigIO):
             if key == 'Description':
                 continue  # will add it in payload
 
+            if key == 'Requires-Python' and value == '*':
+                continue  # any version, there is no specifier that says so
+
             for item in (value if isinstance(value, List) else [value]):
                 item = '\n        '.join(str(item).splitlines())  # more lines are continuations of the first
                 lines.append(f"{key}: {item}\n")
@@ -115,7 +118,7 @@ class PackageMetadata(ConfigFile):
             'Maintainer': names(prjc.maintainers), 'Maintainer-email': emails(prjc.maintainers),
             'License': prjc.license_content() or None, 'Classifier': prjc.classifiers,
             'Requires-Dist': [str(d) for d in all_deps],
-            'Requires-Python': None if prjc.requires_python is AllowAllVersions else str(prjc.requires_python),
+            'Requires-Python': str(prjc.requires_python),
             'Provides-Extra': extras, 'Project-URL': [f"{name}, {url}" for name, url in (prjc.urls or {}).items()],
             # 'Dynamic': prjc.dynamic or [], add back when pypi supports metadata version 2.2
         }
-- 
2.43.0


From 524c74ee7e9525a3896978424148ab1006c80c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 123/144] fix: the packages of a project may be configured

---
 pkm/src/pkm/api/projects/pyproject_configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index d4119d2..a2380f3 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -74,8 +74,8 @@ class PkmApplicationConfig:
 @dataclass(eq=True)
 @config
 class PkmProjectConfig:
-    packages: Optional[List[str]] = None
-    group: Optional[str] = None  # TODO: remove group and use conventions only?
+    packages: List[str] = None
+    group: str = None  # TODO: remove group and use conventions only?
 
 
 class _TypedText(str):
-- 
2.43.0


From eaeb5d1794e1823f916f4500a8979fd24b413c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:19 +0000
Subject: [PATCH 124/144] fix: the metadata directory of a wheel is named as
 the wheel

---
 pkm/src/pkm/build/pkm_builders.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkm/src/pkm/build/pkm_builders.py b/pkm/src/pkm/build/pkm_builders.py
index 1bac900..16f1980 100644
--- a/pkm/src/pkm/build/pkm_builders.py
+++ b/pkm/src/pkm/build/pkm_builders.py
@@ -99,12 +99,8 @@ def build_wheel(project: Project, target_dir: Optional[Path] = None, only_meta:
 
 @contextmanager
 def _build_context(project: Project) -> ContextManager["_BuildContext"]:
-    project_cfg: ProjectConfig = project.config.project
-
-    project_name_underscores = project_cfg.name.replace('-', '_')
-
     with temp_dir() as build_dir:
-        yield _BuildContext(project, build_dir, project_name_underscores)
+        yield _BuildContext(project, build_dir, project.descriptor.expected_src_package_name)
 
 
 @dataclass
-- 
2.43.0


From fd5fd364b23e0b582d20dfd592f3e9734fc0a6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:50 +0000
Subject: [PATCH 125/144] fix: saving a project configuration keeps its pkm
 sections

---
 pkm/src/pkm/config/configclass.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/configclass.py b/pkm/src/pkm/config/configclass.py
index bf5def8..f5a60ac 100644
--- a/pkm/src/pkm/config/configclass.py
+++ b/pkm/src/pkm/config/configclass.py
@@ -269,6 +269,14 @@ def _shove_key(config_: _RAW_CONFIG_T, key: str, value: Any):
     config_[parts[-1]] = value
 
 
+def _put_missing(config_: _RAW_CONFIG_T, leftovers: _RAW_CONFIG_T):
+    for key, value in leftovers.items():
+        if key not in config_:
+            config_[key] = value
+        elif isinstance(value, Mapping) and isinstance(config_[key], dict):
+            _put_missing(config_[key], value)
+
+
 class ConfigCodec:
 
     def __init__(self, field_codecs: Mapping[Type, ConfigFieldCodec] = None):
@@ -346,7 +354,7 @@ class ConfigCodec:
             value = getattr(config_object, field, None)
             if value is not None:
                 if schema.leftover:
-                    target_config.update(value)
+                    _put_missing(target_config, value)
                     continue
                 elif codec := schema.codec or self.field_codec_for_or_none(schema.type):
                     try:
-- 
2.43.0


From c57f63dc5a9d88db622864364bae48079112dd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:50 +0000
Subject: [PATCH 126/144] fix: saved projects have no python requirement if any
 version will do

---
 pkm/src/pkm/api/projects/pyproject_configuration.py | 6 ++++--
 pkm/src/pkm/config/configclass.py                   | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index a2380f3..3e83f54 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -13,7 +13,7 @@ from pkm.api.distributions.distinfo import EntryPoint, ObjectReference
 from pkm.api.packages.package import PackageDescriptor
 from pkm.api.versions.version import Version
 from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions
-from pkm.config.configclass import config, config_field, ConfigFieldCodec, ConfigCodec, ConfigFile
+from pkm.config.configclass import config, config_field, config_field_codec, ConfigFieldCodec, ConfigCodec, ConfigFile
 from pkm.config.configfiles import TomlConfigIO
 from pkm.utils.properties import cached_property
 
@@ -141,7 +141,9 @@ class ProjectConfig:
     # data in the corresponding field means that a user tool provides it dynamically
     dynamic: List[str] = None
     # The Python version requirements of the project.
-    requires_python: VersionSpecifier = config_field(key="requires-python", default=AllowAllVersions)
+    requires_python: VersionSpecifier = config_field(
+        key="requires-python", default=AllowAllVersions, codec=config_field_codec(
+            VersionSpecifier.parse, lambda v: None if v is AllowAllVersions else v.to_pep440()))
     # The dependencies of the project.
     dependencies: List[Dependency] = config_field(default_factory=list)
     # The optional dependencies of the project, grouped by the 'extra' name that provides them.
diff --git a/pkm/src/pkm/config/configclass.py b/pkm/src/pkm/config/configclass.py
index f5a60ac..ec08329 100644
--- a/pkm/src/pkm/config/configclass.py
+++ b/pkm/src/pkm/config/configclass.py
@@ -369,6 +369,9 @@ class ConfigCodec:
                 else:
                     raise ValueError(f"no codec could be found for type: {schema.type}")
 
+                if value is None:
+                    continue
+
                 _shove_key(target_config, schema.key or field, value)
         return target_config
 
-- 
2.43.0


From 08d28df26e2a42efb3e970e1e53adcfd79e50ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:22 +0000
Subject: [PATCH 127/144] fix: a project whose version was bumped has the new
 version

---
 pkm/src/pkm/api/projects/project.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index e1d2a47..d639c96 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -173,6 +173,7 @@ class Project(Package, HasAttachedRepository, Serializable):
             new_version = version.bump(particle)
 
         self.config.project.version = new_version
+        self._descriptor = self.config.project.package_descriptor()
         if save:
             self.config.save()
         return new_version
-- 
2.43.0


From 26c5748b489a0a5221c7db29040d9955ade79231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:32 +0000
Subject: [PATCH 128/144] fix: multipart forms end with their boundary

---
 pkm/src/pkm/utils/http/mfd_payload.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkm/src/pkm/utils/http/mfd_payload.py b/pkm/src/pkm/utils/http/mfd_payload.py
index 8404434..ba409e4 100644
--- a/pkm/src/pkm/utils/http/mfd_payload.py
+++ b/pkm/src/pkm/utils/http/mfd_payload.py
@@ -64,6 +64,8 @@ class MultipartFormDataPayload:
 
             yield newline
 
+        yield f"--{self._boundary}--\r\n".encode()
+
 
 def _guess_content_type(filename: Optional[str], default="application/octet-stream"):
     if filename:
-- 
2.43.0


From 66c470613538d3334c4247ca9d094c102e885024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:32 +0000
Subject: [PATCH 129/144] fix: files are sent completely when they are sent
 again

---
 pkm/src/pkm/utils/http/mfd_payload.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkm/src/pkm/utils/http/mfd_payload.py b/pkm/src/pkm/utils/http/mfd_payload.py
index ba409e4..2495550 100644
--- a/pkm/src/pkm/utils/http/mfd_payload.py
+++ b/pkm/src/pkm/utils/http/mfd_payload.py
@@ -54,6 +54,7 @@ class MultipartFormDataPayload:
 
             payload = field.payload
             if isinstance(payload, IOBase):
+                payload.seek(0)  # it may have been sent already (over a connection that was lost)
                 yield from chunks(payload, chunk_size)
             elif isinstance(payload, str):
                 yield payload.encode()
-- 
2.43.0


From b2b43157a5555afdaf080583e9a9d2801b33ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:32 +0000
Subject: [PATCH 130/144] fix: publish urls may end with a slash

---
 pkm/src/pkm/repositories/pypi_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index 08cccbf..e800b84 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -149,7 +149,7 @@ class PyPiPublisher(RepositoryPublisher):
     def __init__(self, repo_name: str, http: HttpClient, publish_url: str):
         super().__init__(repo_name)
         self._http = http
-        self._publish_url = publish_url
+        self._publish_url = publish_url.rstrip('/')
 
     def authentication_params(self) -> Optional[List[AuthParam]]:
         return [AuthParam('username', AuthParamType.STRING), AuthParam('password', AuthParamType.PASSWORD)]
-- 
2.43.0


From d928e661ddfb3dfaf55839883f463160be60db64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:32 +0000
Subject: [PATCH 131/144] fix: the python tag of published wheels that have a
 build number is known

---
 pkm/src/pkm/repositories/pypi_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index e800b84..2134ca3 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -159,7 +159,7 @@ class PyPiPublisher(RepositoryPublisher):
 
         data = {k.replace('-', '_').lower(): v for k, v in package_meta.to_config().items()}
         file_type = 'bdist_wheel' if distribution.suffix == '.whl' else 'sdist'
-        py_version = distribution.name.split("-")[2] if distribution.suffix == '.whl' else 'source'
+        py_version = distribution.stem.split('-')[-3] if distribution.suffix == '.whl' else 'source'
 
         md5, sha256, blake2 = hashlib.md5(), hashlib.sha256(), hashlib.blake2b(digest_size=256 // 8)
         with distribution.open('rb') as d_fd:
-- 
2.43.0


From 79a8e8c21a98837cb26d6b64f6e66c187c319295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:59 +0000
Subject: [PATCH 132/144] fix: published packages have no python requirement if
 any version will do

---
 pkm/src/pkm/repositories/pypi_repository.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index 2134ca3..dddff21 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -158,6 +158,8 @@ class PyPiPublisher(RepositoryPublisher):
         print(f"uploading distribution: {distribution}")
 
         data = {k.replace('-', '_').lower(): v for k, v in package_meta.to_config().items()}
+        if data.get('requires_python') == '*':
+            del data['requires_python']  # any version, there is no specifier that says so
         file_type = 'bdist_wheel' if distribution.suffix == '.whl' else 'sdist'
         py_version = distribution.stem.split('-')[-3] if distribution.suffix == '.whl' else 'source'
 
-- 
2.43.0


From 789d51729533da0ec631cb02174102d5cf38e5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:55 +0000
Subject: [PATCH 133/144] fix: numbers in local version labels are compared by
 their value

---
 pkm/src/pkm/api/versions/version_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index 1e39ee4..fda551b 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -88,6 +88,7 @@ class VersionParser(SimpleParser):
         if self.match('+'):
             local_label = self.until(lambda i, s: s[i] not in ".-_" and not s[i].isalnum())
             local_label = local_label.lower().translate(local_label.maketrans('-_', '..'))
+            local_label = '.'.join(str(int(it)) if it.isdecimal() else it for it in local_label.split('.'))
 
         if self.peek_prev() == '.':
             self.position -= 1
-- 
2.43.0


From c6d62b22c3bde912de863fc6fce5239432625465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:42 +0000
Subject: [PATCH 134/144] fix: scripts of containerized applications end with
 their own exit status

---
 pkm/src/pkm/api/environments/package_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 284a062..8952412 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -288,7 +288,7 @@ def _entrypoints_script(epoints: List[EntryPoint]):
         ref = ep.ref
         return f"def {epn}():del sys.modules[__package__];" \
                f"import {ref.module_path};" \
-               f"{ref.module_path}.{ref.object_path}()"
+               f"return {ref.module_path}.{ref.object_path}()"
 
     prolog = dedent("""
     import sys
-- 
2.43.0


From b6883cfd6ee427a506b968e8c7d1dd392558bf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:42 +0000
Subject: [PATCH 135/144] fix: what is in a container comes before what is in
 its environment

---
 pkm/src/pkm/api/environments/package_containers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 8952412..10be2af 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -318,8 +318,13 @@ def _register_container_script(name: str) -> str:
     
         container_path = Path(__file__).parent
         container_site = str(container_path / '{CONTAINERIZED_APP_SITE_PATH}')
+        path_before = [p for p in sys.path if p != container_site]
         site.addsitedir(container_site)
-        sys.path.insert(1, sys.path.pop())
+        if container_site not in sys.path:  # the site module knows it already
+            sys.path.append(container_site)
+        # whatever the container adds to the path comes before what is there, also if it adds more than its site
+        added = [p for p in sys.path if p not in path_before]
+        sys.path[:] = path_before[:1] + added + path_before[1:]
     
         old_path = os.environ.get('PATH')
         path = str(container_path / '{CONTAINERIZED_APP_BIN_PATH}')
-- 
2.43.0


From f437b116fea89ae6c1043cba0edb427827b59596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:42 +0000
Subject: [PATCH 136/144] fix: failed installations of containerized
 applications leave everything as it was

---
 pkm/src/pkm/api/environments/package_containers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 10be2af..1758bd4 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -152,10 +152,15 @@ class PackageContainers:
         with temp_dir() as tdir, CopyTransaction() as ct:
 
             if Path(contained_target.purelib).exists():
-                contained_target.force_remove(app.name)
+                if installed := contained_target.site_packages.installed_package(app.name):
+                    for file in installed.dist_info.installed_files():
+                        if file.exists():
+                            ct.rm(file)
+                    if installed.dist_info.path.exists():
+                        ct.rm(installed.dist_info.path)
             else:
                 for path in _CONTAINERIZED_TARGET_USED_PATHS:
-                    mkdir(Path(getattr(contained_target, path)))
+                    ct.mkdir(Path(getattr(contained_target, path)))
 
             contained_site = contained_target.site_packages
             app_config = app.config.pkm_application
-- 
2.43.0


From f06f0a26d723fb91f461d3d2f21e1af3ec72189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:42 +0000
Subject: [PATCH 137/144] fix: updated containerized applications do not keep
 launchers they do not have anymore

---
 pkm/src/pkm/api/environments/package_containers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 1758bd4..69c50c2 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -22,7 +22,7 @@ from pkm.launchers.executables import Executables
 from pkm.build.pkm_builders import build_wheel
 from pkm.repositories.file_system_repository import FILE_SYSTEM_REPOSITORY_TYPE
 from pkm.utils.entrypoints import EntryPoint, ObjectReference
-from pkm.utils.files import temp_dir, mkdir, CopyTransaction, path_to
+from pkm.utils.files import temp_dir, mkdir, CopyTransaction, path_to, is_relative_to
 from pkm.utils.hashes import HashSignature
 from pkm.utils.properties import cached_property
 
@@ -186,6 +186,11 @@ class PackageContainers:
             # now create the dist-info
             dist_info_path = app_dir.parent / contained_distinfo.path.name
             if dist_info_path.exists():
+                # what the previous version put outside its container: launchers, for example
+                for file in DistInfo.load(dist_info_path).installed_files():
+                    if file.exists() and not is_relative_to(file, app_dir.resolve()) \
+                            and not is_relative_to(file, dist_info_path.resolve()):
+                        ct.rm(file)
                 ct.rm(dist_info_path)
             dist_info = DistInfo.load(mkdir(dist_info_path))
 
-- 
2.43.0


From 1735906a20cefefc25eae686866c76dba38dcd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:42 +0000
Subject: [PATCH 138/144] fix: uninstalled containers do not leave their
 plugins behind

---
 pkm/src/pkm/api/environments/package_containers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 69c50c2..ce746e3 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -2,6 +2,7 @@ import os
 from contextlib import contextmanager
 from dataclasses import replace
 from pathlib import Path
+from shutil import rmtree
 from textwrap import dedent
 from typing import List, Union, Optional, ContextManager, Dict
 
@@ -22,7 +23,7 @@ from pkm.launchers.executables import Executables
 from pkm.build.pkm_builders import build_wheel
 from pkm.repositories.file_system_repository import FILE_SYSTEM_REPOSITORY_TYPE
 from pkm.utils.entrypoints import EntryPoint, ObjectReference
-from pkm.utils.files import temp_dir, mkdir, CopyTransaction, path_to, is_relative_to
+from pkm.utils.files import temp_dir, mkdir, CopyTransaction, path_to, is_empty_directory, is_relative_to
 from pkm.utils.hashes import HashSignature
 from pkm.utils.properties import cached_property
 
@@ -63,7 +64,12 @@ class PackageContainer:
         """
         uninstall this container - removing it from the hosting environment
         """
+        container = Path(self._target.data)
         self.package.uninstall()
+        if container.exists():  # packages that were added to this container later
+            rmtree(container)
+            if is_empty_directory(container.parent):
+                container.parent.rmdir()
 
     def list_installed_plugins(self) -> List[InstalledPackage]:
         """
-- 
2.43.0


From eedd4d9a9058195d804189c3b96e35de6b27e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:42 +0000
Subject: [PATCH 139/144] fix: containerized packages come from the
 repositories of their environment

---
 pkm/src/pkm/api/environments/package_containers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index ce746e3..7dfdfc4 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -17,6 +17,7 @@ from pkm.api.projects.project import Project
 from pkm.api.projects.pyproject_configuration import PyProjectConfiguration, PkmApplicationConfig, ProjectConfig, \
     BuildSystemConfig
 from pkm.api.repositories.repositories_configuration import RepositoriesConfiguration, RepositoryInstanceConfig
+from pkm.api.repositories.repository import Repository
 from pkm.api.repositories.repository_loader import REPOSITORIES_CONFIGURATION_PATH
 from pkm.api.versions.version import Version
 from pkm.launchers.executables import Executables
@@ -149,7 +150,8 @@ class PackageContainers:
             yield Project.load(tdir)
 
     def _install(
-            self, app: "Project", store_mode: StoreMode = StoreMode.AUTO) -> PackageContainer:
+            self, app: "Project", store_mode: StoreMode = StoreMode.AUTO,
+            repository: Optional[Repository] = None) -> PackageContainer:
 
         editable = store_mode != StoreMode.COPY
         contained_target = self._target_of(app.name)
@@ -173,7 +175,7 @@ class PackageContainers:
 
             contained_target.install(
                 app_config.dependencies, dependencies_override=app_config.dependency_overwrites,
-                repository=app.attached_repository,
+                repository=repository or app.attached_repository,
                 store_mode={d.package_name: store_mode for d in app_config.dependencies},
                 updates=[d.package_name for d in app_config.dependencies])
 
@@ -294,8 +296,10 @@ class PackageContainers:
         if isinstance(app, Project) and app.is_containerized_application():
             return self._install(app, store_mode)
 
+        # wrapped packages come from the repositories of the environment, the wrapper does not have any
+        repository = None if isinstance(app, Project) else self._target.env.attached_repository
         with self._wrapper_project(app) as prj:
-            return self.install(prj, store_mode, True)
+            return self._install(prj, store_mode, repository)
 
 
 def _entrypoints_script(epoints: List[EntryPoint]):
-- 
2.43.0


From 4ca9ce200c41f6e773fe022a0d5214858e8ff6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:46 +0000
Subject: [PATCH 140/144] fix: containerized applications may have scripts of
 any name

---
 .../api/environments/package_containers.py    | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 7dfdfc4..f11e7ac 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -225,10 +225,9 @@ class PackageContainers:
                 app_entrypoints_script.write_text(_entrypoints_script(script_entrypoints))
                 ct.touch(app_entrypoints_script)
                 scripts_path = Path(self._target.scripts)
-                for script_ep in script_entrypoints:
-                    epn = PackageDescriptor.normalize_src_package_name(script_ep.name)
-                    entrypoints.append(
-                        script_ep := replace(script_ep, ref=ObjectReference.parse(f"{app_dir.name}.entrypoints:{epn}")))
+                for i, script_ep in enumerate(script_entrypoints):
+                    entrypoints.append(script_ep := replace(
+                        script_ep, ref=ObjectReference.parse(f"{app_dir.name}.entrypoints:{_entrypoint_function(i)}")))
                     ct.touch(Executables.generate_for_entrypoint(self._target.env, script_ep, scripts_path))
 
             app_entrypoints.entrypoints = entrypoints
@@ -302,11 +301,15 @@ class PackageContainers:
             return self._install(prj, store_mode, repository)
 
 
+def _entrypoint_function(index: int) -> str:
+    # names of scripts are not always names of functions, and different ones may make the same name
+    return f"entrypoint_{index}"
+
+
 def _entrypoints_script(epoints: List[EntryPoint]):
-    def define_epfunc(ep: EntryPoint):
-        epn = PackageDescriptor.normalize_src_package_name(ep.name)
+    def define_epfunc(i: int, ep: EntryPoint):
         ref = ep.ref
-        return f"def {epn}():del sys.modules[__package__];" \
+        return f"def {_entrypoint_function(i)}():del sys.modules[__package__];" \
                f"import {ref.module_path};" \
                f"return {ref.module_path}.{ref.object_path}()"
 
@@ -317,7 +320,7 @@ def _entrypoints_script(epoints: List[EntryPoint]):
     register()
     
     """)
-    return prolog + os.linesep.join([define_epfunc(ep) for ep in epoints])
+    return prolog + os.linesep.join([define_epfunc(i, ep) for i, ep in enumerate(epoints)])
 
 
 def _register_container_script(name: str) -> str:
-- 
2.43.0


From 21557d009fc08e5fd8ca024c6bef76ed6eb06288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:46 +0000
Subject: [PATCH 141/144] fix: a containerized application is found again when
 its name is spelled differently

---
 pkm/src/pkm/api/environments/package_containers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index f11e7ac..245e3c2 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -138,8 +138,12 @@ class PackageContainers:
                 repocfg.save()
                 app = app.descriptor.to_dependency()
 
+            wrapper_name = app.package_name + _CONTAINERIZED_WRAPPER_SUFFIX
+            if wrapper := self._target.site_packages.installed_package(wrapper_name):
+                wrapper_name = wrapper.name  # the container is there already, its name may be spelled differently
+
             pyprj.project = ProjectConfig(
-                name=app.package_name + _CONTAINERIZED_WRAPPER_SUFFIX,
+                name=wrapper_name,
                 version=Version.parse(_CONTAINERIZED_WRAPPER_VERSION)
             )
 
-- 
2.43.0


From b593e974f909e48880a82268cbb0aeb519026f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:55 +0000
Subject: [PATCH 142/144] fix: dependencies can be updated where there are
 containers

---
 pkm/src/pkm/api/environments/package_containers.py | 3 ++-
 pkm/src/pkm/api/packages/package_installation.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 245e3c2..12ab1ad 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -185,7 +185,8 @@ class PackageContainers:
 
             WheelDistribution(app.descriptor, build_wheel(app, tdir / "whl", editable=editable)) \
                 .install_to(contained_target, app.descriptor.to_dependency(),
-                            PackageInstallationInfo(store_mode=StoreMode.EDITABLE if editable else StoreMode.COPY))
+                            PackageInstallationInfo(
+                                containerized=True, store_mode=StoreMode.EDITABLE if editable else StoreMode.COPY))
 
             contained_site.reload()
 
diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index e93b07b..3258ea7 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -452,7 +452,7 @@ class _InstallationRepository(Repository, ABC):
 
         if installed := self._installed_packages.get(dependency.package_name_key):
             # installed = _UpdatableInstalledPackage(installed, self._repo)
-            if self._fast_plan_mode:
+            if self._fast_plan_mode or installed.dist_info.is_app_container():  # containers are made, not downloaded
                 return [installed]
 
         packages = self._repo.match(dependency, env)
-- 
2.43.0


From 66b201a1b452d1b27d0efa738a3408190e48cceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:12 +0000
Subject: [PATCH 143/144] fix: updated containerized applications do not keep
 the entry points of removed scripts

---
 pkm/src/pkm/api/environments/package_containers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 12ab1ad..d960177 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -234,6 +234,8 @@ class PackageContainers:
                     entrypoints.append(script_ep := replace(
                         script_ep, ref=ObjectReference.parse(f"{app_dir.name}.entrypoints:{_entrypoint_function(i)}")))
                     ct.touch(Executables.generate_for_entrypoint(self._target.env, script_ep, scripts_path))
+            elif (previous_script := app_dir / "entrypoints.py").exists():
+                ct.rm(previous_script)
 
             app_entrypoints.entrypoints = entrypoints
             app_entrypoints.save()
-- 
2.43.0


From 2032fc91f5c17321c3fb5ad40494e04920fb8adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:15 +0000
Subject: [PATCH 144/144] fix: projects can be installed into containers

---
 pkm/src/pkm/api/environments/package_containers.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index d960177..b07a2ff 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -16,13 +16,10 @@ from pkm.api.packages.site_packages import InstalledPackage
 from pkm.api.projects.project import Project
 from pkm.api.projects.pyproject_configuration import PyProjectConfiguration, PkmApplicationConfig, ProjectConfig, \
     BuildSystemConfig
-from pkm.api.repositories.repositories_configuration import RepositoriesConfiguration, RepositoryInstanceConfig
 from pkm.api.repositories.repository import Repository
-from pkm.api.repositories.repository_loader import REPOSITORIES_CONFIGURATION_PATH
 from pkm.api.versions.version import Version
 from pkm.launchers.executables import Executables
 from pkm.build.pkm_builders import build_wheel
-from pkm.repositories.file_system_repository import FILE_SYSTEM_REPOSITORY_TYPE
 from pkm.utils.entrypoints import EntryPoint, ObjectReference
 from pkm.utils.files import temp_dir, mkdir, CopyTransaction, path_to, is_empty_directory, is_relative_to
 from pkm.utils.hashes import HashSignature
@@ -129,13 +126,6 @@ class PackageContainers:
             pyprj = PyProjectConfiguration.load(tdir / 'pyproject.toml')
 
             if isinstance(app, Project):
-                repocfg = RepositoriesConfiguration.load(tdir / REPOSITORIES_CONFIGURATION_PATH)
-                repocfg.repositories = [RepositoryInstanceConfig.from_config('wrapped-project', {
-                    'type': FILE_SYSTEM_REPOSITORY_TYPE,
-                    'path': app.path
-                })]
-
-                repocfg.save()
                 app = app.descriptor.to_dependency()
 
             wrapper_name = app.package_name + _CONTAINERIZED_WRAPPER_SUFFIX
@@ -303,7 +293,8 @@ class PackageContainers:
             return self._install(app, store_mode)
 
         # wrapped packages come from the repositories of the environment, the wrapper does not have any
-        repository = None if isinstance(app, Project) else self._target.env.attached_repository
+        # (wrapped projects come from their own repository, with their dependencies)
+        repository = (app if isinstance(app, Project) else self._target.env).attached_repository
         with self._wrapper_project(app) as prj:
             return self._install(prj, store_mode, repository)
 
-- 
2.43.0

