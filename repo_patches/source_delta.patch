From b6b57324b6ac240845aff05f8b9b6f1b1a01a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 1/3] fix: build the NaN placeholder in floating point whatever
 the reference dtype

With an integer reference np.full_like casts NaN to the smallest integer, so
an omitted control was taken for a real one.
---
 src/kalmankit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalmankit/utils.py b/src/kalmankit/utils.py
index f386b5b..e9c1839 100644
--- a/src/kalmankit/utils.py
+++ b/src/kalmankit/utils.py
@@ -30,7 +30,7 @@ def check_none_and_broadcast(
         Array with np.nan values or original array if is not None.
     """
     if arr is None:
-        arr = np.full_like(broad_to, np.nan)
+        arr = np.full_like(broad_to, np.nan, dtype=float)
 
     return arr
 
-- 
2.43.0


From 4ea2254711d917d0c6d8b668433cc312a6b0f60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 2/3] fix: let predict take None for the control matrix or
 vector as documented

---
 src/kalmankit/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalmankit/standard.py b/src/kalmankit/standard.py
index c930a92..328ea6a 100644
--- a/src/kalmankit/standard.py
+++ b/src/kalmankit/standard.py
@@ -176,7 +176,7 @@ class KalmanFilter:
             Prior value of state covariance.
         """
         # project state ahead
-        if is_nan_all(Bk) or is_nan_all(uk):
+        if Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk):
             xk_prior = Ak @ xk
         else:
             xk_prior = Ak @ xk + Bk @ uk
-- 
2.43.0


From 94ec6d6cd28eca95a30e2b8982e2405e94f7de24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:25 +0000
Subject: [PATCH 3/3] fix: raise NotThisMethod when git rev-list or git show
 fails

---
 src/kalmankit/_version.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/kalmankit/_version.py b/src/kalmankit/_version.py
index f60db0f..c03c35a 100644
--- a/src/kalmankit/_version.py
+++ b/src/kalmankit/_version.py
@@ -404,12 +404,15 @@ def git_pieces_from_vcs(
         # HEX: no tags
         pieces["closest-tag"] = None
         out, rc = runner(GITS, ["rev-list", "HEAD", "--left-right"], cwd=root)
+        if out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = len(out.split())  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)[
-        0
-    ].strip()
+    date, rc = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)
+    if date is None:
+        raise NotThisMethod("'git show' failed")
+    date = date.strip()
     # Use only the last line.  Previous lines may contain GPG signature
     # information.
     date = date.splitlines()[-1]
-- 
2.43.0

