From 9525b57ef164d178a7372d1aa3f4ab69e0b37a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 1/6] fix: Material::setComposition accumulates amounts given
 for a repeated name

The fractions are normalised by the sum of all the amounts, but a name given
more than once kept only its last share, so the composition did not add up to 1.
---
 src/fisx_material.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_material.cpp b/src/fisx_material.cpp
index f531107..4982985 100644
--- a/src/fisx_material.cpp
+++ b/src/fisx_material.cpp
@@ -140,7 +140,7 @@ void Material::setComposition(const std::vector<std::string> & names, const std:
 
     for (i = 0; i < amounts.size(); ++i)
     {
-        this->composition[names[i]] = amounts[i] / total;
+        this->composition[names[i]] += amounts[i] / total;
     }
 
 }
-- 
2.43.0


From f0c1589cd7ff17ddd84c2fa82f8965952d8dd7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:34 +0000
Subject: [PATCH 2/6] fix: Beam::setBeam accepts a NULL characteristic array of
 doubles, as documented

---
 src/fisx_beam.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fisx_beam.cpp b/src/fisx_beam.cpp
index cc5095a..bc46a1e 100644
--- a/src/fisx_beam.cpp
+++ b/src/fisx_beam.cpp
@@ -177,6 +177,12 @@ void Beam::setBeam(const int & nValues, const double *energy, const double *weig
     int i;
     std::vector<int> flags;
 
+    if ((characteristic == NULL) || (nValues < 1))
+    {
+        this->setBeam(nValues, energy, weight, (const int *) NULL, divergency);
+        return;
+    }
+
     flags.resize(nValues);
     for (i = 0; i < nValues; i++)
     {
-- 
2.43.0


From c98842b39dc153ed396345d9ed41cf913b38a4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 3/6] fix: EPDL97::getInterpolationIndices does not depend on
 previous searches outside the table

---
 src/fisx_epdl97.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index b19f6d9..a25c310 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -782,15 +782,21 @@ std::pair<long, long> EPDL97::getInterpolationIndices(const std::vector<double>
     int counter;
     std::pair<long, long> result;
 
-    // try if last point is of any use
     length = vec.size();
-    if (lastI0 >= (int) length)
+    if (length < 2)
     {
-        lastI0 = (long) (length - 1);
+        result.first = 0;
+        result.second = 0;
+        return result;
+    }
+    // try if last point is of any use (the starting interval needs two points)
+    if (lastI0 > (long) (length - 2))
+    {
+        lastI0 = (long) (length - 2);
     }
     if (x < vec[lastI0])
     {
-        iMax = lastI0;
+        iMax = (lastI0 > 0) ? lastI0 : 1;
         iMin = 0;
     }
     else
-- 
2.43.0


From 77b0de4550368aeb7c3ef363b7d52cda59ff0481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 4/6] fix: Element::getInterpolationIndices of a table with a
 single energy stays inside the table

---
 src/fisx_element.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index b3292ba..3088ee0 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1568,6 +1568,14 @@ std::pair<long, long> Element::getInterpolationIndices(const std::vector<double>
     std::pair<long, long> result;
     std::vector<double>::const_iterator c_it;
 
+    if (vec.size() < 2)
+    {
+        // a single point
+        result.first = 0;
+        result.second = 0;
+        return result;
+    }
+
     c_it = std::lower_bound(vec.begin(), vec.end(), x);
 
     if (c_it == vec.end())
-- 
2.43.0


From 632aa148745835f6ff32ea62903d7aafc24feb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 5/6] fix: EPDL97::getInterpolationIndices returns the same
 interval for a tabulated energy whatever was searched before

---
 src/fisx_epdl97.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index a25c310..c54808c 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -794,7 +794,8 @@ std::pair<long, long> EPDL97::getInterpolationIndices(const std::vector<double>
     {
         lastI0 = (long) (length - 2);
     }
-    if (x < vec[lastI0])
+    // a tabulated energy is always the end of the interval, wherever the previous search ended
+    if (x <= vec[lastI0])
     {
         iMax = (lastI0 > 0) ? lastI0 : 1;
         iMin = 0;
-- 
2.43.0


From 464729ca9883d9993657cf20dba766567c42782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:14 +0000
Subject: [PATCH 6/6] fix: Shell::setNonradiativeTransitions from C arrays
 keeps transitions of an earlier call

---
 src/fisx_shell.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fisx_shell.cpp b/src/fisx_shell.cpp
index 3790d33..be23344 100644
--- a/src/fisx_shell.cpp
+++ b/src/fisx_shell.cpp
@@ -183,6 +183,9 @@ void Shell::setNonradiativeTransitions(std::map<std::string, double> inputMap)
 void Shell::setNonradiativeTransitions(const char *c_strings[], const double *values, int nValues)
 {
     int i;
+
+    // empty current list
+    this->nonradiativeTransitions.clear();
     for(i=0; i < nValues; i++)
     {
         this->nonradiativeTransitions[this->toUpperCaseString(std::string(c_strings[i]))] = values[i];
-- 
2.43.0

