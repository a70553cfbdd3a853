From 850496613d431e799525cc5fa15df83534c8dfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 01/50] fix: JSON report of crosses, coverpoint names and bin
 goals

report_cross called a method that does not exist (every report with a cross
failed) and left out the cross coverage; type covergroups could not hold
crosses; coverpoint names and bin goals, members of the report schema, were
never written.
---
 src/ucis/report/format_rpt_json.py | 8 ++++++--
 src/ucis/schema/covreport.json     | 5 +++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ucis/report/format_rpt_json.py b/src/ucis/report/format_rpt_json.py
index c16acbf..f2eba5c 100644
--- a/src/ucis/report/format_rpt_json.py
+++ b/src/ucis/report/format_rpt_json.py
@@ -100,6 +100,7 @@ class FormatRptJson(FormatIfRpt):
     def report_coverpoint(self, cp : CoverageReport.Coverpoint):
         
         cp_j = self._ns.Coverpoint()
+        cp_j.name = cp.name
         cp_j.coverage = cp.coverage
         
         if self.details:
@@ -108,6 +109,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cp.bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cp_j.bins.append(b_j)
             if cp.ignore_bins is not None and len(cp.ignore_bins) > 0:
@@ -115,6 +117,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cp.ignore_bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cp_j.ignorebins.append(b_j)
             if cp.illegal_bins is not None and len(cp.illegal_bins) > 0:
@@ -122,6 +125,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cp.illegal_bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cp_j.illegalbins.append(b_j)
 
@@ -132,8 +136,7 @@ class FormatRptJson(FormatIfRpt):
         cr_j = self._ns.Cross()
         cr_j.name = cr.name
         cr_j.weight = cr.weight
-        
-        self.writeln("CROSS %s : %f%%", cr.name, round(cr.coverage))
+        cr_j.coverage = cr.coverage
         
         if self.details:
             if cr.bins is not None:
@@ -141,6 +144,7 @@ class FormatRptJson(FormatIfRpt):
                 for b in cr.bins:
                     b_j = self._ns.CoverBin()
                     b_j.name = b.name
+                    b_j.goal = b.goal
                     b_j.count = b.count
                     cr_j.bins.append(b_j)
 
diff --git a/src/ucis/schema/covreport.json b/src/ucis/schema/covreport.json
index 756c4e1..58e0e1a 100644
--- a/src/ucis/schema/covreport.json
+++ b/src/ucis/schema/covreport.json
@@ -42,6 +42,11 @@
 					"type": "array",
 					"items": { "$ref": "#/defs/coverpointType" }
 				},
+				"crosses": {
+					"description": "List of cross coverpoints",
+					"type": "array",
+					"items": { "$ref": "#/defs/crossType" }
+				},
 				"covergroups": {
 					"description": "List of instance covergroups",
 					"type": "array",
-- 
2.43.0


From f6b2c28a7b066dca4545226bc1bb6293e625983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 02/50] fix: overall report coverage spans all design instances

It was overwritten by each design instance in turn, and a design instance
without (weighted) covergroups raised ZeroDivisionError.
---
 src/ucis/report/coverage_report_builder.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index 0a01b93..0947f1e 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -35,22 +35,26 @@ class CoverageReportBuilder(object):
         for iscope in self.db.scopes(ScopeTypeT.INSTANCE):
             self.build_covergroups(iscope)
             
+        # Overall coverage is the weighted mean of all type covergroups
+        coverage = 0.0
+        div = 0
+        
+        for cg in self.report.covergroups:
+            if cg.weight > 0:
+                coverage += cg.coverage * cg.weight
+            div += cg.weight
+            
+        if div > 0: self.report.coverage = coverage/div
+            
         return self.report
             
 
     def build_covergroups(self, iscope):
         
-        coverage = 0.0
-        div = 0
-        
         for cg_t in iscope.scopes(ScopeTypeT.COVERGROUP):
             cg = self.build_covergroup(cg_t)
-            if cg.weight > 0:
-                coverage += cg.coverage * cg.weight
-            div += cg.weight
             self.report.covergroups.append(cg)
             self.report.covergroup_m[cg.instname] = cg
-        self.report.coverage = coverage/div
             
     def build_covergroup(self, cg_n)->CoverageReport.Covergroup:
         cg_r = CoverageReport.Covergroup(
-- 
2.43.0


From 36440aa5ed988cf444173af4588a963dd1547363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 03/50] fix: populate the by-name maps of covergroups in the
 coverage report

coverpoint_m, cross_m and covergroup_m are documented as maps of the listed
objects but were always empty.
---
 src/ucis/report/coverage_report_builder.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index 0947f1e..e0a1554 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -64,13 +64,17 @@ class CoverageReportBuilder(object):
         cg_r.weight = cg_n.getWeight()
         
         for cp_in in cg_n.scopes(ScopeTypeT.COVERPOINT):
-            cg_r.coverpoints.append(self.build_coverpoint(cp_in))
+            cg_r.add_coverpoint(self.build_coverpoint(cp_in))
             
         for cr_in in cg_n.scopes(ScopeTypeT.CROSS):
-            cg_r.crosses.append(self.build_cross(cr_in))
+            cr_r = self.build_cross(cr_in)
+            cg_r.crosses.append(cr_r)
+            cg_r.cross_m[cr_r.name] = cr_r
 
         for cg_in in cg_n.scopes(ScopeTypeT.COVERINSTANCE):
-            cg_r.covergroups.append(self.build_covergroup(cg_in))
+            cg_i = self.build_covergroup(cg_in)
+            cg_r.covergroups.append(cg_i)
+            cg_r.covergroup_m[cg_i.instname] = cg_i
             
         # Determine the covergroup coverage
         coverage = 0.0
-- 
2.43.0


From 5af125b66d99bfc25f3e0f496db43e512d2a11e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:16 +0000
Subject: [PATCH 04/50] fix: report crosses with their weight and their bins'
 at_least

A cross always counted with weight 1, and its bins were listed with goal 1
whatever their at_least, contradicting the cross percentage.
---
 src/ucis/report/coverage_report_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/report/coverage_report_builder.py b/src/ucis/report/coverage_report_builder.py
index e0a1554..316c825 100644
--- a/src/ucis/report/coverage_report_builder.py
+++ b/src/ucis/report/coverage_report_builder.py
@@ -141,6 +141,7 @@ class CoverageReportBuilder(object):
 
     def build_cross(self, cr_n : Cross):
         cr_r = CoverageReport.Cross(cr_n.getScopeName())
+        cr_r.weight = cr_n.getWeight()
         
         # Read in bins
         num_hit = 0
@@ -153,7 +154,7 @@ class CoverageReportBuilder(object):
                 
             cr_r.bins.append(CoverageReport.CoverBin(
                     ci_n.getName(),
-                    cvg_data.goal,
+                    cvg_data.at_least,
                     cvg_data.data))
 
             total += 1
-- 
2.43.0


From cd3f0d4fa149670cf4d5c1f3d92d17515478859a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:46 +0000
Subject: [PATCH 05/50] fix: YAML ignore/illegal bins keep their kind in the
 type coverage

They were appended to the ordinary bins of the type coverpoint, lowering or
raising the reported coverage.
---
 src/ucis/yaml/yaml_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index aba3b0f..acc3fdd 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -163,7 +163,7 @@ class YamlReader(object):
                                     t_b = self.cvg_ns.CoverageBin()
                                     t_b.name = str(b.name)
                                     t_b.count = 0
-                                    cp_t.bins.append(t_b)
+                                    cp_t.ignorebins.append(t_b)
                                 t_b.count += b.count
                                 
                         if cp.illegalbins is not None:
@@ -180,7 +180,7 @@ class YamlReader(object):
                                     t_b = self.cvg_ns.CoverageBin()
                                     t_b.name = str(b.name)
                                     t_b.count = 0
-                                    cp_t.bins.append(t_b)
+                                    cp_t.illegalbins.append(t_b)
                                 t_b.count += b.count
                         
                 if cg_i.crosses is not None:
-- 
2.43.0


From eb022832b1f042ac84f11a1ba9add1a76f49a2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:46 +0000
Subject: [PATCH 06/50] fix: YAML at-least thresholds apply to the type
 coverage

Type-level coverpoints and crosses were always created with threshold 1.
---
 src/ucis/yaml/yaml_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index acc3fdd..ab77f08 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -126,6 +126,8 @@ class YamlReader(object):
                         if str(cp.name) not in cp_t_m.keys():
                             cp_t = self.cvg_ns.Coverpoint()
                             cp_t.name = str(cp.name)
+                            if cp.atleast is not None:
+                                cp_t.atleast = int(cp.atleast)
                             cp_t_m[cp_t.name] = cp_t
                             cp_t_l.append(cp_t)
                         else:
@@ -191,6 +193,8 @@ class YamlReader(object):
                         if str(cr.name) not in cr_t_m.keys():
                             cr_t = self.cvg_ns.Cross()
                             cr_t.name = str(cr.name)
+                            if cr.atleast is not None:
+                                cr_t.atleast = int(cr.atleast)
                             cr_t.coverpoints = []
                             for cr_cp in cr.coverpoints:
                                 cr_t.coverpoints.append(cr_cp)
-- 
2.43.0


From ded39dfab691280d7d7d0e38b8f4a6273b8cb9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:46 +0000
Subject: [PATCH 07/50] fix: YAML cross without bins in its first instance

Loading failed when only a later instance listed bins for the cross.
---
 src/ucis/yaml/yaml_reader.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index ab77f08..a7618a6 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -201,15 +201,14 @@ class YamlReader(object):
                             cr_t_bins_m = {}
                             cr_t_m[str(cr.name)] = (cr_t, cr_t_bins_m)
                             cr_t_l.append(cr_t)
-                            
-                            if cr.bins is not None:
-                                cr_t.bins = []
                         else:
                             cr_t = cr_t_m[str(cr.name)][0]
                             cr_t_bins_m = cr_t_m[str(cr.name)][1]
                             
                         # Now, proceed to aggregate bins
                         if cr.bins is not None:
+                            if cr_t.bins is None:
+                                cr_t.bins = []
                             for b in cr.bins:
                                 if b.name in cr_t_bins_m.keys():
                                     cr_t_bins_m[str(b.name)].count += b.count
-- 
2.43.0


From 91dbefc9be8c2b090d2cf4816e6d96da25f768c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 08/50] fix: YAML covergroups without instances, and
 per-instance crosses

'instances' is optional, but its absence raised TypeError after the warning;
and a cross could silently bind to a coverpoint of an earlier instance when
its own instance does not define that coverpoint.
---
 src/ucis/yaml/yaml_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/yaml/yaml_reader.py b/src/ucis/yaml/yaml_reader.py
index a7618a6..3a3fa71 100644
--- a/src/ucis/yaml/yaml_reader.py
+++ b/src/ucis/yaml/yaml_reader.py
@@ -248,8 +248,8 @@ class YamlReader(object):
             self.record_cross(cg_t_scope, cp_l, cr)
 
         # Now, write out instances
-        cp_n_scope_m = {}
-        for i in cg_t.instances:
+        for i in (cg_t.instances if cg_t.instances is not None else []):
+            cp_n_scope_m = {}
             cg_i_scope = cg_t_scope.createCoverInstance(
                 str(i.name),
                 cg_location,
-- 
2.43.0


From bab9303f608cbc031c43d9b2fac8fb2cbc5171be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 09/50] fix: keep weights and at-least thresholds across XML

Neither was written, and the options a document gives were not read, so a
covergroup reported differently once it had been through a file.
---
 src/ucis/xml/xml_reader.py | 29 +++++++++++++++++++----------
 src/ucis/xml/xml_writer.py | 19 +++++++++++++++----
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index c51da9a..677e902 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -181,7 +181,7 @@ class XmlReader():
             cg_typescope = inst_scope.createCovergroup(
                 cg_typename,
                 None,
-                1,
+                int(self.getAttr(cg, "weight", "1")),
                 UCIS_OTHER)
 
             # Process all instances of a given covergroup type
@@ -201,7 +201,7 @@ class XmlReader():
             cg_i = cg_t.createCoverInstance(
                 cg_i_name, 
                 srcinfo,
-                1,
+                self.getOption(cg_e, "weight"),
                 UCIS_OTHER)
 
             # Build up a map of coverpoint name/inst-handle refs
@@ -216,8 +216,9 @@ class XmlReader():
                     cp_t = cg_t.createCoverpoint(
                         cp_name,
                         srcinfo,
-                        1,
+                        self.getOption(cp_e, "weight"),
                         UCIS_OTHER)
+                    cp_t.setAtLeast(self.getOption(cp_e, "at_least"))
 
                     # Tuple of coverpoint type and map between
                     # bin name and count
@@ -249,9 +250,10 @@ class XmlReader():
                     cr_t = cg_t.createCross(
                         cp_name,
                         srcinfo,
-                        1,
+                        self.getOption(cr_e, "weight"),
                         UCIS_OTHER,
                         cp_l)
+                    cr_t.setAtLeast(self.getOption(cr_e, "at_least"))
 
                     cr_i = (cr_t, {})
                     cr_m[cp_name] = cr_i
@@ -280,8 +282,9 @@ class XmlReader():
         cp = cg_i.createCoverpoint(
             self.getAttr(cp_e, "name", "<unknown>"),
             srcinfo,
-            1, # weight
+            self.getOption(cp_e, "weight"),
             UCIS_OTHER)
+        cp.setAtLeast(self.getOption(cp_e, "at_least"))
         
         for cpBin in cp_e.iter("coverpointBin"):
             self.readCoverpointBin(cpBin, cp, cp_type_i)
@@ -325,7 +328,7 @@ class XmlReader():
         cp.createBin(
             cp_bin_name,
             srcinfo,
-            1,
+            cp.getAtLeast(),
             cp_bin_count,
             self.getAttr(cpBin, "name", "default"),
             kind)
@@ -337,7 +340,7 @@ class XmlReader():
             cp_t.createBin(
                 bin_name,
                 srcinfo,
-                1,
+                cp_t.getAtLeast(),
                 count,
                 bin_name,
                 kind)
@@ -359,9 +362,10 @@ class XmlReader():
         cr = cg_i.createCross(
             name,
             srcinfo,
-            1, # weight
+            self.getOption(cr_e, "weight"),
             UCIS_OTHER,
             cp_l)
+        cr.setAtLeast(self.getOption(cr_e, "at_least"))
         
         for crb_e in cr_e.iter("crossBin"):
             self.readCrossBin(crb_e, cr, cr_type_i)
@@ -376,7 +380,7 @@ class XmlReader():
             cr_t.createBin(
                 bin_name,
                 srcinfo,
-                1, # weight
+                cr_t.getAtLeast(),
                 count,
                 "") # TODO:
         pass
@@ -396,7 +400,7 @@ class XmlReader():
         cr.createBin(
             name,
             srcinfo,
-            1, # weight
+            cr.getAtLeast(),
             count,
             "") # TODO:
 
@@ -463,6 +467,11 @@ class XmlReader():
         else:
             return default
         
+    def getOption(self, node, name):
+        """Returns an integer member of the node's options (default=1)"""
+        opts = node.find("options")
+        return int(self.getAttr(opts, name, "1")) if opts is not None else 1
+        
     def getAttrBool(self, e, name):
         if e.attrib[name] == "true":
             return True
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 722670a..3167d6d 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -172,7 +172,7 @@ class XmlWriter():
     def write_covergroups(self, inst, scope):
         for cg in scope.scopes(ScopeTypeT.COVERGROUP):
             cgElem = self.mkElem(inst, "covergroupCoverage")
-#            self.setAttr(cgElem, "weight", str(scope.getWeight()))
+            self.setAttr(cgElem, "weight", str(cg.getWeight()))
 
             inst_it = cg.scopes(ScopeTypeT.COVERINSTANCE)
             
@@ -221,7 +221,7 @@ class XmlWriter():
         self.setAttr(cpElem, "name", cp.getScopeName())
         self.setAttr(cpElem, "key", "0")
         
-        self.write_options(cpElem, cp)
+        self.write_point_options(cpElem, cp)
         
         self.write_coverpoint_bins(cpElem, cp.coverItems(
             CoverTypeT.CVGBIN|CoverTypeT.IGNOREBIN|CoverTypeT.ILLEGALBIN))
@@ -261,7 +261,7 @@ class XmlWriter():
         crossElem = self.mkElem(cgInstElem, "cross")
         self.setAttr(crossElem, "name", cr.getScopeName())
         self.setAttr(crossElem, "key", "0")
-        self.write_options(crossElem, cr)
+        self.write_point_options(crossElem, cr)
 
         # Each cross expression lists one element of the cross        
 
@@ -289,7 +289,18 @@ class XmlWriter():
             
     
     def write_options(self, parent, opts_item):
-        self.mkElem(parent, "options")
+        optsElem = self.mkElem(parent, "options")
+        self.setAttr(optsElem, "weight", str(opts_item.getWeight()))
+        return optsElem
+        
+    def write_point_options(self, parent, point):
+        # The interchange format holds a single at_least value per 
+        # coverpoint or cross, while the library keeps it with each bin
+        at_least = [b.getCoverData().at_least for b in point.coverItems(
+            CoverTypeT.CVGBIN|CoverTypeT.IGNOREBIN|CoverTypeT.ILLEGALBIN)]
+        optsElem = self.write_options(parent, point)
+        self.setAttr(optsElem, "at_least", 
+                     str(max(at_least) if at_least else point.getAtLeast()))
         
 
     def write_statement_id(self, stmt_id : StatementId, p, name="id"):
-- 
2.43.0


From 9ab6ed04d73e7ca24468c8b1e1ded051059d519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 10/50] fix: keep ignore and illegal cross bins across XML

All cross bins were written as 'default' and read as ordinary bins, changing
the cross coverage.
---
 src/ucis/xml/xml_reader.py | 22 ++++++++++++++++------
 src/ucis/xml/xml_writer.py |  7 ++++++-
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 677e902..634e96e 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -375,14 +375,14 @@ class XmlReader():
     def populateCrossType(self, cr_t, cr_bin_m):
         srcinfo = None
 
-        for bin_name,count in cr_bin_m.items():
-            cr_t.createBin
+        for bin_name,(kind,count) in cr_bin_m.items():
             cr_t.createBin(
                 bin_name,
                 srcinfo,
                 cr_t.getAtLeast(),
                 count,
-                "") # TODO:
+                "", # TODO:
+                kind)
         pass
     
     def readCrossBin(self, crb_e, cr, cr_type_i):
@@ -392,17 +392,27 @@ class XmlReader():
 
         count = self.getAttrInt(contentsN, "coverageCount")
 
+        kind_a = self.getAttr(crb_e, "type", "default")
+        kind = UCIS_CVGBIN
+
+        if kind_a == "ignore":
+            kind = UCIS_IGNOREBIN
+        elif kind_a == "illegal":
+            kind = UCIS_ILLEGALBIN
+
         if name in cr_type_i[1].keys():
-            cr_type_i[1][name] += count
+            entry = cr_type_i[1][name]
+            cr_type_i[1][name] = (entry[0], entry[1] + count)
         else:
-            cr_type_i[1][name] = count
+            cr_type_i[1][name] = (kind, count)
 
         cr.createBin(
             name,
             srcinfo,
             cr.getAtLeast(),
             count,
-            "") # TODO:
+            "", # TODO:
+            kind)
 
         
 
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 3167d6d..75c09e5 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -279,7 +279,12 @@ class XmlWriter():
             crBinElem = self.mkElem(crossElem, "crossBin")
             self.setAttr(crBinElem, "name", cr_bin.getName())
             self.setAttr(crBinElem, "key", "0")
-            self.setAttr(crBinElem, "type", "default") # TOOD: illegal, ignore
+            if cov_data.type == CoverTypeT.IGNOREBIN:
+                self.setAttr(crBinElem, "type", "ignore")
+            elif cov_data.type == CoverTypeT.ILLEGALBIN:
+                self.setAttr(crBinElem, "type", "illegal")
+            else:
+                self.setAttr(crBinElem, "type", "default")
             
             index = self.mkElem(crBinElem, "index")
             index.text = "-1" # Note: this is a meaningless value
-- 
2.43.0


From 9750c2baa36c0f451a3fa75066403e8cf86f0565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 11/50] fix: an XmlReader can be used for more than one
 document

Scopes of an earlier document were reused for a later one with the same
instance or module names, so its coverage went into the earlier database.
---
 src/ucis/xml/xml_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 634e96e..8668b85 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -58,6 +58,9 @@ class XmlReader():
         tree = etree.parse(file)
         root = tree.getroot()
         self.db = MemUCIS()
+        self.file_m = {}
+        self.module_scope_m = {}
+        self.inst_scope_m = {}
         
         for elem in root.getiterator():
             if not hasattr(elem.tag, 'find'): continue  # (1)
-- 
2.43.0


From cdd66406ac8482062189e6215ab234f0296e6511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:54 +0000
Subject: [PATCH 12/50] fix: write the module name of design instances to XML

The reader takes the design unit from moduleName, which was never written, so
every design unit came back as 'default'.
---
 src/ucis/xml/xml_writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 75c09e5..1e24cef 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -160,10 +160,12 @@ class XmlWriter():
             # TODO: userAttr
             
     def write_instance_coverages(self, s):
-        # TODO: determine the du_scope associated with this instance
         inst = self.mkElem(self.root, "instanceCoverages")
         inst.set("name", s.getScopeName())
         inst.set("key", "0") # TODO:
+        du = s.getInstanceDu()
+        if du is not None:
+            inst.set("moduleName", du.getScopeName())
         self.addId(inst, None)
         
         self.write_covergroups(inst, s)
-- 
2.43.0


From aa58259bb7998c884c0430170ab9b93dfb18f316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 13/50] fix: history nodes read from XML keep their kind

The kind came back as a string, so historyNodes(kind) found no node of any
kind in a database read from a file.
---
 src/ucis/xml/xml_reader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 8668b85..cf4df9e 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -33,6 +33,7 @@ from ucis import UCIS_ENABLED_STMT, UCIS_ENABLED_BRANCH, UCIS_ENABLED_COND, \
     UCIS_ENABLED_EXPR, UCIS_ENABLED_FSM, UCIS_ENABLED_TOGGLE, UCIS_INST_ONCE, \
     UCIS_SCOPE_UNDER_DU, UCIS_DU_MODULE, UCIS_OTHER, du_scope, UCIS_INSTANCE,\
     UCIS_CVGBIN, UCIS_IGNOREBIN, UCIS_ILLEGALBIN
+from ucis.history_node_kind import HistoryNodeKind
 from ucis.mem.mem_file_handle import MemFileHandle
 from ucis.mem.mem_scope import MemScope
 from ucis.mem.mem_ucis import MemUCIS
@@ -100,6 +101,11 @@ class XmlReader():
         logicalname = histN.get("logicalName")
         physicalname = self.getAttr(histN, "physicalName", None)
         kind = self.getAttr(histN, "kind", None)
+        try:
+            kind = HistoryNodeKind(int(kind))
+        except (TypeError, ValueError):
+            # Not a UCIS history-node kind. Leave as-is
+            pass
         
         ret = self.db.createHistoryNode(parent, logicalname, physicalname, kind)
         ret.setTestStatus(self.getAttrBool(histN, "testStatus"))
-- 
2.43.0


From a58d28c4d26889cef8823637df5994e9e586224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 14/50] fix: failed tests stay failed in history nodes and
 across XML

All test status values are non-zero, so every test was written as passed;
reading gave a bool in place of a TestStatusT, and the integer property
collapsed all statuses to 0 or 1.
---
 src/ucis/mem/mem_history_node.py | 4 ++--
 src/ucis/xml/xml_reader.py       | 4 +++-
 src/ucis/xml/xml_writer.py       | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ucis/mem/mem_history_node.py b/src/ucis/mem/mem_history_node.py
index 11fb9f9..6493de9 100644
--- a/src/ucis/mem/mem_history_node.py
+++ b/src/ucis/mem/mem_history_node.py
@@ -67,7 +67,7 @@ class MemHistoryNode(HistoryNode):
         coverindex:int, 
         property:IntProperty)-> int:
         if property == IntProperty.TEST_STATUS:
-            return 1 if self.m_test_status else 0
+            return int(self.m_test_status)
         else:
             return super().getIntProperty(coverindex, property)
         
@@ -77,7 +77,7 @@ class MemHistoryNode(HistoryNode):
         property:IntProperty, 
         value:int):
         if property == IntProperty.TEST_STATUS:
-            self.m_test_status = (value==1)
+            self.m_test_status = value
         else:
             super().setIntProperty(coverindex, property, value)
     
diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index cf4df9e..08e5e33 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -38,6 +38,7 @@ from ucis.mem.mem_file_handle import MemFileHandle
 from ucis.mem.mem_scope import MemScope
 from ucis.mem.mem_ucis import MemUCIS
 from ucis.statement_id import StatementId
+from ucis.test_status_t import TestStatusT
 from ucis.ucis import UCIS
 from ucis.xml import validate_ucis_xml
 
@@ -108,7 +109,8 @@ class XmlReader():
             pass
         
         ret = self.db.createHistoryNode(parent, logicalname, physicalname, kind)
-        ret.setTestStatus(self.getAttrBool(histN, "testStatus"))
+        ret.setTestStatus(
+            TestStatusT.OK if self.getAttrBool(histN, "testStatus") else TestStatusT.ERROR)
         self.setFloatIfEx(histN, ret.setSimTime, "simtime")
         self.setIfEx(histN, ret.setTimeUnit, "timeunit")
         self.setIfEx(histN, ret.setRunCwd, "runCwd")
diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 1e24cef..c8ac84a 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -33,6 +33,7 @@ from ucis.history_node_kind import HistoryNodeKind
 from ucis.scope import Scope
 from ucis.scope_type_t import ScopeTypeT
 from ucis.statement_id import StatementId
+from ucis.test_status_t import TestStatusT
 
 from lxml import etree as et
 from lxml.etree import QName, tounicode, SubElement
@@ -108,7 +109,7 @@ class XmlWriter():
             histN.set("logicalName", h.getLogicalName())
             self.setIfNonNull(histN, "physicalName", h.getPhysicalName())
             self.setIfNonNull(histN, "kind", h.getKind())
-            self.setAttrBool(histN, "testStatus", h.getTestStatus())
+            self.setAttrBool(histN, "testStatus", h.getTestStatus() == TestStatusT.OK)
             self.setIfNonNeg(histN, "simtime", h.getSimTime())
             self.setIfNonNull(histN, "timeunit", h.getTimeUnit())
             self.setIfNonNull(histN, "runCwd", h.getRunCwd())
-- 
2.43.0


From ad47b1b3d2c9e459ec3ec48c647c36276d31882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 15/50] fix: accept 1 as a true xsd:boolean

A schema-valid testStatus="1" was read as a failed test.
---
 src/ucis/xml/xml_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 08e5e33..9059725 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -494,7 +494,7 @@ class XmlReader():
         return int(self.getAttr(opts, name, "1")) if opts is not None else 1
         
     def getAttrBool(self, e, name):
-        if e.attrib[name] == "true":
+        if e.attrib[name].strip() in ("true", "1"):
             return True
         else:
             return False
-- 
2.43.0


From 244c3663245da15eec45772331a281509b4cd866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 16/50] fix: default date of a history node can be written

The library represents dates as YYYYMMDDHHMMSS strings; the default was an
int time stamp, and writing such a node to XML raised TypeError.
---
 src/ucis/mem/mem_history_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_history_node.py b/src/ucis/mem/mem_history_node.py
index 6493de9..4b75a44 100644
--- a/src/ucis/mem/mem_history_node.py
+++ b/src/ucis/mem/mem_history_node.py
@@ -48,7 +48,7 @@ class MemHistoryNode(HistoryNode):
         self.m_cmd = None
         self.m_args = None
         self.m_compulsory = None
-        self.m_date = int(datetime.timestamp(datetime.now()))
+        self.m_date = datetime.now().strftime("%Y%m%d%H%M%S")
         self.m_user_name = None
         self.m_cost = -1
         self.m_tool_category = "unknown"
-- 
2.43.0


From 4f1ece899d3cea51b5d2b7c507b097981e3d1779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 17/50] fix: read history dates with a timezone or fractional
 seconds

Both are legal xsd:dateTime values but made reading a valid file fail.
---
 src/ucis/xml/xml_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 9059725..788d9ba 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -479,7 +479,8 @@ class XmlReader():
     def getAttrDateTime(self, e, name):
         """Converts ISO time used by XML to the YYYYMMDDHHMMSS format used by the library"""
         val = e.get(name)
-        dateVal = datetime.strptime(val,"%Y-%m-%dT%H:%M:%S")
+        # Fractional seconds and timezone, if present, are not retained
+        dateVal = datetime.strptime(val.strip()[:19],"%Y-%m-%dT%H:%M:%S")
         return dateVal.strftime("%Y%m%d%H%M%S")
     
     def getAttr(self, node, name, default):
-- 
2.43.0


From 7b7dd17bf507c8f2fae4b26a281fb766248861e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 18/50] fix: write history dates unchanged in every timezone

Going through mktime moved times in a daylight-saving gap by an hour.
---
 src/ucis/xml/xml_writer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index c8ac84a..9405e09 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -20,7 +20,6 @@ Created on Jan 5, 2020
 @author: ballance
 '''
 
-import time
 import datetime
 from datetime import datetime
 from datetime import date
@@ -335,8 +334,7 @@ class XmlWriter():
             e.set(name, "false")
 
     def setAttrDateTime(self, e, name, val):
-        val_i = time.mktime(datetime.strptime(val, "%Y%m%d%H%M%S").timetuple())
-        self.setAttr(e, name, datetime.fromtimestamp(val_i).isoformat())
+        self.setAttr(e, name, datetime.strptime(val, "%Y%m%d%H%M%S").isoformat())
             
     def setIfNonNull(self, n, attr, val):
         if val is not None:
-- 
2.43.0


From 941a9adf3178c705598e0c0c2773269ad8a2ec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 19/50] fix: write the cost of a history node as a decimal

Very small or large values were written with an exponent, which the schema
does not allow for cost.
---
 src/ucis/xml/xml_writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 9405e09..38a60df 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -23,6 +23,7 @@ Created on Jan 5, 2020
 import datetime
 from datetime import datetime
 from datetime import date
+from decimal import Decimal
 from typing import Dict, Iterator
 from ucis.cover_index import CoverIndex
 from ucis.cover_type_t import CoverTypeT
@@ -119,7 +120,9 @@ class XmlWriter():
             self.setIfNonNull(histN, "compulsory", h.getCompulsory())
             self.setAttrDateTime(histN, "date", h.getDate())
             self.setIfNonNull(histN, "userName", h.getUserName())
-            self.setIfNonNeg(histN, "cost", h.getCost())
+            if h.getCost() >= 0:
+                # xsd:decimal doesn't allow exponents
+                self.setAttr(histN, "cost", format(Decimal(str(h.getCost())), "f"))
             self.setAttr(histN, "toolCategory", h.getToolCategory())
             self.setAttr(histN, "ucisVersion", h.getUCISVersion())
             self.setAttr(histN, "vendorId", h.getVendorId())
-- 
2.43.0


From 834c3ceb1b75c1fdf45a30880ec1f96a3e0c7724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:08 +0000
Subject: [PATCH 20/50] fix: merge keeps the coverage of same-named scopes of
 one source

Only the last of several instances, covergroups, covergroup instances or
coverpoints of one name within a source was merged; the hits of the others
were silently dropped.
---
 src/ucis/merge/db_merger.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index 1b9ee9b..56a9090 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -37,17 +37,14 @@ class DbMerger(object):
             for src_iscope in db.scopes(ScopeTypeT.INSTANCE):
                 name = src_iscope.getScopeName()
                 if not name in iscope_m.keys():
-                    scope_l = [None]*len(src_db_l)
-                    scope_l[i] = src_iscope
-                    iscope_m[name] = scope_l
+                    iscope_m[name] = []
                     iscope_name_l.append(name)
-                else:
-                    iscope_m[name][i] = src_iscope
+                iscope_m[name].append(src_iscope)
             
         for name in iscope_name_l:
             # We'll create the scope using the first src database
             # that it was in
-            src_scopes = list(filter(lambda e: e is not None, iscope_m[name]))
+            src_scopes = iscope_m[name]
             
             src_iscope = src_scopes[0]
             
@@ -86,13 +83,12 @@ class DbMerger(object):
                 name = src_cg.getScopeName()
                 
                 if name not in cg_name_m.keys():
-                    scope_l = [None]*len(src_scopes)
-                    cg_name_m[name] = scope_l
+                    cg_name_m[name] = []
                     cg_name_l.append(name)
-                cg_name_m[name][i] = src_cg
+                cg_name_m[name].append(src_cg)
 
         for name in cg_name_l:                
-            src_cg_l = list(filter(lambda cg: cg is not None, cg_name_m[name]))
+            src_cg_l = cg_name_m[name]
             
             # Create the destination using the first covergroup
             dst_cg = dst_scope.createCovergroup(
@@ -121,12 +117,12 @@ class DbMerger(object):
                 name = src_cg_i.getScopeName()
                 
                 if name not in cg_i_m.keys():
-                    cg_i_m[name] = [None]*len(src_cg_l)
+                    cg_i_m[name] = []
                     cg_n_l.append(name)
-                cg_i_m[name][i] = src_cg_i
+                cg_i_m[name].append(src_cg_i)
                 
         for name in cg_n_l:
-            src_cg_i_l = list(filter(lambda cg : cg is not None, cg_i_m[name]))
+            src_cg_i_l = cg_i_m[name]
             
             dst_cg_i = dst_cg.createCoverInstance(
                         name,
@@ -147,13 +143,12 @@ class DbMerger(object):
                 name = cp.getScopeName()
                 
                 if name not in cp_name_m.keys():
-                    scope_l = [None]*len(src_cg_l)
-                    cp_name_m[name] = scope_l
+                    cp_name_m[name] = []
                     cp_name_l.append(name)
-                cp_name_m[name][i] = cp
+                cp_name_m[name].append(cp)
                 
         for name in cp_name_l:
-            src_cp_l = list(filter(lambda cp : cp is not None, cp_name_m[name]))
+            src_cp_l = cp_name_m[name]
             
             dst_cp = dst_cg.createCoverpoint(
                 src_cp_l[0].getScopeName(),
-- 
2.43.0


From be6c2cf8d69190dda8f89c7122b0caee3dd11e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:08 +0000
Subject: [PATCH 21/50] fix: exit with a non-zero status when a command fails

---
 src/ucis/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/__main__.py b/src/ucis/__main__.py
index a87ca6a..628c5e8 100644
--- a/src/ucis/__main__.py
+++ b/src/ucis/__main__.py
@@ -88,6 +88,7 @@ def main():
     except Exception as e:
         traceback.print_exc()
         print("Error: %s" % "{0}".format(e))
+        sys.exit(1)
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From 2e6f8dbe306d474714cbf5d7dd69b23fd59911f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:26 +0000
Subject: [PATCH 22/50] fix: honour the declared encoding of XML files

Files were decoded with the locale's encoding before parsing, so UTF-16,
Latin-1 or (outside a UTF-8 locale) UTF-8 documents could not be read.
---
 src/ucis/xml/__init__.py    | 2 +-
 src/ucis/xml/xml_factory.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ucis/xml/__init__.py b/src/ucis/xml/__init__.py
index a5d41a2..15b7456 100644
--- a/src/ucis/xml/__init__.py
+++ b/src/ucis/xml/__init__.py
@@ -39,7 +39,7 @@ def validate_ucis_xml(file_or_filename):
     
     if type(file_or_filename) == str:
         logging.debug("open file")
-        fp = open(file_or_filename, "r")
+        fp = open(file_or_filename, "rb")
     else:
         fp = file_or_filename
         
diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 5f9f0d5..343a722 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -38,16 +38,16 @@ class XmlFactory():
             except ImportError:
                 logging.fatal("Cannot read gzip compressed files since module gzip is not available")
             else:
-                return gzip.open(file_path, 'rt')
+                return gzip.open(file_path, 'rb')
         elif magic0 == b'\x04\x22' and magic1 == b'\x4d\x18':
             try:
                 import lz4.frame
             except ImportError:
                 logging.fatal("Cannot read LZ4 compressed files since module lz4.frame is not available")
             else:
-                return lz4.frame.open(file_path, 'rt')
+                return lz4.frame.open(file_path, 'rb')
         else:
-            return open(file_path, "r")
+            return open(file_path, "rb")
 
     @staticmethod
     def read(file_or_filename) -> UCIS:
-- 
2.43.0


From d3e92142e922cee55011f2fcdd9cbf1d52b0a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:26 +0000
Subject: [PATCH 23/50] fix: write XML files in the encoding they imply

Documents carry no encoding declaration and so must be UTF-8, but were written
in the locale's encoding.
---
 src/ucis/xml/xml_factory.py | 2 +-
 src/ucis/xml/xml_ucis.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 343a722..8394d09 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -84,7 +84,7 @@ class XmlFactory():
         writer = XmlWriter()
         
         if type(file_or_filename) == str:
-            fp = open(file_or_filename, "w")
+            fp = open(file_or_filename, "w", encoding="utf-8")
         else:
             fp = file_or_filename
         
diff --git a/src/ucis/xml/xml_ucis.py b/src/ucis/xml/xml_ucis.py
index 46eb10e..4bba212 100644
--- a/src/ucis/xml/xml_ucis.py
+++ b/src/ucis/xml/xml_ucis.py
@@ -8,5 +8,5 @@ class XmlUCIS(MemUCIS):
 
         writer = XmlWriter()
 
-        with open(file, "w") as fp:
+        with open(file, "w", encoding="utf-8") as fp:
             writer.write(fp, self)
-- 
2.43.0


From 9aa4015c7ee42f8668783b0906a2cef1397f7eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:28 +0000
Subject: [PATCH 24/50] fix: read YAML files independently of the locale's
 encoding

---
 src/ucis/yaml/db_format_if_yaml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/yaml/db_format_if_yaml.py b/src/ucis/yaml/db_format_if_yaml.py
index 1a3213d..1e6e7c5 100644
--- a/src/ucis/yaml/db_format_if_yaml.py
+++ b/src/ucis/yaml/db_format_if_yaml.py
@@ -18,7 +18,7 @@ class DbFormatIfYaml(FormatIfDb):
     def read(self, filename) -> 'UCIS':
         reader = YamlReader()
 
-        with open(filename, "r") as fp:
+        with open(filename, "rb") as fp:
             db = reader.load(fp)
 
         return db
-- 
2.43.0


From 47f76be5a45b1896c748dc4162161489ea2f012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:53 +0000
Subject: [PATCH 25/50] fix: comments of in-memory covergroup scopes readable
 as a string property

---
 src/ucis/mem/mem_cvg_scope.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/ucis/mem/mem_cvg_scope.py b/src/ucis/mem/mem_cvg_scope.py
index 310fde9..2b39ef6 100644
--- a/src/ucis/mem/mem_cvg_scope.py
+++ b/src/ucis/mem/mem_cvg_scope.py
@@ -5,6 +5,7 @@ Created on Jan 12, 2020
 '''
 from ucis.mem.mem_scope import MemScope
 from ucis.cvg_scope import CvgScope
+from ucis.str_property import StrProperty
 
 class MemCvgScope(MemScope,CvgScope):
     
@@ -57,3 +58,22 @@ class MemCvgScope(MemScope,CvgScope):
     def setComment(self, c:str):
         self.m_comment = c
         
+    def getStringProperty(
+            self, 
+            coverindex : int,
+            property : StrProperty)->str:
+        if property == StrProperty.COMMENT:
+            return self.getComment()
+        else:
+            return super().getStringProperty(coverindex, property)
+        
+    def setStringProperty(
+            self,
+            coverindex : int,
+            property : StrProperty,
+            value : str):
+        if property == StrProperty.COMMENT:
+            self.setComment(value)
+        else:
+            super().setStringProperty(coverindex, property, value)
+        
-- 
2.43.0


From 7a512b43a9653d29f956928f26a891d264f8b395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:01 +0000
Subject: [PATCH 26/50] fix: keep an existing XML file when the new content
 cannot be produced

---
 src/ucis/xml/xml_ucis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_ucis.py b/src/ucis/xml/xml_ucis.py
index 4bba212..672f8ee 100644
--- a/src/ucis/xml/xml_ucis.py
+++ b/src/ucis/xml/xml_ucis.py
@@ -1,4 +1,5 @@
 
+from io import StringIO
 from ucis.mem import MemUCIS
 from .xml_writer import XmlWriter
 
@@ -8,5 +9,9 @@ class XmlUCIS(MemUCIS):
 
         writer = XmlWriter()
 
+        # Only open the output once the document is complete
+        doc = StringIO()
+        writer.write(doc, self)
+
         with open(file, "w", encoding="utf-8") as fp:
-            writer.write(fp, self)
+            fp.write(doc.getvalue())
-- 
2.43.0


From 2bb8bcd08bedb50db5d51748eaba9caab3d7625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:09 +0000
Subject: [PATCH 27/50] fix: exchange test data with UCIS libraries as C
 strings

---
 src/ucis/lib/lib_history_node.py |  6 ++--
 src/ucis/lib/lib_test_data.py    | 58 ++++++++++++++++++--------------
 2 files changed, 35 insertions(+), 29 deletions(-)

diff --git a/src/ucis/lib/lib_history_node.py b/src/ucis/lib/lib_history_node.py
index b3630f5..cfd7ef3 100644
--- a/src/ucis/lib/lib_history_node.py
+++ b/src/ucis/lib/lib_history_node.py
@@ -30,12 +30,12 @@ class LibHistoryNode(LibObj, HistoryNode):
             lib_td)
         
     def getTestData(self):
-        lib_td = pointer(LibTestData())
+        lib_td = LibTestData()
         
-        get_lib().ucis_SetTestData(
+        get_lib().ucis_GetTestData(
             self.db,
             self.obj,
-            lib_td)
+            pointer(lib_td))
         
         return lib_td.to_testdata()
     
diff --git a/src/ucis/lib/lib_test_data.py b/src/ucis/lib/lib_test_data.py
index 6be02d4..9ad3081 100644
--- a/src/ucis/lib/lib_test_data.py
+++ b/src/ucis/lib/lib_test_data.py
@@ -5,24 +5,30 @@ Created on Mar 12, 2020
 '''
 
 from _ctypes import Structure
-from ctypes import c_int, c_ulonglong, c_uint, c_wchar_p, c_double, c_wchar
+from ctypes import c_int, c_uint, c_char_p, c_double
 from ucis.test_data import TestData
 
+def _encode(s):
+    return None if s is None else str.encode(s)
+
+def _decode(s):
+    return None if s is None else s.decode()
+
 class LibTestData(Structure):
     _fields_ = [
         ("teststatus", c_uint),
         ("simtime", c_double),
-        ("timeunit", c_wchar_p),
-        ("runcwd", c_wchar_p),
+        ("timeunit", c_char_p),
+        ("runcwd", c_char_p),
         ("cputime", c_double),
-        ("seed", c_wchar_p),
-        ("cmd", c_wchar_p),
-        ("args", c_wchar_p),
+        ("seed", c_char_p),
+        ("cmd", c_char_p),
+        ("args", c_char_p),
         ("compulsory", c_int),
-        ("date", c_wchar_p),
-        ("username", c_wchar_p),
+        ("date", c_char_p),
+        ("username", c_char_p),
         ("cost", c_double),
-        ("toolcategory", c_wchar_p)
+        ("toolcategory", c_char_p)
     ]
 
     @staticmethod
@@ -31,17 +37,17 @@ class LibTestData(Structure):
         ret = LibTestData(
             td.teststatus,
             td.simtime,
-            td.timeunit,
-            td.runcwd,
+            _encode(td.timeunit),
+            _encode(td.runcwd),
             td.cputime,
-            td.seed,
-            td.cmd,
-            td.args,
+            _encode(td.seed),
+            _encode(td.cmd),
+            _encode(td.args),
             td.compulsory,
-            td.date,
-            td.user,
+            _encode(td.date),
+            _encode(td.user),
             td.cost,
-            td.toolcategory
+            _encode(td.toolcategory)
             )        
         
 #         ret = LibTestData(
@@ -65,18 +71,18 @@ class LibTestData(Structure):
     def to_testdata(self):
         ret = TestData(
             self.teststatus,
+            _decode(self.toolcategory),
+            _decode(self.date),
             self.simtime,
-            self.timeunit,
-            self.runcwd,
+            _decode(self.timeunit),
+            _decode(self.runcwd),
             self.cputime,
-            self.seed,
-            self.cmd,
-            self.args,
+            _decode(self.seed),
+            _decode(self.cmd),
+            _decode(self.args),
             self.compulsory,
-            self.date,
-            self.username,
-            self.cost,
-            self.toolcategory)
+            _decode(self.username),
+            self.cost)
         
         return ret
 
-- 
2.43.0


From a702aa0654db69a47cb235cd418cebac5c140f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:09 +0000
Subject: [PATCH 28/50] fix: iterate the history nodes of a UCIS library
 database

---
 src/ucis/lib/lib_history_node_iterator.py | 2 +-
 src/ucis/lib/lib_ucis.py                  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ucis/lib/lib_history_node_iterator.py b/src/ucis/lib/lib_history_node_iterator.py
index 9a792d1..3b38313 100644
--- a/src/ucis/lib/lib_history_node_iterator.py
+++ b/src/ucis/lib/lib_history_node_iterator.py
@@ -20,7 +20,7 @@ class LibHistoryNodeIterator(object):
         next = get_lib().ucis_HistoryScan(self.db, self.iter)
         
         if next is None:
-            get_lib().ucis_FreeIterator(self.iter)
+            get_lib().ucis_FreeIterator(self.db, self.iter)
             raise StopIteration
         
         return LibHistoryNode(self.db, next)
diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 5672837..6b6abe9 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -29,6 +29,7 @@ from ucis.history_node_kind import HistoryNodeKind
 from ucis.int_property import IntProperty
 from ucis.lib.lib_file_handle import LibFileHandle
 from ucis.lib.lib_history_node import LibHistoryNode
+from ucis.lib.lib_history_node_iterator import LibHistoryNodeIterator
 from ucis.lib.lib_scope import LibScope
 from ucis.lib.libucis import _lib, get_ucis_library, get_lib
 from ucis.ucis import UCIS
@@ -92,11 +93,10 @@ class LibUCIS(LibScope,UCIS):
         return LibHistoryNode(self.db, hn)
     
     def getHistoryNodes(self, kind:HistoryNodeKind)->List[HistoryNode]:
-        
-        UCIS.getHistoryNodes(self, kind)
+        return list(self.historyNodes(kind))
         
     def historyNodes(self, kind:HistoryNodeKind)->Iterator[HistoryNode]:
-        UCIS.historyNodes(self, kind)
+        return LibHistoryNodeIterator(self.db, None, kind)
         
     def write(self, file, scope=None, recurse=True, covertype=-1):
         logging.debug("file=" + file)
-- 
2.43.0


From 420cc9919596a2d76c36c359cc678606cc1298e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:09 +0000
Subject: [PATCH 29/50] fix: pass scope and cover masks to UCIS libraries with
 64 bits

---
 src/ucis/lib/libucis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/lib/libucis.py b/src/ucis/lib/libucis.py
index 52e0aad..ed65c37 100644
--- a/src/ucis/lib/libucis.py
+++ b/src/ucis/lib/libucis.py
@@ -50,7 +50,7 @@ fspec = {
         CFUNCTYPE(c_void_p, c_char_p),
         ((1,"file"),)),
     "ucis_Write" : (
-        CFUNCTYPE(c_int, c_void_p, c_char_p, c_void_p, c_int, c_uint),
+        CFUNCTYPE(c_int, c_void_p, c_char_p, c_void_p, c_int, c_uint64),
         ((1,"db"),(1,"file"),(1,"scope"),(1,"recurse"),(1,"covertype"))),
     "ucis_Close" : (
         CFUNCTYPE(c_int, c_void_p),
@@ -98,7 +98,7 @@ fspec = {
         CFUNCTYPE(c_void_p, c_void_p, c_void_p),
         ((1,"db"), (1,"iterator"))),
     "ucis_ScopeIterate" : (
-        CFUNCTYPE(c_void_p, c_void_p, c_void_p, c_uint32),
+        CFUNCTYPE(c_void_p, c_void_p, c_void_p, c_uint64),
         ((1,"db"), (1,"scope"), (1,"scopemask"))),
     "ucis_ScopeScan" : (
         CFUNCTYPE(c_void_p, c_void_p, c_void_p),
-- 
2.43.0


From 1613dc738af93aee6a6b77249bd053dd54fb2fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:09 +0000
Subject: [PATCH 30/50] fix: cross bins of a UCIS library database keep their
 kind

---
 src/ucis/lib/lib_cross.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ucis/lib/lib_cross.py b/src/ucis/lib/lib_cross.py
index 9e4ef5a..8c3e0d3 100644
--- a/src/ucis/lib/lib_cross.py
+++ b/src/ucis/lib/lib_cross.py
@@ -23,9 +23,10 @@ class LibCross(LibCvgScope, Cross):
         srcinfo:SourceInfo, 
         at_least:int, 
         count:int,
-        binrhs) -> CoverIndex:
+        binrhs,
+        kind=UCIS_CVGBIN) -> CoverIndex:
         coverdata = CoverData(
-            UCIS_CVGBIN,
+            kind,
             (UCIS_IS_32BIT|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
         coverdata.data = count
         coverdata.at_least = at_least
-- 
2.43.0


From db6b8f79d733b9911a9773136090122c8bea4829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:09 +0000
Subject: [PATCH 31/50] fix: file names from UCIS libraries are strings

---
 src/ucis/lib/lib_file_handle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/lib/lib_file_handle.py b/src/ucis/lib/lib_file_handle.py
index 36a5b06..fc63859 100644
--- a/src/ucis/lib/lib_file_handle.py
+++ b/src/ucis/lib/lib_file_handle.py
@@ -32,4 +32,5 @@ class LibFileHandle(FileHandle):
         self.fh = fh
         
     def getFileName(self)->str:
-        return get_lib().ucis_GetFileName(self.db, self.fh)
\ No newline at end of file
+        name = get_lib().ucis_GetFileName(self.db, self.fh)
+        return None if name is None else name.decode()
\ No newline at end of file
-- 
2.43.0


From 3fcdf9ddf9a789d026ba664f4d327322095e6089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:09 +0000
Subject: [PATCH 32/50] fix: history parents, optional physical names and
 written scopes with UCIS libraries

---
 src/ucis/lib/lib_ucis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index 6b6abe9..fd49eb2 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -84,9 +84,9 @@ class LibUCIS(LibScope,UCIS):
         
         hn = get_lib().ucis_CreateHistoryNode(
             self.db,
-            parent,
+            None if parent is None else parent.obj,
             str.encode(logicalname),
-            str.encode(physicalname),
+            None if physicalname is None else str.encode(physicalname),
             kind)
         logging.debug("hn=" + str(hn))
         logging.debug("<-- createHistoryNode")
@@ -103,7 +103,7 @@ class LibUCIS(LibScope,UCIS):
         ret = get_lib().ucis_Write(
             self.db, 
             str.encode(file),
-            scope,
+            None if scope is None else scope.obj,
             1 if recurse else 0,
             covertype)
         logging.debug("ret=" + str(ret))
-- 
2.43.0


From 3585dd52d3f109efc1bfb7ebad7ed4154bd698a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:09 +0000
Subject: [PATCH 33/50] fix: source info without a file with UCIS libraries

---
 src/ucis/lib/lib_source_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/lib/lib_source_info.py b/src/ucis/lib/lib_source_info.py
index 2b029de..08213f3 100644
--- a/src/ucis/lib/lib_source_info.py
+++ b/src/ucis/lib/lib_source_info.py
@@ -37,7 +37,7 @@ class _LibSourceInfo(Structure):
     @staticmethod
     def ctor(srcinfo : SourceInfo):
         return _LibSourceInfo(
-            srcinfo.file.fh,
+            None if srcinfo.file is None else srcinfo.file.fh,
             srcinfo.line,
             srcinfo.token)
         
-- 
2.43.0


From 7b2720a21b65af14c12ffc50ad3ce4255484682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:09 +0000
Subject: [PATCH 34/50] fix: exhausted iterators of UCIS libraries stay
 exhausted

---
 src/ucis/lib/lib_history_node_iterator.py | 4 ++++
 src/ucis/lib/lib_scope_iterator.py        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/ucis/lib/lib_history_node_iterator.py b/src/ucis/lib/lib_history_node_iterator.py
index 3b38313..4c50cc0 100644
--- a/src/ucis/lib/lib_history_node_iterator.py
+++ b/src/ucis/lib/lib_history_node_iterator.py
@@ -17,10 +17,14 @@ class LibHistoryNodeIterator(object):
         return self
     
     def __next__(self):
+        if self.iter is None:
+            raise StopIteration
+        
         next = get_lib().ucis_HistoryScan(self.db, self.iter)
         
         if next is None:
             get_lib().ucis_FreeIterator(self.db, self.iter)
+            self.iter = None
             raise StopIteration
         
         return LibHistoryNode(self.db, next)
diff --git a/src/ucis/lib/lib_scope_iterator.py b/src/ucis/lib/lib_scope_iterator.py
index bb5f439..ffa5326 100644
--- a/src/ucis/lib/lib_scope_iterator.py
+++ b/src/ucis/lib/lib_scope_iterator.py
@@ -17,10 +17,14 @@ class LibScopeIterator(object):
     
     def __next__(self):
         from .lib_scope import LibScope
+        if self.iter is None:
+            raise StopIteration
+        
         next = get_lib().ucis_ScopeScan(self.db, self.iter)
         
         if next is None:
             get_lib().ucis_FreeIterator(self.db, self.iter)
+            self.iter = None
             raise StopIteration
         
         return LibScope(self.db, next)
-- 
2.43.0


From 487d9679666e2217af62c90f5c49c68e96774fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:09 +0000
Subject: [PATCH 35/50] fix: pass vector cover data to UCIS libraries as bytes

---
 src/ucis/lib/lib_cover_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ucis/lib/lib_cover_data.py b/src/ucis/lib/lib_cover_data.py
index 9ed6a8c..c61f492 100644
--- a/src/ucis/lib/lib_cover_data.py
+++ b/src/ucis/lib/lib_cover_data.py
@@ -4,7 +4,7 @@ Created on Jan 11, 2020
 @author: ballance
 '''
 from _ctypes import Structure, Union
-from ctypes import c_int, c_ulonglong, c_uint, c_wchar_p, c_ulong
+from ctypes import c_int, c_ulonglong, c_uint, c_char_p
 from builtins import staticmethod
 from ucis.cover_data import CoverData
 from ucis.cover_flags_t import CoverFlagsT
@@ -13,7 +13,7 @@ class LibCoverDataValue(Union):
     _fields_ = [
         ("int64", c_ulonglong),
         ("int32", c_uint),
-        ("bytevector", c_wchar_p)
+        ("bytevector", c_char_p)
         ]
     
 class LibCoverData(Structure):
-- 
2.43.0


From a4e107f21ea82032c3f228368d62797fc6b33394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:10 +0000
Subject: [PATCH 36/50] fix: bin counts beyond 32 bits with UCIS libraries

---
 src/ucis/lib/lib_coverpoint.py | 4 ++--
 src/ucis/lib/lib_cross.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ucis/lib/lib_coverpoint.py b/src/ucis/lib/lib_coverpoint.py
index d0baaaa..de650c0 100644
--- a/src/ucis/lib/lib_coverpoint.py
+++ b/src/ucis/lib/lib_coverpoint.py
@@ -3,7 +3,7 @@ Created on Mar 12, 2020
 
 @author: ballance
 '''
-from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
+from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_IS_64BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
 from ucis.cover_data import CoverData
 from ucis.coverpoint import Coverpoint
 from ucis.lib.lib_scope import LibScope
@@ -29,7 +29,7 @@ class LibCoverpoint(LibCvgScope, Coverpoint):
         kind=UCIS_CVGBIN) -> CoverIndex:
         coverdata = CoverData(
             kind,
-            (UCIS_IS_32BIT|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
+            ((UCIS_IS_32BIT if count < (1 << 32) else UCIS_IS_64BIT)|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
         coverdata.data = count
         coverdata.at_least = at_least
         coverdata.goal = 1
diff --git a/src/ucis/lib/lib_cross.py b/src/ucis/lib/lib_cross.py
index 8c3e0d3..746211b 100644
--- a/src/ucis/lib/lib_cross.py
+++ b/src/ucis/lib/lib_cross.py
@@ -3,7 +3,7 @@ Created on Feb 1, 2021
 
 @author: mballance
 '''
-from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
+from ucis import UCIS_CVGBIN, UCIS_IS_32BIT, UCIS_IS_64BIT, UCIS_HAS_GOAL, UCIS_HAS_WEIGHT
 from ucis.cover_data import CoverData
 from ucis.cover_index import CoverIndex
 from ucis.cross import Cross
@@ -27,7 +27,7 @@ class LibCross(LibCvgScope, Cross):
         kind=UCIS_CVGBIN) -> CoverIndex:
         coverdata = CoverData(
             kind,
-            (UCIS_IS_32BIT|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
+            ((UCIS_IS_32BIT if count < (1 << 32) else UCIS_IS_64BIT)|UCIS_HAS_GOAL|UCIS_HAS_WEIGHT))
         coverdata.data = count
         coverdata.at_least = at_least
         coverdata.goal = 1
-- 
2.43.0


From 7c36ef727922be338a08ce416386c9b2c488aacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:58 +0000
Subject: [PATCH 37/50] fix: iterating or opening a library database no longer
 resets the goals of existing scopes

---
 src/ucis/lib/lib_scope.py          | 6 ++++--
 src/ucis/lib/lib_scope_iterator.py | 2 +-
 src/ucis/lib/lib_ucis.py           | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ucis/lib/lib_scope.py b/src/ucis/lib/lib_scope.py
index 028a540..bbbdcf5 100644
--- a/src/ucis/lib/lib_scope.py
+++ b/src/ucis/lib/lib_scope.py
@@ -44,9 +44,11 @@ from ucis.toggle_type_t import ToggleTypeT
 
 class LibScope(LibObj, Scope):
     
-    def __init__(self, db, obj):
+    def __init__(self, db, obj, is_new=True):
         LibObj.__init__(self, db, obj)
-        Scope.__init__(self)
+        if is_new:
+            # Only a newly-created scope gets the default settings
+            Scope.__init__(self)
         logging.debug("LibScope::init - db=" + str(self.db) + " " + str(self.obj))
         
     def getGoal(self)->int:
diff --git a/src/ucis/lib/lib_scope_iterator.py b/src/ucis/lib/lib_scope_iterator.py
index ffa5326..c9f8deb 100644
--- a/src/ucis/lib/lib_scope_iterator.py
+++ b/src/ucis/lib/lib_scope_iterator.py
@@ -27,6 +27,6 @@ class LibScopeIterator(object):
             self.iter = None
             raise StopIteration
         
-        return LibScope(self.db, next)
+        return LibScope(self.db, next, False)
         
         
\ No newline at end of file
diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index fd49eb2..bf5f836 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -38,6 +38,7 @@ from ucis.ucis import UCIS
 class LibUCIS(LibScope,UCIS):
     
     def __init__(self, file : str=None, db=None):
+        is_new = file is None and db is None
         if db is None:
             db = get_lib().ucis_Open(
                 str.encode(file) if file is not None else None)
@@ -47,7 +48,7 @@ class LibUCIS(LibScope,UCIS):
                     raise Exception("Error: failed to open UCIS file \"" + file + "\"")
                 else:
                     raise Exception("Error: failed to create UCIS DB")
-        super().__init__(db, None)
+        super().__init__(db, None, is_new)
         
     def isModified(self):
         return get_lib().ucis_GetIntProperty(self.db, -1, IntProperty.IS_MODIFIED) == 1
-- 
2.43.0


From f2b67f13d978551137b88980df0cf2f79c3fd0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:52 +0000
Subject: [PATCH 38/50] fix: keep an existing file when XmlFactory.write cannot
 produce the document

---
 src/ucis/xml/xml_factory.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ucis/xml/xml_factory.py b/src/ucis/xml/xml_factory.py
index 8394d09..ae07e22 100644
--- a/src/ucis/xml/xml_factory.py
+++ b/src/ucis/xml/xml_factory.py
@@ -20,6 +20,7 @@ Created on Jan 5, 2020
 
 @author: ballance
 '''
+from io import StringIO
 from ucis import UCIS
 from ucis.xml.xml_writer import XmlWriter
 from ucis.xml import validate_ucis_xml
@@ -84,12 +85,12 @@ class XmlFactory():
         writer = XmlWriter()
         
         if type(file_or_filename) == str:
-            fp = open(file_or_filename, "w", encoding="utf-8")
+            # Only open the output once the document is complete
+            doc = StringIO()
+            writer.write(doc, db)
+            
+            with open(file_or_filename, "w", encoding="utf-8") as fp:
+                fp.write(doc.getvalue())
         else:
-            fp = file_or_filename
-        
-        writer.write(fp, db)
-        
-        if type(file_or_filename) == str:
-            fp.close()
+            writer.write(file_or_filename, db)
             
-- 
2.43.0


From 34531d42289f9b54d1d8065b6d6634fe4081ee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:22 +0000
Subject: [PATCH 39/50] fix: XML type bins of one name and different kinds stay
 apart

---
 src/ucis/xml/xml_reader.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 788d9ba..e245022 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -330,11 +330,13 @@ class XmlReader():
         cp_bin_name = self.getAttr(cpBin, "name", "<unknown>")
         cp_bin_count = self.getAttrInt(contents, "coverageCount")
 
-        if cp_bin_name not in cp_type_i[1].keys():
-            cp_type_i[1][cp_bin_name] = (kind, cp_bin_count)
+        # Bins of different kinds are different bins, even if 
+        # they have the same name
+        bin_key = (cp_bin_name, kind)
+        if bin_key not in cp_type_i[1].keys():
+            cp_type_i[1][bin_key] = cp_bin_count
         else:
-            entry = cp_type_i[1][cp_bin_name]
-            cp_type_i[1][cp_bin_name] = (entry[0], entry[1] + cp_bin_count)
+            cp_type_i[1][bin_key] += cp_bin_count
         
         cp.createBin(
             cp_bin_name,
@@ -347,7 +349,7 @@ class XmlReader():
     def populateCoverpointType(self, cp_t, cp_bin_m):
         srcinfo = None
 
-        for bin_name,(kind,count) in cp_bin_m.items():
+        for (bin_name,kind),count in cp_bin_m.items():
             cp_t.createBin(
                 bin_name,
                 srcinfo,
@@ -386,7 +388,7 @@ class XmlReader():
     def populateCrossType(self, cr_t, cr_bin_m):
         srcinfo = None
 
-        for bin_name,(kind,count) in cr_bin_m.items():
+        for (bin_name,kind),count in cr_bin_m.items():
             cr_t.createBin(
                 bin_name,
                 srcinfo,
@@ -411,11 +413,11 @@ class XmlReader():
         elif kind_a == "illegal":
             kind = UCIS_ILLEGALBIN
 
-        if name in cr_type_i[1].keys():
-            entry = cr_type_i[1][name]
-            cr_type_i[1][name] = (entry[0], entry[1] + count)
+        bin_key = (name, kind)
+        if bin_key in cr_type_i[1].keys():
+            cr_type_i[1][bin_key] += count
         else:
-            cr_type_i[1][name] = (kind, count)
+            cr_type_i[1][bin_key] = count
 
         cr.createBin(
             name,
-- 
2.43.0


From 5ad5583f822ab5e778cecdd5b9ab15f2564d21fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:14 +0000
Subject: [PATCH 40/50] fix: a cover item holds its own copy of the data it is
 created with

---
 src/ucis/mem/mem_scope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_scope.py b/src/ucis/mem/mem_scope.py
index 7dde27e..dd39148 100644
--- a/src/ucis/mem/mem_scope.py
+++ b/src/ucis/mem/mem_scope.py
@@ -20,6 +20,7 @@ Created on Jan 8, 2020
 @author: ballance
 '''
 
+from copy import copy
 from typing import Iterator, List
 from ucis.int_property import IntProperty
 from ucis.cover_data import CoverData
@@ -139,7 +140,8 @@ class MemScope(MemObj,Scope):
         name:str, 
         data:CoverData, 
         sourceinfo:SourceInfo)->CoverIndex:
-        ret = MemCoverIndex(name, data, sourceinfo)
+        # The item holds its own data: the caller may re-use the object
+        ret = MemCoverIndex(name, copy(data), sourceinfo)
         self.m_cover_items.append(ret)
         return ret
 
-- 
2.43.0


From 1eb38f5969df39f5f0e5981e28ad5f517e913d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:14 +0000
Subject: [PATCH 41/50] fix: a cross keeps its members when the caller re-uses
 the list

---
 src/ucis/mem/mem_cross.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/mem/mem_cross.py b/src/ucis/mem/mem_cross.py
index 9eada40..9163eb3 100644
--- a/src/ucis/mem/mem_cross.py
+++ b/src/ucis/mem/mem_cross.py
@@ -24,7 +24,7 @@ class MemCross(MemCoverpoint,Cross):
         self.m_type = UCIS_CROSS
         Cross.__init__(self)
         
-        self.coverpoints = coverpoints
+        self.coverpoints = list(coverpoints)
         
     def getNumCrossedCoverpoints(self)->int:
         return len(self.coverpoints)
-- 
2.43.0


From c768f8ff2fc1a3a76acec2f20b60555c17eb8603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:14 +0000
Subject: [PATCH 42/50] fix: merging keeps the weight of an instance

---
 src/ucis/merge/db_merger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucis/merge/db_merger.py b/src/ucis/merge/db_merger.py
index 56a9090..5161895 100644
--- a/src/ucis/merge/db_merger.py
+++ b/src/ucis/merge/db_merger.py
@@ -65,7 +65,7 @@ class DbMerger(object):
             dst_iscope = self.dst_db.createInstance(
                 src_iscope.getScopeName(),
                 src_iscope.getSourceInfo(),
-                1, # weight
+                src_iscope.getWeight(), # weight
                 UCIS_OTHER, # query SourceType
                 UCIS_INSTANCE,
                 dst_du,
-- 
2.43.0


From 2b37d363ec58bd69c74d549ed4ff989a8c2d9f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:59 +0000
Subject: [PATCH 43/50] fix: a report that cannot be produced leaves an
 existing output file alone

---
 src/ucis/cmd/cmd_report.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ucis/cmd/cmd_report.py b/src/ucis/cmd/cmd_report.py
index 3bc2051..230bbfd 100644
--- a/src/ucis/cmd/cmd_report.py
+++ b/src/ucis/cmd/cmd_report.py
@@ -3,6 +3,7 @@ Created on Jun 22, 2022
 
 @author: mballance
 '''
+import io
 import os
 import shutil
 import sys
@@ -40,7 +41,9 @@ def report(args):
         fp = sys.stdout
     else:
         if (output_desc.out_flags & FormatRptOutFlags.Stream) != 0:
-            fp = open(args.out, "w")
+            # Only open the output once the report is complete
+            doc = io.BytesIO()
+            fp = io.TextIOWrapper(doc)
         elif (output_desc.out_flags & FormatRptOutFlags.Dir) != 0:
             if os.path.exists(args.out):
                 if os.path.isdir(args.out):
@@ -63,6 +66,9 @@ def report(args):
     output_if.report(in_db, fp, [])
 
     if args.out is not None:
-        fp.close()
+        fp.flush()
+
+        with open(args.out, "wb") as out_fp:
+            out_fp.write(doc.getvalue())
 
     in_db.close()
-- 
2.43.0


From 79501399a1bc402a426961ed31b9d09597fd6e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:31 +0000
Subject: [PATCH 44/50] fix: report formats that write a directory can be used

---
 src/ucis/cmd/cmd_report.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ucis/cmd/cmd_report.py b/src/ucis/cmd/cmd_report.py
index 230bbfd..ae2a477 100644
--- a/src/ucis/cmd/cmd_report.py
+++ b/src/ucis/cmd/cmd_report.py
@@ -34,6 +34,7 @@ def report(args):
 
     in_db = input_if.read(args.db)
 
+    doc = None
     if args.out is None:
         if (output_desc.out_flags & FormatRptOutFlags.Stream) == 0:
             raise Exception("Output format %s does not support single-file output" % args.output_format)
@@ -49,13 +50,13 @@ def report(args):
                 if os.path.isdir(args.out):
                     print("Note: removing existing report directory (%s)" % args.out)
                     shutil.rmtree(args.out)
-                    os.makedirs(args.out)
-                    fp = args.out
                 else:
-                    raise Exception("Output format %s requires a directory, but specified destination is a file" % (
+                    raise Exception("Output format %s requires a directory, but specified destination (%s) is a file" % (
                         args.output_format,
                         args.out
                     ))
+            os.makedirs(args.out)
+            fp = args.out
         else:
             raise Exception("Output format %s is ambiguous about output location: %s" % (
                 args.output_format,
@@ -65,7 +66,8 @@ def report(args):
 
     output_if.report(in_db, fp, [])
 
-    if args.out is not None:
+    if doc is not None:
+        # The report is complete
         fp.flush()
 
         with open(args.out, "wb") as out_fp:
-- 
2.43.0


From ac576fa9169bd52929f6048a6b0362edb76fb27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:27 +0000
Subject: [PATCH 45/50] fix: databases with cover items created without a
 threshold can be reported, merged and written

---
 src/ucis/cover_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ucis/cover_data.py b/src/ucis/cover_data.py
index 62314ac..cd2cd1a 100644
--- a/src/ucis/cover_data.py
+++ b/src/ucis/cover_data.py
@@ -18,5 +18,6 @@ class CoverData():
         self.weight = 0 # if UCIS_HAS_WEIGHT
         self.limit = 0 # if UCIS_HAS_LIMIT
         self.bitlen = 0 # if bytevector
+        self.at_least = 1 # hits required to cover the item
                  
             
\ No newline at end of file
-- 
2.43.0


From 3007d178c1462028ea77bcf5174e0318303a4f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 46/50] fix: XML reader: a comment inside a crossExpr cut off
 the coverpoint name

Only the text before the first comment or processing instruction of the
element was taken as the name.
---
 src/ucis/xml/xml_reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index e245022..97e85c6 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -249,7 +249,7 @@ class XmlReader():
                 if cp_name not in cr_m.keys():
                     cp_l = []
                     for crossExpr in cr_e.iter("crossExpr"):
-                        cp_n = crossExpr.text.strip()
+                        cp_n = self.getText(crossExpr).strip()
                         logging.debug("cp_n=\"" + cp_n + "\"")
                         if cp_n in cp_m.keys():
                             cp_l.append(cp_m[cp_n][0])
@@ -363,7 +363,7 @@ class XmlReader():
         
         cp_l = []
         for crossExpr in cr_e.iter("crossExpr"):
-            cp_n = crossExpr.text.strip()
+            cp_n = self.getText(crossExpr).strip()
             logging.debug("cp_n=\"" + cp_n + "\"")
             if cp_n in cp_m.keys():
                 cp_l.append(cp_m[cp_n])
@@ -485,6 +485,10 @@ class XmlReader():
         dateVal = datetime.strptime(val.strip()[:19],"%Y-%m-%dT%H:%M:%S")
         return dateVal.strftime("%Y%m%d%H%M%S")
     
+    def getText(self, node):
+        """Returns the full text of a node, which comments may split into pieces"""
+        return "".join(node.itertext())
+    
     def getAttr(self, node, name, default):
         if name in node.attrib:
             return node.attrib[name]
-- 
2.43.0


From e0290658bc5381ed233b2543e983b34dabd77fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:05 +0000
Subject: [PATCH 47/50] fix: shared-library back end: failures of the library
 to create, write or close are reported

---
 src/ucis/lib/lib_covergroup.py   |  5 +++++
 src/ucis/lib/lib_history_node.py | 10 ++++++++--
 src/ucis/lib/lib_scope.py        | 10 ++++++++++
 src/ucis/lib/lib_ucis.py         | 12 ++++++++++++
 4 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/ucis/lib/lib_covergroup.py b/src/ucis/lib/lib_covergroup.py
index 5cabbda..8020995 100644
--- a/src/ucis/lib/lib_covergroup.py
+++ b/src/ucis/lib/lib_covergroup.py
@@ -85,6 +85,9 @@ class LibCovergroup(LibCvgScope, Covergroup):
             len(points_l),
             byref(points))
         
+        if cr_o is None:
+            raise Exception("Failed to create cross \"" + name + "\"")
+        
         return LibCross(self.db, cr_o)
         raise NotImplementedError()
     
@@ -106,5 +109,7 @@ class LibCovergroup(LibCvgScope, Covergroup):
             UCIS_COVERINSTANCE,
             0)
         
+        if ci_obj is None:
+            raise Exception("Failed to create cover instance \"" + name + "\"")
         
         return LibCovergroup(self.db, ci_obj)
diff --git a/src/ucis/lib/lib_history_node.py b/src/ucis/lib/lib_history_node.py
index cfd7ef3..480b3b2 100644
--- a/src/ucis/lib/lib_history_node.py
+++ b/src/ucis/lib/lib_history_node.py
@@ -24,19 +24,25 @@ class LibHistoryNode(LibObj, HistoryNode):
     def setTestData(self, testdata:TestData):
         lib_td = pointer(LibTestData.ctor(testdata))
         
-        get_lib().ucis_SetTestData(
+        ret = get_lib().ucis_SetTestData(
             self.db,
             self.obj,
             lib_td)
         
+        if ret != 0:
+            raise Exception("Failed to set test data")
+        
     def getTestData(self):
         lib_td = LibTestData()
         
-        get_lib().ucis_GetTestData(
+        ret = get_lib().ucis_GetTestData(
             self.db,
             self.obj,
             pointer(lib_td))
         
+        if ret != 0:
+            raise Exception("Failed to get test data")
+        
         return lib_td.to_testdata()
     
     def getTestStatus(self) -> TestStatusT:
diff --git a/src/ucis/lib/lib_scope.py b/src/ucis/lib/lib_scope.py
index bbbdcf5..4818dfb 100644
--- a/src/ucis/lib/lib_scope.py
+++ b/src/ucis/lib/lib_scope.py
@@ -134,6 +134,9 @@ class LibScope(LibObj, Scope):
             ScopeTypeT.COVERGROUP,
             0)
         
+        if cg_obj is None:
+            raise Exception("Failed to create covergroup \"" + name + "\"")
+        
         return LibCovergroup(self.db, cg_obj)
     
     def createToggle(self,
@@ -152,6 +155,10 @@ class LibScope(LibObj, Scope):
             toggle_metric,
             toggle_type,
             toggle_dir)
+        
+        if th is None:
+            raise Exception("Failed to create toggle \"" + name + "\"")
+        
         return LibScope(self.db, th)
     
     def createNextCover(self,
@@ -168,6 +175,9 @@ class LibScope(LibObj, Scope):
             data_p,
             sourceinfo_p)
         
+        if index < 0:
+            raise Exception("Failed to create cover item \"" + name + "\"")
+        
         return LibCoverIndex(self.db, self.obj, index)
     
     def getSourceInfo(self)->SourceInfo:
diff --git a/src/ucis/lib/lib_ucis.py b/src/ucis/lib/lib_ucis.py
index bf5f836..beb5173 100644
--- a/src/ucis/lib/lib_ucis.py
+++ b/src/ucis/lib/lib_ucis.py
@@ -72,6 +72,9 @@ class LibUCIS(LibScope,UCIS):
             str.encode(filename),
             None if workdir is None else str.encode(workdir))
         
+        if fh is None:
+            raise Exception("Failed to create file handle \"" + filename + "\"")
+        
         return LibFileHandle(self.db, fh)
         
     
@@ -90,6 +93,9 @@ class LibUCIS(LibScope,UCIS):
             None if physicalname is None else str.encode(physicalname),
             kind)
         logging.debug("hn=" + str(hn))
+        if hn is None:
+            raise Exception("Failed to create history node \"" + logicalname + "\"")
+        
         logging.debug("<-- createHistoryNode")
         return LibHistoryNode(self.db, hn)
     
@@ -109,6 +115,12 @@ class LibUCIS(LibScope,UCIS):
             covertype)
         logging.debug("ret=" + str(ret))
         
+        if ret != 0:
+            raise Exception("Failed to write UCIS file \"" + file + "\"")
+        
     def close(self):
         ret = get_lib().ucis_Close(self.db)
         logging.debug("close ret=" + str(ret))
+        
+        if ret != 0:
+            raise Exception("Failed to close UCIS DB")
-- 
2.43.0


From 51ff75ce0cf8e99bb7fd024039592ce999234081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:52 +0000
Subject: [PATCH 48/50] fix: XML reader: crosses of coverpoints whose names
 begin or end with white space

---
 src/ucis/xml/xml_reader.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index 97e85c6..cbdf886 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -249,7 +249,7 @@ class XmlReader():
                 if cp_name not in cr_m.keys():
                     cp_l = []
                     for crossExpr in cr_e.iter("crossExpr"):
-                        cp_n = self.getText(crossExpr).strip()
+                        cp_n = self.getCrossedName(crossExpr, cg_inst_cp_m)
                         logging.debug("cp_n=\"" + cp_n + "\"")
                         if cp_n in cp_m.keys():
                             cp_l.append(cp_m[cp_n][0])
@@ -363,7 +363,7 @@ class XmlReader():
         
         cp_l = []
         for crossExpr in cr_e.iter("crossExpr"):
-            cp_n = self.getText(crossExpr).strip()
+            cp_n = self.getCrossedName(crossExpr, cp_m)
             logging.debug("cp_n=\"" + cp_n + "\"")
             if cp_n in cp_m.keys():
                 cp_l.append(cp_m[cp_n])
@@ -489,6 +489,12 @@ class XmlReader():
         """Returns the full text of a node, which comments may split into pieces"""
         return "".join(node.itertext())
     
+    def getCrossedName(self, crossExpr, cp_m):
+        """Returns the coverpoint name held by a crossExpr, which may be padded with whitespace"""
+        name = self.getText(crossExpr)
+        # Leading and trailing whitespace may also belong to the name
+        return name if name in cp_m.keys() else name.strip()
+    
     def getAttr(self, node, name, default):
         if name in node.attrib:
             return node.attrib[name]
-- 
2.43.0


From 1cb237b7c942ab316a70230ebb23343cb49d6705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:06 +0000
Subject: [PATCH 49/50] fix: XML writer: infinite simulation and CPU times are
 written as XML spells them

---
 src/ucis/xml/xml_writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ucis/xml/xml_writer.py b/src/ucis/xml/xml_writer.py
index 38a60df..0411ead 100644
--- a/src/ucis/xml/xml_writer.py
+++ b/src/ucis/xml/xml_writer.py
@@ -345,7 +345,8 @@ class XmlWriter():
             
     def setIfNonNeg(self, n, attr, val):
         if val >= 0:
-            self.setAttr(n, attr, str(val))
+            # XML has its own spelling of infinity
+            self.setAttr(n, attr, str(val) if val != float("inf") else "INF")
             
     def addId(self, ctxt, srcinfo):
         idElem = self.mkElem(ctxt, "id")
-- 
2.43.0


From e206b7e9f55fa60444714f110a33a489581f97cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:59 +0000
Subject: [PATCH 50/50] fix: XML reader: text whose XML declaration names an
 encoding can be read

---
 src/ucis/xml/__init__.py   | 19 ++++++++++++++++++-
 src/ucis/xml/xml_reader.py |  4 ++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/ucis/xml/__init__.py b/src/ucis/xml/__init__.py
index 15b7456..22fecab 100644
--- a/src/ucis/xml/__init__.py
+++ b/src/ucis/xml/__init__.py
@@ -18,10 +18,27 @@
 
 import logging
 import os
+import re
+from io import StringIO
 from lxml import etree
 from lxml.etree import tounicode
 
 
+def parse_xml(fp):
+    """Parses a document, given by name or as a file object"""
+    if hasattr(fp, "read") and isinstance(fp.read(0), str):
+        # Text is already decoded, so the encoding that the document
+        # declares doesn't apply. lxml expects that it is absent
+        text = fp.read()
+        encoding = re.match(
+            r"""\ufeff?<\?xml\s[^>]*?(\sencoding\s*=\s*("[^"]*"|'[^']*'))""", text)
+        if encoding is not None:
+            text = text[:encoding.start(1)] + text[encoding.end(1):]
+        fp = StringIO(text)
+
+    return etree.parse(fp)
+
+
 def validate_ucis_xml(file_or_filename):
     
     xml_pkg_dir = os.path.dirname(os.path.abspath(__file__))
@@ -46,7 +63,7 @@ def validate_ucis_xml(file_or_filename):
     ret = False
 
     try:
-        doc = etree.parse(fp)
+        doc = parse_xml(fp)
         
         root = doc.getroot()
 
diff --git a/src/ucis/xml/xml_reader.py b/src/ucis/xml/xml_reader.py
index cbdf886..bfba74c 100644
--- a/src/ucis/xml/xml_reader.py
+++ b/src/ucis/xml/xml_reader.py
@@ -40,7 +40,7 @@ from ucis.mem.mem_ucis import MemUCIS
 from ucis.statement_id import StatementId
 from ucis.test_status_t import TestStatusT
 from ucis.ucis import UCIS
-from ucis.xml import validate_ucis_xml
+from ucis.xml import parse_xml, validate_ucis_xml
 
 
 class XmlReader():
@@ -57,7 +57,7 @@ class XmlReader():
 
 
     def read(self, file) -> UCIS:
-        tree = etree.parse(file)
+        tree = parse_xml(file)
         root = tree.getroot()
         self.db = MemUCIS()
         self.file_m = {}
-- 
2.43.0

