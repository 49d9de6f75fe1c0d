From 6a1a573e1fb14b0964827d70ac5257e0a3d907ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 01/45] fix: escape strings in the JSON report

---
 oclint-reporters/reporters/JSONReporter.cpp | 43 ++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/JSONReporter.cpp b/oclint-reporters/reporters/JSONReporter.cpp
index ec4ede3..5f541cc 100644
--- a/oclint-reporters/reporters/JSONReporter.cpp
+++ b/oclint-reporters/reporters/JSONReporter.cpp
@@ -1,3 +1,4 @@
+#include <cstdio>
 #include <ctime>
 
 #include "oclint/Constants.h"
@@ -59,6 +60,46 @@ public:
         writeKeyValue(out, "timestamp", now);
     }
 
+    std::string escape(const std::string &data)
+    {
+        std::string output;
+        output.reserve(data.size());
+        for (const auto &c : data)
+        {
+            switch (c)
+            {
+                case '"':
+                    output += "\\\"";
+                    break;
+                case '\\':
+                    output += "\\\\";
+                    break;
+                case '\n':
+                    output += "\\n";
+                    break;
+                case '\r':
+                    output += "\\r";
+                    break;
+                case '\t':
+                    output += "\\t";
+                    break;
+                default:
+                    if (static_cast<unsigned char>(c) < 0x20)
+                    {
+                        char code[7];
+                        snprintf(code, sizeof(code), "\\u%04x", c);
+                        output += code;
+                    }
+                    else
+                    {
+                        output += c;
+                    }
+                    break;
+            }
+        }
+        return output;
+    }
+
     void writeKey(std::ostream &out, std::string key)
     {
         out << "\"" << key << "\":";
@@ -75,7 +116,7 @@ public:
     void writeKeyValue(std::ostream &out, std::string key, std::string value, bool last = false)
     {
         writeKey(out, key);
-        out << "\"" << value << "\"";
+        out << "\"" << escape(value) << "\"";
         writeComma(out, last);
     }
 
-- 
2.43.0


From 06726524c4067dfa081dd62d11857249bbe3109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 02/45] fix: escape attribute values in the XML report

---
 oclint-reporters/reporters/XMLReporter.cpp | 47 ++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/oclint-reporters/reporters/XMLReporter.cpp b/oclint-reporters/reporters/XMLReporter.cpp
index 4e44cba..13a7eee 100644
--- a/oclint-reporters/reporters/XMLReporter.cpp
+++ b/oclint-reporters/reporters/XMLReporter.cpp
@@ -89,6 +89,53 @@ public:
         out << "></violation>";
     }
 
+    std::string escape(const std::string &data)
+    {
+        std::string output;
+        output.reserve(data.size());
+        for (const auto &c : data)
+        {
+            switch (c)
+            {
+                case '<':
+                    output += "&lt;";
+                    break;
+                case '>':
+                    output += "&gt;";
+                    break;
+                case '"':
+                    output += "&quot;";
+                    break;
+                case '&':
+                    output += "&amp;";
+                    break;
+                case '\t':
+                    output += "&#9;";
+                    break;
+                case '\n':
+                    output += "&#10;";
+                    break;
+                case '\r':
+                    output += "&#13;";
+                    break;
+                default:
+                    output += c;
+                    break;
+            }
+        }
+        return output;
+    }
+
+    void writeViolationAttribute(std::ostream &out, std::string key, const std::string &value)
+    {
+        out << " " << key << "=\"" << escape(value) << "\"";
+    }
+
+    void writeViolationAttribute(std::ostream &out, std::string key, const char *value)
+    {
+        writeViolationAttribute(out, key, std::string(value));
+    }
+
     template <typename T>
     void writeViolationAttribute(std::ostream &out, std::string key, T value)
     {
-- 
2.43.0


From d55ee64e6cac6020b885543d268762a9093c6897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 03/45] fix: XML report states the month counting from one

---
 oclint-reporters/reporters/XMLReporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/XMLReporter.cpp b/oclint-reporters/reporters/XMLReporter.cpp
index 13a7eee..6569171 100644
--- a/oclint-reporters/reporters/XMLReporter.cpp
+++ b/oclint-reporters/reporters/XMLReporter.cpp
@@ -54,7 +54,7 @@ public:
             28,
             "%04i-%02i-%02iT%02i:%02i:%02iZ",
             tmNow->tm_year + 1900,
-            tmNow->tm_mon,
+            tmNow->tm_mon + 1,
             tmNow->tm_mday,
             tmNow->tm_hour,
             tmNow->tm_min,
-- 
2.43.0


From dcc5d74a1a1103f37cc6d6a133ae4d7bbcbee708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 04/45] fix: escape file and rule names in the PMD report

---
 oclint-reporters/reporters/PMDReporter.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/oclint-reporters/reporters/PMDReporter.cpp b/oclint-reporters/reporters/PMDReporter.cpp
index 2ba9cd5..fc005b7 100644
--- a/oclint-reporters/reporters/PMDReporter.cpp
+++ b/oclint-reporters/reporters/PMDReporter.cpp
@@ -29,8 +29,8 @@ private:
         void write(std::ostream &out) const
         {
             out << "priority=\"" << priority << "\" ";
-            out << "rule=\"" << name << "\" ";
-            out << "ruleset=\"" << category << "\" ";
+            out << "rule=\"" << xmlEscape(name) << "\" ";
+            out << "ruleset=\"" << xmlEscape(category) << "\" ";
         }
     };
 
@@ -81,7 +81,7 @@ private:
                         const Violation &violation,
                         const PMDRuleDescription *ruleDescription)
     {
-        out << "<file name=\"" << violation.path << "\">" << std::endl;
+        out << "<file name=\"" << xmlEscape(violation.path) << "\">" << std::endl;
         out << "<violation ";
         out << "begincolumn=\"" << violation.startColumn << "\" ";
         out << "endcolumn=\"" << violation.endColumn << "\" ";
@@ -97,7 +97,7 @@ private:
         out << "</file>" << std::endl;
     }
 
-    std::string xmlEscape(const std::string &data)
+    static std::string xmlEscape(const std::string &data)
     {
         std::string output;
         output.reserve(data.size());
@@ -120,6 +120,15 @@ private:
                 case '\'':
                     output += "&apos;";
                     break;
+                case '\t':
+                    output += "&#9;";
+                    break;
+                case '\n':
+                    output += "&#10;";
+                    break;
+                case '\r':
+                    output += "&#13;";
+                    break;
                 default:
                     output += c;
                     break;
-- 
2.43.0


From 42eb83452a52d2a27214e35a51b54204aaba59b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 05/45] fix: escape text in the HTML report

---
 oclint-reporters/reporters/HTMLReporter.cpp | 44 +++++++++++++++++----
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/oclint-reporters/reporters/HTMLReporter.cpp b/oclint-reporters/reporters/HTMLReporter.cpp
index df67afa..00e3419 100644
--- a/oclint-reporters/reporters/HTMLReporter.cpp
+++ b/oclint-reporters/reporters/HTMLReporter.cpp
@@ -66,25 +66,53 @@ public:
             << "OCLint v" << version << "</a>.</p>";
     }
 
+    std::string escape(const std::string &data)
+    {
+        std::string output;
+        output.reserve(data.size());
+        for (const auto &c : data)
+        {
+            switch (c)
+            {
+                case '<':
+                    output += "&lt;";
+                    break;
+                case '>':
+                    output += "&gt;";
+                    break;
+                case '"':
+                    output += "&quot;";
+                    break;
+                case '&':
+                    output += "&amp;";
+                    break;
+                default:
+                    output += c;
+                    break;
+            }
+        }
+        return output;
+    }
+
     void writeViolation(std::ostream &out, const Violation &violation)
     {
-        out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+        out << "<tr><td>" << escape(violation.path) << "</td><td>" << violation.startLine
             << ":" << violation.startColumn << "</td>";
         const RuleBase *rule = violation.rule;
-        out << "<td>" << rule->name() << "</td>"
-            << "<td>" << rule->category() << "</td>"
+        out << "<td>" << escape(rule->name()) << "</td>"
+            << "<td>" << escape(rule->category()) << "</td>"
             << "<td class='priority" << rule->priority() << "'>"
             << rule->priority() << "</td>"
-            << "<td>" << violation.message << "</td></tr>";
+            << "<td>" << escape(violation.message) << "</td></tr>";
     }
 
     void writeCompilerErrorOrWarning(std::ostream &out,
         const Violation &violation, std::string level)
     {
-        out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+        out << "<tr><td>" << escape(violation.path) << "</td><td>" << violation.startLine
             << ":" << violation.startColumn << "</td>";
         out << "<td>compiler " << level << "</td><td></td><td class='cmplr-" << level << "'>"
-            << level << "</td><td>" << violation.message << "</td></tr>";
+            << level << "</td><td>" << escape(violation.message) << "</td></tr>";
     }
 
     void writeCompilerDiagnostics(std::ostream &out, std::vector<Violation> violations,
@@ -100,10 +128,10 @@ public:
     {
         for (const auto& violation : violations)
         {
-            out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+            out << "<tr><td>" << escape(violation.path) << "</td><td>" << violation.startLine
                 << ":" << violation.startColumn << "</td>";
             out << "<td>clang static analyzer</td><td></td><td class='checker-bug'>"
-                << "checker bug</td><td>" << violation.message << "</td></tr>";
+                << "checker bug</td><td>" << escape(violation.message) << "</td></tr>";
         }
     }
 
-- 
2.43.0


From 8ac0db0a414cf3f4a4fa791459774881cc22ace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 06/45] fix: NPath complexity stays at INT_MAX instead of
 overflowing

---
 oclint-metrics/lib/NPathComplexityMetric.cpp | 42 +++++++++++++++-----
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/oclint-metrics/lib/NPathComplexityMetric.cpp b/oclint-metrics/lib/NPathComplexityMetric.cpp
index 15bb38e..415f711 100644
--- a/oclint-metrics/lib/NPathComplexityMetric.cpp
+++ b/oclint-metrics/lib/NPathComplexityMetric.cpp
@@ -1,14 +1,34 @@
 #include "oclint/metric/NPathComplexityMetric.h"
 
+#include <climits>
+
 using namespace oclint;
 
+// NPath grows exponentially with the number of sequential statements,
+// therefore, values that cannot be represented stay at the largest integer
+static int add(int lhs, int rhs)
+{
+    return lhs > INT_MAX - rhs ? INT_MAX : lhs + rhs;
+}
+
+template <typename... Rest>
+static int add(int lhs, int rhs, Rest... rest)
+{
+    return add(add(lhs, rhs), rest...);
+}
+
+static int multiply(int lhs, int rhs)
+{
+    return rhs != 0 && lhs > INT_MAX / rhs ? INT_MAX : lhs * rhs;
+}
+
 int NPathComplexityMetric::nPath(clang::CompoundStmt *stmt)
 {
     int npath = 1;
     for (clang::CompoundStmt::body_iterator body = stmt->body_begin(), bodyEnd = stmt->body_end();
         body != bodyEnd; body++)
     {
-        npath *= nPath(*body);
+        npath = multiply(npath, nPath(*body));
     }
     return npath;
 }
@@ -21,17 +41,17 @@ int NPathComplexityMetric::nPath(clang::IfStmt *stmt)
     {
         nPathElseStmt = nPath(elseStmt);
     }
-    return nPath(stmt->getCond()) + nPath(stmt->getThen()) + nPathElseStmt;
+    return add(nPath(stmt->getCond()), nPath(stmt->getThen()), nPathElseStmt);
 }
 
 int NPathComplexityMetric::nPath(clang::WhileStmt *stmt)
 {
-    return nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1;
+    return add(nPath(stmt->getCond()), nPath(stmt->getBody()), 1);
 }
 
 int NPathComplexityMetric::nPath(clang::DoStmt *stmt)
 {
-    return nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1;
+    return add(nPath(stmt->getCond()), nPath(stmt->getBody()), 1);
 }
 
 int NPathComplexityMetric::nPath(clang::ForStmt *stmt)
@@ -59,8 +79,8 @@ int NPathComplexityMetric::nPath(clang::ForStmt *stmt)
     // As a conclusion, in my opinion, same logic in different formats should not reduce
     // the complexity. However, here, I will follow Nejmeh's NPath
 
-    return nPath(stmt->getInit()) + nPath(stmt->getCond()) + nPath(stmt->getInc())
-        + nPath(stmt->getBody()) + 1;
+    return add(nPath(stmt->getInit()), nPath(stmt->getCond()), nPath(stmt->getInc()),
+        nPath(stmt->getBody()), 1);
 }
 
 int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
@@ -73,7 +93,7 @@ int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
     // So, convert to same logic in for statement, we assume the NPath complexity as below
     // NP(Foreach) := NP((for-range)) + 2
 
-    return nPath(stmt->getBody()) + 2;
+    return add(nPath(stmt->getBody()), 2);
 }
 
 int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
@@ -82,7 +102,7 @@ int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
     clang::Stmt *body = stmt->getBody();
     if(!clang::isa<clang::CompoundStmt>(body))
     {
-        return nPathSwitchStmt + nPath(body);
+        return add(nPathSwitchStmt, nPath(body));
     }
     clang::CompoundStmt *compound = clang::dyn_cast<clang::CompoundStmt>(body);
     for (clang::CompoundStmt::body_iterator bodyStmt = compound->body_begin(),
@@ -90,15 +110,15 @@ int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
     {
         if (clang::isa<clang::SwitchCase>(*bodyStmt))
         {
-            nPathSwitchStmt += internalNPath;
+            nPathSwitchStmt = add(nPathSwitchStmt, internalNPath);
             internalNPath = nPath(*bodyStmt);
         }
         else
         {
-            internalNPath *= nPath(*bodyStmt);
+            internalNPath = multiply(internalNPath, nPath(*bodyStmt));
         }
     }
-    return nPathSwitchStmt + internalNPath;
+    return add(nPathSwitchStmt, internalNPath);
 }
 
 int NPathComplexityMetric::nPath(clang::SwitchCase *expr)
-- 
2.43.0


From 2ed8b0ca21df3db8fe4fdf1403f6ef319bdf26aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 07/45] fix: metrics take range-based for loops into account

---
 .../include/oclint/metric/CyclomaticComplexityMetric.h      | 1 +
 .../include/oclint/metric/NPathComplexityMetric.h           | 2 ++
 oclint-metrics/include/oclint/metric/NcssMetric.h           | 2 ++
 oclint-metrics/include/oclint/metric/StmtDepthMetric.h      | 2 ++
 oclint-metrics/lib/CyclomaticComplexityMetric.cpp           | 6 ++++++
 oclint-metrics/lib/NPathComplexityMetric.cpp                | 5 +++++
 oclint-metrics/lib/NcssMetric.cpp                           | 5 +++++
 oclint-metrics/lib/StmtDepthMetric.cpp                      | 5 +++++
 8 files changed, 28 insertions(+)

diff --git a/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h b/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h
index 62aa5a3..93e9054 100644
--- a/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h
+++ b/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h
@@ -24,6 +24,7 @@ public:
     bool VisitIfStmt(clang::IfStmt *stmt);
     bool VisitForStmt(clang::ForStmt *stmt);
     bool VisitObjCForCollectionStmt(clang::ObjCForCollectionStmt *stmt);
+    bool VisitCXXForRangeStmt(clang::CXXForRangeStmt *stmt);
     bool VisitWhileStmt(clang::WhileStmt *stmt);
     bool VisitDoStmt(clang::DoStmt *stmt);
     bool VisitCaseStmt(clang::CaseStmt *stmt);
diff --git a/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h b/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
index 4d57bff..465dd69 100644
--- a/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
+++ b/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
@@ -30,6 +30,7 @@ public:
             DISPATH(clang::SwitchStmt);
             DISPATH(clang::SwitchCase);
             DISPATH(clang::ObjCForCollectionStmt);
+            DISPATH(clang::CXXForRangeStmt);
         }
         return 1;
     }
@@ -52,6 +53,7 @@ public:
     int nPath(clang::DoStmt *stmt);
     int nPath(clang::ForStmt *stmt);
     int nPath(clang::ObjCForCollectionStmt *stmt);
+    int nPath(clang::CXXForRangeStmt *stmt);
     int nPath(clang::SwitchStmt *stmt);
     int nPath(clang::SwitchCase *stmt);
     int nPath(clang::ConditionalOperator *expr);
diff --git a/oclint-metrics/include/oclint/metric/NcssMetric.h b/oclint-metrics/include/oclint/metric/NcssMetric.h
index 5dd80ac..7dccb1f 100644
--- a/oclint-metrics/include/oclint/metric/NcssMetric.h
+++ b/oclint-metrics/include/oclint/metric/NcssMetric.h
@@ -23,6 +23,7 @@ public:
             DISPATH(clang::DoStmt);
             DISPATH(clang::ForStmt);
             DISPATH(clang::ObjCForCollectionStmt);
+            DISPATH(clang::CXXForRangeStmt);
             DISPATH(clang::SwitchStmt);
             DISPATH(clang::SwitchCase);
             DISPATH(clang::CXXTryStmt);
@@ -44,6 +45,7 @@ public:
     int ncss(clang::DoStmt *stmt);
     int ncss(clang::ForStmt *stmt);
     int ncss(clang::ObjCForCollectionStmt *stmt);
+    int ncss(clang::CXXForRangeStmt *stmt);
     int ncss(clang::SwitchStmt *stmt);
     int ncss(clang::SwitchCase *stmt);
     int ncss(clang::CXXTryStmt *stmt);
diff --git a/oclint-metrics/include/oclint/metric/StmtDepthMetric.h b/oclint-metrics/include/oclint/metric/StmtDepthMetric.h
index 9a2efcc..0269c67 100644
--- a/oclint-metrics/include/oclint/metric/StmtDepthMetric.h
+++ b/oclint-metrics/include/oclint/metric/StmtDepthMetric.h
@@ -22,6 +22,7 @@ public:
             DISPATH(clang::DoStmt);
             DISPATH(clang::ForStmt);
             DISPATH(clang::ObjCForCollectionStmt);
+            DISPATH(clang::CXXForRangeStmt);
             DISPATH(clang::SwitchStmt);
             DISPATH(clang::SwitchCase);
             DISPATH(clang::CXXTryStmt);
@@ -41,6 +42,7 @@ public:
     int depth(clang::DoStmt *stmt);
     int depth(clang::ForStmt *stmt);
     int depth(clang::ObjCForCollectionStmt *stmt);
+    int depth(clang::CXXForRangeStmt *stmt);
     int depth(clang::SwitchStmt *stmt);
     int depth(clang::SwitchCase *stmt);
     int depth(clang::CXXTryStmt *stmt);
diff --git a/oclint-metrics/lib/CyclomaticComplexityMetric.cpp b/oclint-metrics/lib/CyclomaticComplexityMetric.cpp
index 5638fae..2a3e570 100644
--- a/oclint-metrics/lib/CyclomaticComplexityMetric.cpp
+++ b/oclint-metrics/lib/CyclomaticComplexityMetric.cpp
@@ -27,6 +27,12 @@ bool CyclomaticComplexityMetric::VisitObjCForCollectionStmt(clang::ObjCForCollec
     return true;
 }
 
+bool CyclomaticComplexityMetric::VisitCXXForRangeStmt(clang::CXXForRangeStmt *)
+{
+    _count++;
+    return true;
+}
+
 bool CyclomaticComplexityMetric::VisitWhileStmt(clang::WhileStmt *)
 {
     _count++;
diff --git a/oclint-metrics/lib/NPathComplexityMetric.cpp b/oclint-metrics/lib/NPathComplexityMetric.cpp
index 415f711..1cdb8a4 100644
--- a/oclint-metrics/lib/NPathComplexityMetric.cpp
+++ b/oclint-metrics/lib/NPathComplexityMetric.cpp
@@ -96,6 +96,11 @@ int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
     return add(nPath(stmt->getBody()), 2);
 }
 
+int NPathComplexityMetric::nPath(clang::CXXForRangeStmt *stmt)
+{
+    return add(nPath(stmt->getBody()), 2);
+}
+
 int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
 {
     int internalNPath = 0, nPathSwitchStmt = nPath(stmt->getCond());
diff --git a/oclint-metrics/lib/NcssMetric.cpp b/oclint-metrics/lib/NcssMetric.cpp
index 07a7fcf..0f69935 100644
--- a/oclint-metrics/lib/NcssMetric.cpp
+++ b/oclint-metrics/lib/NcssMetric.cpp
@@ -49,6 +49,11 @@ int NcssMetric::ncss(clang::ObjCForCollectionStmt *stmt)
     return 1 + ncss(stmt->getBody());
 }
 
+int NcssMetric::ncss(clang::CXXForRangeStmt *stmt)
+{
+    return 1 + ncss(stmt->getBody());
+}
+
 int NcssMetric::ncss(clang::SwitchStmt *stmt)
 {
     return 1 + ncss(stmt->getBody());
diff --git a/oclint-metrics/lib/StmtDepthMetric.cpp b/oclint-metrics/lib/StmtDepthMetric.cpp
index e41b431..2dfe3eb 100644
--- a/oclint-metrics/lib/StmtDepthMetric.cpp
+++ b/oclint-metrics/lib/StmtDepthMetric.cpp
@@ -49,6 +49,11 @@ int StmtDepthMetric::depth(clang::ObjCForCollectionStmt *stmt)
     return depth(stmt->getBody());
 }
 
+int StmtDepthMetric::depth(clang::CXXForRangeStmt *stmt)
+{
+    return depth(stmt->getBody());
+}
+
 int StmtDepthMetric::depth(clang::SwitchStmt *stmt)
 {
     return depth(stmt->getBody());
-- 
2.43.0


From 0054d1566f40ee50f7ab305b49658791943b326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 08/45] fix: metrics look into labeled and attributed
 statements

---
 .../include/oclint/metric/NPathComplexityMetric.h      |  4 ++++
 oclint-metrics/include/oclint/metric/NcssMetric.h      |  4 ++++
 oclint-metrics/include/oclint/metric/StmtDepthMetric.h |  4 ++++
 oclint-metrics/lib/NPathComplexityMetric.cpp           | 10 ++++++++++
 oclint-metrics/lib/NcssMetric.cpp                      | 10 ++++++++++
 oclint-metrics/lib/StmtDepthMetric.cpp                 | 10 ++++++++++
 6 files changed, 42 insertions(+)

diff --git a/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h b/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
index 465dd69..f54aabb 100644
--- a/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
+++ b/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
@@ -29,6 +29,8 @@ public:
             DISPATH(clang::ForStmt);
             DISPATH(clang::SwitchStmt);
             DISPATH(clang::SwitchCase);
+            DISPATH(clang::LabelStmt);
+            DISPATH(clang::AttributedStmt);
             DISPATH(clang::ObjCForCollectionStmt);
             DISPATH(clang::CXXForRangeStmt);
         }
@@ -55,6 +57,8 @@ public:
     int nPath(clang::ObjCForCollectionStmt *stmt);
     int nPath(clang::CXXForRangeStmt *stmt);
     int nPath(clang::SwitchStmt *stmt);
+    int nPath(clang::LabelStmt *stmt);
+    int nPath(clang::AttributedStmt *stmt);
     int nPath(clang::SwitchCase *stmt);
     int nPath(clang::ConditionalOperator *expr);
     int nPath(clang::BinaryOperator *expr);
diff --git a/oclint-metrics/include/oclint/metric/NcssMetric.h b/oclint-metrics/include/oclint/metric/NcssMetric.h
index 7dccb1f..279687e 100644
--- a/oclint-metrics/include/oclint/metric/NcssMetric.h
+++ b/oclint-metrics/include/oclint/metric/NcssMetric.h
@@ -26,6 +26,8 @@ public:
             DISPATH(clang::CXXForRangeStmt);
             DISPATH(clang::SwitchStmt);
             DISPATH(clang::SwitchCase);
+            DISPATH(clang::LabelStmt);
+            DISPATH(clang::AttributedStmt);
             DISPATH(clang::CXXTryStmt);
             DISPATH(clang::CXXCatchStmt);
             DISPATH(clang::ObjCAtTryStmt);
@@ -47,6 +49,8 @@ public:
     int ncss(clang::ObjCForCollectionStmt *stmt);
     int ncss(clang::CXXForRangeStmt *stmt);
     int ncss(clang::SwitchStmt *stmt);
+    int ncss(clang::LabelStmt *stmt);
+    int ncss(clang::AttributedStmt *stmt);
     int ncss(clang::SwitchCase *stmt);
     int ncss(clang::CXXTryStmt *stmt);
     int ncss(clang::CXXCatchStmt *stmt);
diff --git a/oclint-metrics/include/oclint/metric/StmtDepthMetric.h b/oclint-metrics/include/oclint/metric/StmtDepthMetric.h
index 0269c67..8546936 100644
--- a/oclint-metrics/include/oclint/metric/StmtDepthMetric.h
+++ b/oclint-metrics/include/oclint/metric/StmtDepthMetric.h
@@ -25,6 +25,8 @@ public:
             DISPATH(clang::CXXForRangeStmt);
             DISPATH(clang::SwitchStmt);
             DISPATH(clang::SwitchCase);
+            DISPATH(clang::LabelStmt);
+            DISPATH(clang::AttributedStmt);
             DISPATH(clang::CXXTryStmt);
             DISPATH(clang::CXXCatchStmt);
             DISPATH(clang::ObjCAtTryStmt);
@@ -44,6 +46,8 @@ public:
     int depth(clang::ObjCForCollectionStmt *stmt);
     int depth(clang::CXXForRangeStmt *stmt);
     int depth(clang::SwitchStmt *stmt);
+    int depth(clang::LabelStmt *stmt);
+    int depth(clang::AttributedStmt *stmt);
     int depth(clang::SwitchCase *stmt);
     int depth(clang::CXXTryStmt *stmt);
     int depth(clang::CXXCatchStmt *stmt);
diff --git a/oclint-metrics/lib/NPathComplexityMetric.cpp b/oclint-metrics/lib/NPathComplexityMetric.cpp
index 1cdb8a4..cd2e42f 100644
--- a/oclint-metrics/lib/NPathComplexityMetric.cpp
+++ b/oclint-metrics/lib/NPathComplexityMetric.cpp
@@ -126,6 +126,16 @@ int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
     return add(nPathSwitchStmt, internalNPath);
 }
 
+int NPathComplexityMetric::nPath(clang::LabelStmt *stmt)
+{
+    return nPath(stmt->getSubStmt());
+}
+
+int NPathComplexityMetric::nPath(clang::AttributedStmt *stmt)
+{
+    return nPath(stmt->getSubStmt());
+}
+
 int NPathComplexityMetric::nPath(clang::SwitchCase *expr)
 {
     return nPath(expr->getSubStmt());
diff --git a/oclint-metrics/lib/NcssMetric.cpp b/oclint-metrics/lib/NcssMetric.cpp
index 0f69935..2ad7071 100644
--- a/oclint-metrics/lib/NcssMetric.cpp
+++ b/oclint-metrics/lib/NcssMetric.cpp
@@ -59,6 +59,16 @@ int NcssMetric::ncss(clang::SwitchStmt *stmt)
     return 1 + ncss(stmt->getBody());
 }
 
+int NcssMetric::ncss(clang::LabelStmt *stmt)
+{
+    return 1 + ncss(stmt->getSubStmt());
+}
+
+int NcssMetric::ncss(clang::AttributedStmt *stmt)
+{
+    return ncss(stmt->getSubStmt());
+}
+
 int NcssMetric::ncss(clang::SwitchCase *stmt)
 {
     return 1 + ncss(stmt->getSubStmt());
diff --git a/oclint-metrics/lib/StmtDepthMetric.cpp b/oclint-metrics/lib/StmtDepthMetric.cpp
index 2dfe3eb..2ef6bb3 100644
--- a/oclint-metrics/lib/StmtDepthMetric.cpp
+++ b/oclint-metrics/lib/StmtDepthMetric.cpp
@@ -59,6 +59,16 @@ int StmtDepthMetric::depth(clang::SwitchStmt *stmt)
     return depth(stmt->getBody());
 }
 
+int StmtDepthMetric::depth(clang::LabelStmt *stmt)
+{
+    return depth(stmt->getSubStmt());
+}
+
+int StmtDepthMetric::depth(clang::AttributedStmt *stmt)
+{
+    return depth(stmt->getSubStmt());
+}
+
 int StmtDepthMetric::depth(clang::SwitchCase *stmt)
 {
     return depth(stmt->getSubStmt());
-- 
2.43.0


From d32b18ea023329d88270ae52859436a184498e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 09/45] fix: loop rules examine range-based and collection for
 loops

---
 .../AvoidBranchingStatementAsLastInLoopRule.cpp        |  7 +++++++
 oclint-rules/rules/convention/PreferEarlyExitRule.cpp  | 10 ++++++++++
 oclint-rules/rules/empty/EmptyForStatementRule.cpp     |  5 +++++
 3 files changed, 22 insertions(+)

diff --git a/oclint-rules/rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp b/oclint-rules/rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp
index dabab39..44996a5 100644
--- a/oclint-rules/rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp
+++ b/oclint-rules/rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp
@@ -87,6 +87,13 @@ public:
         return true;
     }
 
+    bool VisitCXXForRangeStmt(CXXForRangeStmt *stmt)
+    {
+        applyStmt<CXXForRangeStmt>(stmt);
+
+        return true;
+    }
+
     bool VisitObjCForCollectionStmt(ObjCForCollectionStmt *stmt)
     {
         applyStmt<ObjCForCollectionStmt>(stmt);
diff --git a/oclint-rules/rules/convention/PreferEarlyExitRule.cpp b/oclint-rules/rules/convention/PreferEarlyExitRule.cpp
index edba2ac..97a85fb 100644
--- a/oclint-rules/rules/convention/PreferEarlyExitRule.cpp
+++ b/oclint-rules/rules/convention/PreferEarlyExitRule.cpp
@@ -168,6 +168,16 @@ public:
         return VisitLoopBody(forStmt->getBody());
     }
 
+    bool VisitCXXForRangeStmt(CXXForRangeStmt* forStmt)
+    {
+        return VisitLoopBody(forStmt->getBody());
+    }
+
+    bool VisitObjCForCollectionStmt(ObjCForCollectionStmt* forStmt)
+    {
+        return VisitLoopBody(forStmt->getBody());
+    }
+
     bool VisitWhileStmt(WhileStmt* whileStmt)
     {
         return VisitLoopBody(whileStmt->getBody());
diff --git a/oclint-rules/rules/empty/EmptyForStatementRule.cpp b/oclint-rules/rules/empty/EmptyForStatementRule.cpp
index 2a7d77a..0c4ff19 100644
--- a/oclint-rules/rules/empty/EmptyForStatementRule.cpp
+++ b/oclint-rules/rules/empty/EmptyForStatementRule.cpp
@@ -60,6 +60,11 @@ public:
         return checkLexicalEmptyStmt(forStmt->getBody(), this);
     }
 
+    bool VisitCXXForRangeStmt(CXXForRangeStmt *forStmt)
+    {
+        return checkLexicalEmptyStmt(forStmt->getBody(), this);
+    }
+
     bool VisitObjCForCollectionStmt(ObjCForCollectionStmt *forStmt)
     {
         return checkLexicalEmptyStmt(forStmt->getBody(), this);
-- 
2.43.0


From c2e9765c3b729187bd7d55c5e9600df0ad67914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 10/45] fix: do not evaluate missing or value-dependent
 conditions

---
 oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp   | 3 ++-
 oclint-rules/rules/basic/ConstantIfExpressionRule.cpp          | 3 ++-
 .../rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp  | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp b/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp
index 862928f..0ca7b4f 100644
--- a/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp
@@ -54,7 +54,8 @@ public:
         Expr *conditionExpr = conditionalOperator->getCond();
 
         bool evaluatedResult;
-        if (conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
+        if (!conditionExpr->isValueDependent() &&
+            conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
         {
             addViolation(conditionExpr, this);
         }
diff --git a/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp b/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
index a012e00..b810ad1 100644
--- a/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
+++ b/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
@@ -60,7 +60,8 @@ public:
         Expr *conditionExpr = ifStmt->getCond();
 
         bool evaluatedResult;
-        if (conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
+        if (conditionExpr && !conditionExpr->isValueDependent() &&
+            conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
         {
             addViolation(conditionExpr, this);
         }
diff --git a/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp b/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
index 8734f1a..696357a 100644
--- a/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
+++ b/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
@@ -150,7 +150,7 @@ public:
 
     bool VisitIfStmt(IfStmt* ifStmt)
     {
-        if (ifStmt == nullptr || ifStmt->getElse() != nullptr)
+        if (ifStmt == nullptr || ifStmt->getElse() != nullptr || ifStmt->getCond() == nullptr)
         {
             return true;
         }
-- 
2.43.0


From ca83172a7281e52470ae786d7594654a665676cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 11/45] fix: calling protected method rule crashes on methods
 of a protocol

---
 oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
index a042ecc..e81428f 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
@@ -58,7 +58,12 @@ public:
             checker.TraverseDecl(decl);
             const auto violations = checker.getViolations();
             for(auto expr : violations) {
-                const auto sourceClass = expr->getMethodDecl()->getClassInterface();
+                // Methods of a protocol do not have a class interface
+                const auto method = expr->getMethodDecl();
+                const NamedDecl* sourceClass = method->getClassInterface();
+                if(!sourceClass) {
+                    sourceClass = cast<NamedDecl>(method->getDeclContext());
+                }
 
                 string description = "calling protected method " +
                     expr->getSelector().getAsString() +
-- 
2.43.0


From 70372fbcfa4b611139d618cb7551b65e565e5798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 12/45] fix: must call super rule recognizes calls to super in
 class methods

---
 oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
index 73935cf..b59744b 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
@@ -26,7 +26,8 @@ public:
     bool VisitObjCMessageExpr(ObjCMessageExpr* expr)
     {
         if(expr->getSelector().getAsString() == _selector
-        && expr->getReceiverKind() == ObjCMessageExpr::SuperInstance) {
+        && (expr->getReceiverKind() == ObjCMessageExpr::SuperInstance
+        || expr->getReceiverKind() == ObjCMessageExpr::SuperClass)) {
             _foundSuperCall = true;
         }
         return true;
-- 
2.43.0


From ec764f32aaea53697b3b1d668266adddd3a4d393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 13/45] fix: must call super rule ignores method declarations
 without a body

---
 oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
index b59744b..d9fd12f 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
@@ -130,7 +130,7 @@ public:
         string selectorName = decl->getSelector().getAsString();
 
         // Figure out if anything in the super chain is marked
-        if(declRequiresSuperCall(decl)) {
+        if(decl->isThisDeclarationADefinition() && declRequiresSuperCall(decl)) {
             // If so, start a separate checker to look for method sends just in the method body
             ContainsCallToSuperMethod checker(selectorName);
             checker.TraverseDecl(decl);
-- 
2.43.0


From c8e476a5f6eb9f386448f802a41355c8aafec131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 14/45] fix: redundant local variable rule compares
 declarations instead of names

---
 oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp b/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp
index b3539cf..bf017bf 100644
--- a/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp
@@ -89,7 +89,7 @@ public:
         {
             NamedDecl *returnDeclRef = extractReturnDeclRef(compoundStmt);
             NamedDecl *namedDecl = extractNamedDecl(compoundStmt);
-            if (returnDeclRef && namedDecl && returnDeclRef->getName() == namedDecl->getName())
+            if (returnDeclRef && returnDeclRef == namedDecl)
             {
                 addViolation(namedDecl, this);
             }
-- 
2.43.0


From 2031b7601f4146a02dec3a6ebec0d01814b0003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 15/45] fix: redundant conditional operator rule recognizes
 same lvalues

---
 .../rules/redundant/RedundantConditionalOperatorRule.cpp     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
index f726478..7bcafdb 100644
--- a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
@@ -139,8 +139,9 @@ private:
 
     bool isSameVariable(Expr *trueExpr, Expr *falseExpr)
     {
-        DeclRefExpr *trueDeclRef = extractFromImplicitCastExpr<DeclRefExpr>(trueExpr);
-        DeclRefExpr *falseDeclRef = extractFromImplicitCastExpr<DeclRefExpr>(falseExpr);
+        // there is no implicit cast when the operator yields an lvalue
+        DeclRefExpr *trueDeclRef = dyn_cast<DeclRefExpr>(trueExpr->IgnoreImpCasts());
+        DeclRefExpr *falseDeclRef = dyn_cast<DeclRefExpr>(falseExpr->IgnoreImpCasts());
         return trueDeclRef && falseDeclRef && trueDeclRef->getDecl() == falseDeclRef->getDecl();
     }
 
-- 
2.43.0


From 922d0f9f7156b99e0ce9f2260a9ae957d3ba072d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 16/45] fix: dead code rule recognizes throwing a temporary
 object

---
 oclint-rules/rules/basic/DeadCodeRule.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oclint-rules/rules/basic/DeadCodeRule.cpp b/oclint-rules/rules/basic/DeadCodeRule.cpp
index 0466782..2e4514e 100644
--- a/oclint-rules/rules/basic/DeadCodeRule.cpp
+++ b/oclint-rules/rules/basic/DeadCodeRule.cpp
@@ -35,6 +35,10 @@ public: // Visitor methods
     EExitType VisitReturnStmt(const ReturnStmt*) { return FullExit; }
     EExitType VisitGotoStmt(const GotoStmt*) { return FullExit; }
     EExitType VisitCXXThrowExpr(const CXXThrowExpr*) { return FullExit; }
+    EExitType VisitExprWithCleanups(const ExprWithCleanups* expr)
+    {
+        return Visit(expr->getSubExpr());
+    }
     EExitType VisitObjCAtThrowStmt(const ObjCAtThrowStmt*) { return FullExit; }
 
     EExitType VisitSwitchCase(const SwitchCase* stmt) { return Visit(stmt->getSubStmt()); }
-- 
2.43.0


From bcdd8e4d8bee13cc06f50979a9c6abb98406ab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 17/45] fix: too few branches rule does not count cases of
 nested switch statements

---
 .../TooFewBranchesInSwitchStatementRule.cpp   | 31 ++++++++-----------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp b/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
index ca132e8..75c5c3b 100644
--- a/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
+++ b/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
@@ -9,25 +9,21 @@ using namespace oclint;
 class TooFewBranchesInSwitchStatementRule :
     public AbstractASTVisitorRule<TooFewBranchesInSwitchStatementRule>
 {
-    class CountCaseStmts : public RecursiveASTVisitor<CountCaseStmts>
+private:
+    // cases of nested switch statements do not count
+    int countCaseStmts(SwitchStmt *switchStmt)
     {
-    private:
-        int _count;
-
-    public:
-        int count(SwitchStmt *switchStmt)
+        int count = 0;
+        for (SwitchCase *switchCase = switchStmt->getSwitchCaseList(); switchCase;
+            switchCase = switchCase->getNextSwitchCase())
         {
-            _count = 0;
-            (void) /* explicitly ignore the return of this function */ TraverseStmt(switchStmt);
-            return _count;
+            if (isa<CaseStmt>(switchCase))
+            {
+                count++;
+            }
         }
-
-        bool VisitCaseStmt(CaseStmt *)
-        {
-            _count++;
-            return true;
-        }
-    };
+        return count;
+    }
 
 public:
     virtual const string name() const override
@@ -86,8 +82,7 @@ public:
 
     bool VisitSwitchStmt(SwitchStmt *switchStmt)
     {
-        CountCaseStmts countCaseStmts;
-        int numberOfCaseStmts = countCaseStmts.count(switchStmt);
+        int numberOfCaseStmts = countCaseStmts(switchStmt);
         int threshold = RuleConfiguration::intForKey("MINIMUM_CASES_IN_SWITCH", 3);
         if (numberOfCaseStmts < threshold)
         {
-- 
2.43.0


From aaf36450414feb09e196a4d321c9b40dbadbe271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 18/45] fix: parameter reassignment rule compares declarations
 instead of names

---
 .../convention/ParameterReassignmentRule.cpp  | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/oclint-rules/rules/convention/ParameterReassignmentRule.cpp b/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
index 3c0d6c8..ecb8a2f 100644
--- a/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
+++ b/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
@@ -10,13 +10,13 @@ class ParameterReassignmentRule : public AbstractASTVisitorRule<ParameterReassig
     class BinaryOperatorAnalyzer : public RecursiveASTVisitor<BinaryOperatorAnalyzer>
     {
     private:
-        vector<string> _names;
+        vector<ParmVarDecl*> _params;
         vector<BinaryOperator*> _binaryOperators;
 
     public:
-        vector<BinaryOperator*> analyze(Decl *decl, vector<string> &names)
+        vector<BinaryOperator*> analyze(Decl *decl, vector<ParmVarDecl*> &params)
         {
-            _names = names;
+            _params = params;
             _binaryOperators.clear();
             (void) /* explicitly ignore the return of this function */ TraverseDecl(decl);
             return _binaryOperators;
@@ -28,9 +28,9 @@ class ParameterReassignmentRule : public AbstractASTVisitorRule<ParameterReassig
             if (binaryOperator->getOpcode() == BO_Assign && leftExpr && isa<DeclRefExpr>(leftExpr))
             {
                 DeclRefExpr *declRefExpr = dyn_cast<DeclRefExpr>(leftExpr);
-                for (const auto& name : _names)
+                for (const auto& param : _params)
                 {
-                    if (declRefExpr->getFoundDecl()->getNameAsString() == name)
+                    if (declRefExpr->getDecl() == param)
                     {
                         _binaryOperators.push_back(binaryOperator);
                         break;
@@ -42,12 +42,12 @@ class ParameterReassignmentRule : public AbstractASTVisitorRule<ParameterReassig
     };
 
 private:
-    void locateParamNames(Decl *decl, vector<string> &names)
+    void locateParams(Decl *decl, vector<ParmVarDecl*> &params)
     {
-        if (!names.empty())
+        if (!params.empty())
         {
             BinaryOperatorAnalyzer biOpAnalyzer;
-            vector<BinaryOperator*> binaryOperators = biOpAnalyzer.analyze(decl, names);
+            vector<BinaryOperator*> binaryOperators = biOpAnalyzer.analyze(decl, params);
             for (const auto& binaryOperator : binaryOperators)
             {
                 addViolation(binaryOperator, this);
@@ -100,33 +100,33 @@ public:
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        vector<string> names;
+        vector<ParmVarDecl*> params;
         for (size_t i = 0; i != decl->getNumParams(); ++i)
         {
             ParmVarDecl *parmVarDecl = decl->getParamDecl(i);
             if (parmVarDecl->getNameAsString() != "")
             {
-                names.push_back(parmVarDecl->getNameAsString());
+                params.push_back(parmVarDecl);
             }
         }
-        locateParamNames(decl, names);
+        locateParams(decl, params);
 
         return true;
     }
 
     bool VisitObjCMethodDecl(ObjCMethodDecl *decl)
     {
-        vector<string> names;
+        vector<ParmVarDecl*> params;
         for (ObjCMethodDecl::param_iterator param = decl->param_begin(),
             paramEnd = decl->param_end(); param != paramEnd; param++)
         {
             ParmVarDecl *parmVarDecl = *param;
             if (parmVarDecl->getNameAsString() != "")
             {
-                names.push_back(parmVarDecl->getNameAsString());
+                params.push_back(parmVarDecl);
             }
         }
-        locateParamNames(decl, names);
+        locateParams(decl, params);
 
         return true;
     }
-- 
2.43.0


From 040a403eaa937fc5cb1e9f011bdcef25adafe42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 19/45] fix: short variable name rule exempts every loop
 variable

---
 .../rules/naming/ShortVariableNameRule.cpp    | 32 ++++++-------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/oclint-rules/rules/naming/ShortVariableNameRule.cpp b/oclint-rules/rules/naming/ShortVariableNameRule.cpp
index cb85f4a..1a11de6 100644
--- a/oclint-rules/rules/naming/ShortVariableNameRule.cpp
+++ b/oclint-rules/rules/naming/ShortVariableNameRule.cpp
@@ -1,4 +1,4 @@
-#include <stack>
+#include <set>
 
 #include "oclint/AbstractASTVisitorRule.h"
 #include "oclint/RuleConfiguration.h"
@@ -12,21 +12,13 @@ using namespace oclint;
 class ShortVariableNameRule : public AbstractASTVisitorRule<ShortVariableNameRule>
 {
 private:
-    std::stack<VarDecl *> _suppressVarDecls;
-
-    void clearVarDeclsStack()
-    {
-        while (!_suppressVarDecls.empty())
-        {
-            _suppressVarDecls.pop();
-        }
-    }
+    std::set<VarDecl *> _suppressVarDecls;
 
     void handleVarDecl(VarDecl *varDecl)
     {
         if (varDecl)
         {
-            _suppressVarDecls.push(varDecl);
+            _suppressVarDecls.insert(varDecl);
         }
     }
 
@@ -99,6 +91,11 @@ public:
     }
 #endif
 
+    virtual void setUp() override
+    {
+        _suppressVarDecls.clear();
+    }
+
     bool VisitVarDecl(VarDecl *varDecl)
     {
         std::string varName = varDecl->getNameAsString();
@@ -109,14 +106,9 @@ public:
             return true;
         }
 
-        if (!_suppressVarDecls.empty())
+        if (_suppressVarDecls.count(varDecl))
         {
-            VarDecl *topVarDecl = _suppressVarDecls.top();
-            _suppressVarDecls.pop();
-            if (varDecl == topVarDecl)
-            {
-                return true;
-            }
+            return true;
         }
 
         string description = "Length of variable name `" + varName +
@@ -129,7 +121,6 @@ public:
 
     bool VisitForStmt(ForStmt *forStmt)
     {
-        clearVarDeclsStack();
         handleDeclStmt(forStmt->getInit());
 
         return true;
@@ -137,7 +128,6 @@ public:
 
     bool VisitCXXForRangeStmt(CXXForRangeStmt *forStmt)
     {
-        clearVarDeclsStack();
         handleVarDecl(forStmt->getLoopVariable());
 
         return true;
@@ -146,7 +136,6 @@ public:
 
     bool VisitObjCForCollectionStmt(ObjCForCollectionStmt *forStmt)
     {
-        clearVarDeclsStack();
         handleDeclStmt(forStmt->getElement());
 
         return true;
@@ -154,7 +143,6 @@ public:
 
     bool VisitCXXCatchStmt(CXXCatchStmt *catchStmt)
     {
-        clearVarDeclsStack();
         handleVarDecl(catchStmt->getExceptionDecl());
 
         return true;
-- 
2.43.0


From ffcb858dac28356440fcc0fa689677fb08c7c02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 20/45] fix: suppressions of a translation unit do not leak
 into others

---
 oclint-rules/lib/helper/SuppressHelper.cpp | 44 +++++++++++++---------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 62deeb1..e3f6974 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -1,5 +1,6 @@
 #include "oclint/helper/SuppressHelper.h"
 
+#include <map>
 #include <regex>
 #include <set>
 #include <unordered_map>
@@ -9,8 +10,6 @@
 #include <clang/AST/RecursiveASTVisitor.h>
 #include <clang/Basic/SourceManager.h>
 
-#include "oclint/RuleCarrier.h"
-
 #include "oclint/helper/AttributeHelper.h"
 
 bool markedAsSuppress(const clang::Decl *decl, oclint::RuleBase *rule)
@@ -107,21 +106,19 @@ public:
     }
 };
 
-std::string getMainFilePath(clang::ASTContext &context)
-{
-    oclint::RuleCarrier ruleCarrier(&context, nullptr);
-    return ruleCarrier.getMainFilePath();
-}
-
-typedef std::unordered_map<std::string, std::set<int>> LineMap;
+// The same file may be part of more than one translation unit,
+// thus, what has been collected is only good for the lifetime of its context
+typedef std::unordered_map<const clang::ASTContext *, std::set<int>> LineMap;
 static LineMap singleLineMapping;
 
-
+static void forgetLines(void *context)
+{
+    singleLineMapping.erase(static_cast<const clang::ASTContext *>(context));
+}
 
 bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
 {
-    std::string filePath = getMainFilePath(context);
-    auto commentLinesIt = singleLineMapping.find(filePath);
+    auto commentLinesIt = singleLineMapping.find(&context);
     std::set<int> commentLines;
     if (commentLinesIt == singleLineMapping.end())
     {
@@ -156,7 +153,8 @@ bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
                 }
             }
         }
-        singleLineMapping[filePath] = commentLines;
+        singleLineMapping[&context] = commentLines;
+        context.AddDeallocation(forgetLines, &context);
     }
     else
     {
@@ -166,19 +164,29 @@ bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
     return commentLines.find(beginLine) != commentLines.end();
 }
 
-typedef std::unordered_map<std::string, RangeSet> RangeMap;
+typedef std::map<const oclint::RuleBase *, RangeSet> RuleRangeMap;
+typedef std::unordered_map<const clang::ASTContext *, RuleRangeMap> RangeMap;
 static RangeMap rangeMapping;
 
+static void forgetRanges(void *context)
+{
+    rangeMapping.erase(static_cast<const clang::ASTContext *>(context));
+}
+
 bool rangeBasedShouldSuppress(int beginLine, clang::ASTContext &context, oclint::RuleBase *rule)
 {
-    std::string filePath = getMainFilePath(context);
-    auto commentRangesIt = rangeMapping.find(filePath);
+    if (rangeMapping.find(&context) == rangeMapping.end())
+    {
+        context.AddDeallocation(forgetRanges, &context);
+    }
+    RuleRangeMap &ruleRanges = rangeMapping[&context];
+    auto commentRangesIt = ruleRanges.find(rule);
     RangeSet commentRanges;
-    if (commentRangesIt == rangeMapping.end())
+    if (commentRangesIt == ruleRanges.end())
     {
         DeclAnnotationRangeCollector annotationCollector;
         commentRanges = annotationCollector.collect(context, rule);
-        rangeMapping[filePath] = commentRanges;
+        ruleRanges[rule] = commentRanges;
     }
     else
     {
-- 
2.43.0


From 78ba4428340c480060b2fd61eeb46e6c9907fa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 21/45] fix: comments suppress violations on lines of their own
 file only

---
 .../include/oclint/helper/SuppressHelper.h    |  1 +
 oclint-rules/lib/AbstractASTRuleBase.cpp      |  2 +-
 oclint-rules/lib/helper/SuppressHelper.cpp    | 30 +++++++++++++------
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/oclint-rules/include/oclint/helper/SuppressHelper.h b/oclint-rules/include/oclint/helper/SuppressHelper.h
index 192a131..a4773b0 100644
--- a/oclint-rules/include/oclint/helper/SuppressHelper.h
+++ b/oclint-rules/include/oclint/helper/SuppressHelper.h
@@ -7,6 +7,7 @@
 
 bool shouldSuppress(const clang::Decl *decl, clang::ASTContext &context, oclint::RuleBase *rule);
 bool shouldSuppress(const clang::Stmt *stmt, clang::ASTContext &context, oclint::RuleBase *rule);
+bool shouldSuppress(clang::SourceLocation fileLocation, clang::ASTContext &context);
 bool shouldSuppress(int beginLine, clang::ASTContext& context,
                     oclint::RuleBase* rule = nullptr);
 
diff --git a/oclint-rules/lib/AbstractASTRuleBase.cpp b/oclint-rules/lib/AbstractASTRuleBase.cpp
index 00fa4f9..94ed6b0 100644
--- a/oclint-rules/lib/AbstractASTRuleBase.cpp
+++ b/oclint-rules/lib/AbstractASTRuleBase.cpp
@@ -15,7 +15,7 @@ void AbstractASTRuleBase::addViolation(clang::SourceLocation startLocation,
     clang::SourceLocation startFileLoc = sourceManager->getFileLoc(startLocation);
     clang::SourceLocation endFileLoc = sourceManager->getFileLoc(endLocation);
     int beginLine = sourceManager->getPresumedLineNumber(startFileLoc);
-    if (!shouldSuppress(beginLine, *_carrier->getASTContext()))
+    if (!shouldSuppress(startFileLoc, *_carrier->getASTContext()))
     {
         llvm::StringRef filename = sourceManager->getFilename(startFileLoc);
         _carrier->addViolation(filename.str(),
diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index e3f6974..015cf40 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -108,7 +108,8 @@ public:
 
 // The same file may be part of more than one translation unit,
 // thus, what has been collected is only good for the lifetime of its context
-typedef std::unordered_map<const clang::ASTContext *, std::set<int>> LineMap;
+typedef std::map<clang::FileID, std::set<int>> FileLineMap;
+typedef std::unordered_map<const clang::ASTContext *, FileLineMap> LineMap;
 static LineMap singleLineMapping;
 
 static void forgetLines(void *context)
@@ -116,15 +117,19 @@ static void forgetLines(void *context)
     singleLineMapping.erase(static_cast<const clang::ASTContext *>(context));
 }
 
-bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
+bool lineBasedShouldSuppress(int beginLine, clang::FileID fileID, clang::ASTContext &context)
 {
-    auto commentLinesIt = singleLineMapping.find(&context);
+    if (singleLineMapping.find(&context) == singleLineMapping.end())
+    {
+        context.AddDeallocation(forgetLines, &context);
+    }
+    FileLineMap &fileLines = singleLineMapping[&context];
+    auto commentLinesIt = fileLines.find(fileID);
     std::set<int> commentLines;
-    if (commentLinesIt == singleLineMapping.end())
+    if (commentLinesIt == fileLines.end())
     {
-        auto mainFileID = context.getSourceManager().getMainFileID();
         auto commentList = context.Comments;
-        const auto commentMap = commentList.getCommentsInFile(mainFileID);
+        const auto commentMap = commentList.getCommentsInFile(fileID);
         if (commentMap != nullptr)
         {
             for (auto c : *commentMap)
@@ -153,8 +158,7 @@ bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
                 }
             }
         }
-        singleLineMapping[&context] = commentLines;
-        context.AddDeallocation(forgetLines, &context);
+        fileLines[fileID] = commentLines;
     }
     else
     {
@@ -204,8 +208,16 @@ bool rangeBasedShouldSuppress(int beginLine, clang::ASTContext &context, oclint:
     return false;
 }
 
+bool shouldSuppress(clang::SourceLocation fileLocation, clang::ASTContext &context)
+{
+    clang::SourceManager &sourceManager = context.getSourceManager();
+    return lineBasedShouldSuppress(sourceManager.getPresumedLineNumber(fileLocation),
+        sourceManager.getFileID(fileLocation), context);
+}
+
 bool shouldSuppress(int beginLine, clang::ASTContext &context, oclint::RuleBase *rule)
 {
-    return lineBasedShouldSuppress(beginLine, context) ||
+    auto mainFileID = context.getSourceManager().getMainFileID();
+    return lineBasedShouldSuppress(beginLine, mainFileID, context) ||
         (rule && rangeBasedShouldSuppress(beginLine, context, rule));
 }
-- 
2.43.0


From e148e9e32e64d5c21f3a3cb651521f378098c37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 22/45] fix: rules examine C89 sources

---
 oclint-rules/lib/AbstractASTRuleBase.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/oclint-rules/lib/AbstractASTRuleBase.cpp b/oclint-rules/lib/AbstractASTRuleBase.cpp
index 94ed6b0..c6a6f83 100644
--- a/oclint-rules/lib/AbstractASTRuleBase.cpp
+++ b/oclint-rules/lib/AbstractASTRuleBase.cpp
@@ -77,11 +77,7 @@ bool AbstractASTRuleBase::isLanguageSupported() const
     {
         return supportsCXX();
     }
-    if (langOpts.C99)
-    {
-        return supportsC();
-    }
-    return false;
+    return supportsC();
 }
 
 unsigned int AbstractASTRuleBase::supportedCUDAFunctionAttrs() const
-- 
2.43.0


From 23274ed2e445d89a6c627cec904ee82f855e7dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 23/45] fix: configuration values do not refer to the freed
 buffer of the file

---
 oclint-driver/include/oclint/ConfigFile.h | 25 ++++++++++++-----------
 oclint-driver/lib/ConfigFile.cpp          | 15 +++++++-------
 oclint-driver/lib/Options.cpp             | 18 +++++-----------
 3 files changed, 25 insertions(+), 33 deletions(-)

diff --git a/oclint-driver/include/oclint/ConfigFile.h b/oclint-driver/include/oclint/ConfigFile.h
index 101a12a..d79a0c6 100644
--- a/oclint-driver/include/oclint/ConfigFile.h
+++ b/oclint-driver/include/oclint/ConfigFile.h
@@ -1,6 +1,7 @@
 #ifndef OCLINT_CONFIGFILE_H
 #define OCLINT_CONFIGFILE_H
 
+#include <string>
 #include <vector>
 
 #include <llvm/Support/YAMLTraits.h>
@@ -14,12 +15,12 @@ namespace option
 class RuleConfigurationPair
 {
 private:
-    llvm::StringRef _key;
-    llvm::StringRef _value;
+    std::string _key;
+    std::string _value;
 
 public:
-    const llvm::StringRef &key() const;
-    const llvm::StringRef &value() const;
+    const std::string &key() const;
+    const std::string &value() const;
 
     void mapping(llvm::yaml::IO& io);
 };
@@ -30,12 +31,12 @@ class ConfigFile
 {
 private:
     std::string _path;
-    std::vector<llvm::StringRef> _rules;
-    std::vector<llvm::StringRef> _disableRules;
-    std::vector<llvm::StringRef> _rulePaths;
+    std::vector<std::string> _rules;
+    std::vector<std::string> _disableRules;
+    std::vector<std::string> _rulePaths;
     std::vector<RuleConfigurationPair> _ruleConfigurations;
-    llvm::StringRef _output;
-    llvm::StringRef _reportType;
+    std::string _output;
+    std::string _reportType;
     int _maxP1;
     int _maxP2;
     int _maxP3;
@@ -47,9 +48,9 @@ public:
     explicit ConfigFile(const std::string &path);
 
     const std::string &path() const;
-    const std::vector<llvm::StringRef> &rules() const;
-    const std::vector<llvm::StringRef> &disableRules() const;
-    const std::vector<llvm::StringRef> &rulePaths() const;
+    const std::vector<std::string> &rules() const;
+    const std::vector<std::string> &disableRules() const;
+    const std::vector<std::string> &rulePaths() const;
     const std::vector<RuleConfigurationPair> &ruleConfigurations() const;
     std::optional<std::string> output() const;
     std::optional<std::string> reportType() const;
diff --git a/oclint-driver/lib/ConfigFile.cpp b/oclint-driver/lib/ConfigFile.cpp
index 1e002ec..a19a412 100644
--- a/oclint-driver/lib/ConfigFile.cpp
+++ b/oclint-driver/lib/ConfigFile.cpp
@@ -31,12 +31,12 @@ struct MappingTraits<RuleConfigurationPair>
 }
 }
 
-const llvm::StringRef &oclint::option::RuleConfigurationPair::key() const
+const std::string &oclint::option::RuleConfigurationPair::key() const
 {
     return _key;
 }
 
-const llvm::StringRef &oclint::option::RuleConfigurationPair::value() const
+const std::string &oclint::option::RuleConfigurationPair::value() const
 {
     return _value;
 }
@@ -111,17 +111,17 @@ const std::string &oclint::option::ConfigFile::path() const
     return _path;
 }
 
-const std::vector<llvm::StringRef> &oclint::option::ConfigFile::rules() const
+const std::vector<std::string> &oclint::option::ConfigFile::rules() const
 {
     return _rules;
 }
 
-const std::vector<llvm::StringRef> &oclint::option::ConfigFile::disableRules() const
+const std::vector<std::string> &oclint::option::ConfigFile::disableRules() const
 {
     return _disableRules;
 }
 
-const std::vector<llvm::StringRef> &oclint::option::ConfigFile::rulePaths() const
+const std::vector<std::string> &oclint::option::ConfigFile::rulePaths() const
 {
     return _rulePaths;
 }
@@ -131,10 +131,9 @@ const std::vector<RuleConfigurationPair> &oclint::option::ConfigFile::ruleConfig
     return _ruleConfigurations;
 }
 
-static std::optional<std::string> createOptionalString(const llvm::StringRef &value)
+static std::optional<std::string> createOptionalString(const std::string &value)
 {
-    const std::string &string = value.str();
-    return string.size() ? std::optional<std::string>(string) : std::optional<std::string>();
+    return value.size() ? std::optional<std::string>(value) : std::optional<std::string>();
 }
 
 std::optional<std::string> oclint::option::ConfigFile::output() const
diff --git a/oclint-driver/lib/Options.cpp b/oclint-driver/lib/Options.cpp
index 8622136..2d020a5 100644
--- a/oclint-driver/lib/Options.cpp
+++ b/oclint-driver/lib/Options.cpp
@@ -143,23 +143,15 @@ static void processConfigFile(const std::string &path)
     oclint::option::ConfigFile config(path);
     for (const oclint::option::RuleConfigurationPair &ruleConfig : config.ruleConfigurations())
     {
-        consumeRuleConfiguration(ruleConfig.key().str(), ruleConfig.value().str());
+        consumeRuleConfiguration(ruleConfig.key(), ruleConfig.value());
     }
-    for (const llvm::StringRef &rulePath : config.rulePaths())
+    for (const std::string &rulePath : config.rulePaths())
     {
-        argRulesPath.push_back(rulePath.str());
-    }
-    std::vector<std::string> enableRules;
-    for (auto rule : config.rules())
-    {
-        enableRules.push_back(rule.str());
+        argRulesPath.push_back(rulePath);
     }
+    const std::vector<std::string> &enableRules = config.rules();
     filter.enableRules(enableRules.begin(), enableRules.end());
-    std::vector<std::string> disableRules;
-    for (auto rule : config.disableRules())
-    {
-        disableRules.push_back(rule.str());
-    }
+    const std::vector<std::string> &disableRules = config.disableRules();
     filter.disableRules(disableRules.begin(), disableRules.end());
 
     updateArgIfSet(argOutput, config.output());
-- 
2.43.0


From 58abb89a8344d77bdc4ff4c64a1dd81661e3f3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 24/45] fix: working path may be longer than 300 characters

---
 oclint-driver/lib/Options.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oclint-driver/lib/Options.cpp b/oclint-driver/lib/Options.cpp
index 2d020a5..b8f08b4 100644
--- a/oclint-driver/lib/Options.cpp
+++ b/oclint-driver/lib/Options.cpp
@@ -172,10 +172,10 @@ static void processConfigFiles()
 
 static void preserveWorkingPath()
 {
-    char path[300];
-    if (getcwd(path, 300))
+    llvm::SmallString<300> path;
+    if (!llvm::sys::fs::current_path(path))
     {
-        absoluteWorkingPath = std::string(path);
+        absoluteWorkingPath = path.str().str();
     }
 }
 
-- 
2.43.0


From eb1c4358997552b88216d51e22081892bcd254c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 25/45] fix: every file with violations counts

---
 oclint-core/lib/AbstractResults.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/oclint-core/lib/AbstractResults.cpp b/oclint-core/lib/AbstractResults.cpp
index f2b63ee..d306dc3 100644
--- a/oclint-core/lib/AbstractResults.cpp
+++ b/oclint-core/lib/AbstractResults.cpp
@@ -1,4 +1,4 @@
-#include <map>
+#include <set>
 
 #include "oclint/AbstractResults.h"
 #include "oclint/ResultCollector.h"
@@ -18,16 +18,15 @@ int AbstractResults::numberOfFiles() const
 
 int AbstractResults::numberOfFilesWithViolations() const
 {
-    std::map<std::string, int> violationsMapping;
+    std::set<std::string> filePaths;
     for (const auto& violationSet : _resultCollector.getCollection())
     {
-        if (violationSet->numberOfViolations() > 0)
+        for (const auto& violation : violationSet->getViolations())
         {
-            std::string filePath = violationSet->getViolations()[0].path;
-            violationsMapping[filePath] += violationSet->numberOfViolations();
+            filePaths.insert(violation.path);
         }
     }
-    return violationsMapping.size();
+    return filePaths.size();
 }
 
 int AbstractResults::numberOfViolations() const
-- 
2.43.0


From 14072ebe19bd96a9ed72c70d7f0fac6b94f7c401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 26/45] fix: detect failures of writing the report

---
 oclint-driver/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oclint-driver/main.cpp b/oclint-driver/main.cpp
index 0810174..9eb7cd5 100644
--- a/oclint-driver/main.cpp
+++ b/oclint-driver/main.cpp
@@ -207,6 +207,11 @@ int main(int argc, const char **argv)
     {
         ostream *out = outStream();
         reporter()->report(results.get(), *out);
+        out->flush();
+        if (!out->good())
+        {
+            throw oclint::GenericException("cannot write report");
+        }
         disposeOutStream(out);
     }
     catch (const exception& e)
-- 
2.43.0


From 5dd4981556233bc3a780440bcaf8da410329e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 27/45] fix: options of the auxiliary target outlive the target

---
 oclint-driver/include/oclint/CompilerInstance.h | 1 +
 oclint-driver/lib/CompilerInstance.cpp          | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/oclint-driver/include/oclint/CompilerInstance.h b/oclint-driver/include/oclint/CompilerInstance.h
index eacc108..0b5db09 100644
--- a/oclint-driver/include/oclint/CompilerInstance.h
+++ b/oclint-driver/include/oclint/CompilerInstance.h
@@ -24,6 +24,7 @@ private:
 
 private:
     std::vector<std::unique_ptr<clang::FrontendAction>> _actions;
+    clang::TargetOptions _auxTargetOptions;
 };
 
 } // end namespace oclint
diff --git a/oclint-driver/lib/CompilerInstance.cpp b/oclint-driver/lib/CompilerInstance.cpp
index 3c34b01..374c150 100644
--- a/oclint-driver/lib/CompilerInstance.cpp
+++ b/oclint-driver/lib/CompilerInstance.cpp
@@ -67,10 +67,10 @@ void CompilerInstance::setupTarget() {
     if (getLangOpts().CUDA &&
         !getFrontendOpts().AuxTriple.empty())
     {
-        clang::TargetOptions targetOptions;
-        targetOptions.Triple = llvm::Triple::normalize(getFrontendOpts().AuxTriple);
-        targetOptions.HostTriple = getTarget().getTriple().str();
-        setAuxTarget(clang::TargetInfo::CreateTargetInfo(getDiagnostics(), targetOptions));
+        // target info refers to the options
+        _auxTargetOptions.Triple = llvm::Triple::normalize(getFrontendOpts().AuxTriple);
+        _auxTargetOptions.HostTriple = getTarget().getTriple().str();
+        setAuxTarget(clang::TargetInfo::CreateTargetInfo(getDiagnostics(), _auxTargetOptions));
     }
 
     getTarget().adjust(getDiagnostics(), getLangOpts(), /*Target=*/nullptr);
-- 
2.43.0


From b8fe39b899ea85925ebd8fecc12033244e3c0165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 28/45] fix: the static analyzer keeps the source of
 -fsyntax-only compile commands

---
 oclint-driver/lib/Driver.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index d05445c..530e9bd 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -184,20 +184,20 @@ static clang::CompilerInvocation *newCompilerInvocation(
     commandLine[0] = mainExecutable;
 
     std::vector<const char*> argv;
-    int start = 0, end = commandLine.size();
+    argv.push_back(commandLine[0].c_str());
     if (runClangChecker)
     {
-        argv.push_back(commandLine[0].c_str());
         argv.push_back("--analyze");
-        start = 1;
-        end -= 1;
     }
-    for (int cmdIndex = start; cmdIndex != end; cmdIndex++)
+    for (size_t cmdIndex = 1; cmdIndex != commandLine.size(); cmdIndex++)
     {
-        if (commandLine[cmdIndex] != "-gmodules")
+        // the analyzer does not run when only the syntax is to be checked
+        if (commandLine[cmdIndex] == "-gmodules" ||
+            (runClangChecker && commandLine[cmdIndex] == "-fsyntax-only"))
         {
-            argv.push_back(commandLine[cmdIndex].c_str());
+            continue;
         }
+        argv.push_back(commandLine[cmdIndex].c_str());
     }
     argv.push_back("-D__OCLINT__");
 
-- 
2.43.0


From 8566499b5016cc22b4f99e634a321e1fcfed6aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 29/45] fix: define __OCLINT__ for compile commands with "--"
 too

---
 oclint-driver/lib/Driver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 530e9bd..6e72d43 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -185,6 +185,8 @@ static clang::CompilerInvocation *newCompilerInvocation(
 
     std::vector<const char*> argv;
     argv.push_back(commandLine[0].c_str());
+    // before the command's own arguments, those after "--" are taken for inputs
+    argv.push_back("-D__OCLINT__");
     if (runClangChecker)
     {
         argv.push_back("--analyze");
@@ -199,7 +201,6 @@ static clang::CompilerInvocation *newCompilerInvocation(
         }
         argv.push_back(commandLine[cmdIndex].c_str());
     }
-    argv.push_back("-D__OCLINT__");
 
     // create diagnostic engine
     auto diagOpts = std::make_unique<clang::DiagnosticOptions>();
-- 
2.43.0


From 2b4811a0f5497d00cb11087cc0e050f31c68e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 30/45] fix: the static analyzer does not write plist files
 next to the sources

---
 oclint-driver/lib/Driver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 6e72d43..fb4b43d 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -190,6 +190,9 @@ static clang::CompilerInvocation *newCompilerInvocation(
     if (runClangChecker)
     {
         argv.push_back("--analyze");
+        // findings are collected from the diagnostics, no plist file is wanted
+        argv.push_back("--analyzer-output");
+        argv.push_back("text-minimal");
     }
     for (size_t cmdIndex = 1; cmdIndex != commandLine.size(); cmdIndex++)
     {
-- 
2.43.0


From dfe98ff9dee8cd2dc1321b1efe030d43ec3ed82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 31/45] fix: analysis does not overwrite dependency and
 diagnostics files of the build

---
 oclint-driver/lib/Driver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index fb4b43d..af4be3d 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -95,6 +95,7 @@ static clang::CompilerInvocation *newInvocation(clang::DiagnosticsEngine *diagno
     auto invocation = new clang::CompilerInvocation;
     clang::CompilerInvocation::CreateFromArgs(*invocation, argStringList, *diagnostics);
     invocation->getFrontendOpts().DisableFree = false;
+    invocation->getDiagnosticOpts().DiagnosticSerializationFile.clear();
     return invocation;
 }
 
@@ -271,7 +272,9 @@ static std::vector<std::string> adjustArguments(std::vector<std::string> &unadju
 {
     clang::tooling::ArgumentsAdjuster argAdjuster =
         clang::tooling::combineAdjusters(
-            clang::tooling::getClangStripOutputAdjuster(),
+            clang::tooling::combineAdjusters(
+                clang::tooling::getClangStripOutputAdjuster(),
+                clang::tooling::getClangStripDependencyFileAdjuster()),
             clang::tooling::getClangSyntaxOnlyAdjuster());
     return argAdjuster(unadjustedCmdLine, filename);
 }
-- 
2.43.0


From 749d10219d6bec7c991ebc73732fff516aa6b831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:45 +0000
Subject: [PATCH 32/45] fix: CUDA compile commands with a single offload action
 do not abort

---
 oclint-driver/lib/Driver.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index af4be3d..0fd834f 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -149,7 +149,6 @@ static const llvm::opt::ArgStringList *getCC1Arguments(clang::driver::Compilatio
         {
             if (llvm::isa<clang::driver::OffloadAction>(action))
             {
-                assert(actions.size() > 1);
                 offloadCompilation = true;
                 break;
             }
-- 
2.43.0


From 481599b885d4577d2ba9418d82997a8886bfd773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:45 +0000
Subject: [PATCH 33/45] fix: language restriction of rules holds for CUDA
 sources too

---
 oclint-rules/include/oclint/AbstractASTVisitorRule.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oclint-rules/include/oclint/AbstractASTVisitorRule.h b/oclint-rules/include/oclint/AbstractASTVisitorRule.h
index 2c1703b..02b45e9 100644
--- a/oclint-rules/include/oclint/AbstractASTVisitorRule.h
+++ b/oclint-rules/include/oclint/AbstractASTVisitorRule.h
@@ -35,6 +35,8 @@ protected:
     }
 
     void applyCUDA() {
+        if (!isLanguageSupported()) { return; }
+
         setUp();
         clang::DeclContext *tu = getTranslationUnit();
         for (clang::DeclContext::decl_iterator it = tu->decls_begin(), declEnd = tu->decls_end();
-- 
2.43.0


From 4d93eb0a6095820cb780c5e2b25614eac9ebef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 34/45] fix: suppressing annotations cover what is enclosed by
 types and initializers too

---
 oclint-rules/lib/helper/SuppressHelper.cpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 015cf40..e964091 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -30,23 +30,16 @@ bool markedParentsAsSuppress(const T &node, clang::ASTContext &context, oclint::
         return false;
     }
 
-    const clang::DynTypedNode* dynTypedNode = parents.begin();
-    const clang::Decl *aDecl = dynTypedNode->get<clang::Decl>();
-    if (aDecl)
+    // not only declarations and statements enclose a node,
+    // e.g. parameters are enclosed by the type of their function
+    const clang::DynTypedNode parent = *parents.begin();
+    const clang::Decl *aDecl = parent.get<clang::Decl>();
+    if (aDecl && markedAsSuppress(aDecl, rule))
     {
-        if (markedAsSuppress(aDecl, rule))
-        {
-            return true;
-        }
-        return markedParentsAsSuppress(*aDecl, context, rule);
-    }
-    const clang::Stmt *aStmt = dynTypedNode->get<clang::Stmt>();
-    if (aStmt)
-    {
-        return markedParentsAsSuppress(*aStmt, context, rule);
+        return true;
     }
 
-    return false;
+    return markedParentsAsSuppress(parent, context, rule);
 }
 
 bool shouldSuppress(const clang::Decl *decl, clang::ASTContext &context, oclint::RuleBase *rule)
-- 
2.43.0


From 2ca61b865bad4cb88f143c11b53b555c1da7074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 35/45] fix: line ranges of declarations starting with a macro
 are collected

---
 oclint-rules/lib/helper/SuppressHelper.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index e964091..4149f61 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -73,8 +73,7 @@ public:
             declEnd = decl->decls_end(); declIt != declEnd; ++declIt)
         {
             clang::SourceLocation startLocation = (*declIt)->getBeginLoc();
-            if (startLocation.isValid() &&
-                _sourceManager->getMainFileID() == _sourceManager->getFileID(startLocation))
+            if (startLocation.isValid() && _sourceManager->isInMainFile(startLocation))
             {
                 (void) /* explicitly ignore the return of this function */
                     clang::RecursiveASTVisitor<DeclAnnotationRangeCollector>::TraverseDecl(*declIt);
-- 
2.43.0


From 7c92ac4c195b97f48a78abfcec70055e990b0621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 36/45] fix: a suppressing comment merged with its neighbours
 applies to its own line

---
 oclint-rules/lib/helper/SuppressHelper.cpp | 25 ++++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 4149f61..2492c6f 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -134,19 +134,26 @@ bool lineBasedShouldSuppress(int beginLine, clang::FileID fileID, clang::ASTCont
 // g++ 4.8 on Ubuntu 14.04 LTS doesn't support regex yet,
 // so we will ship this once Ubuntu 16.04 releases
 #if defined(__APPLE__) || defined(__MACH__)
-                std::string commentString = comment->getRawText(context.getSourceManager()).str();
                 std::regex oclintRegex =
                     std::regex("//! *OCLINT", std::regex::basic | std::regex::icase);
-                if (std::regex_search(commentString, oclintRegex))
-#else
-                if (std::string::npos !=
-                    comment->getRawText(context.getSourceManager()).find("//!OCLINT"))
 #endif
+                int currentLine =
+                    context.getSourceManager().getPresumedLineNumber(comment->getBeginLoc());
+                // comments on consecutive lines are merged into one
+                llvm::StringRef remaining = comment->getRawText(context.getSourceManager());
+                while (!remaining.empty())
                 {
-                    clang::SourceLocation startLocation = comment->getBeginLoc();
-                    int startLocationLine =
-                        context.getSourceManager().getPresumedLineNumber(startLocation);
-                    commentLines.insert(startLocationLine);
+                    std::pair<llvm::StringRef, llvm::StringRef> splitPair = remaining.split('\n');
+#if defined(__APPLE__) || defined(__MACH__)
+                    if (std::regex_search(splitPair.first.str(), oclintRegex))
+#else
+                    if (splitPair.first.contains("//!OCLINT"))
+#endif
+                    {
+                        commentLines.insert(currentLine);
+                    }
+                    currentLine++;
+                    remaining = splitPair.second;
                 }
             }
         }
-- 
2.43.0


From 5339c23e92affb80470e3af5f4f5ed2afe32ff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 37/45] fix: sources with the same relative path in different
 directories are told apart

---
 oclint-driver/lib/DiagnosticDispatcher.cpp |  9 +++++++++
 oclint-driver/lib/Driver.cpp               | 21 ++++++++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/oclint-driver/lib/DiagnosticDispatcher.cpp b/oclint-driver/lib/DiagnosticDispatcher.cpp
index 884f901..3b32bcc 100644
--- a/oclint-driver/lib/DiagnosticDispatcher.cpp
+++ b/oclint-driver/lib/DiagnosticDispatcher.cpp
@@ -2,6 +2,7 @@
 
 #include <llvm/ADT/SmallString.h>
 #include <llvm/ADT/StringRef.h>
+#include <clang/Basic/FileManager.h>
 #include <clang/Basic/SourceLocation.h>
 #include <clang/Basic/SourceManager.h>
 
@@ -55,6 +56,14 @@ LocalSourceLocation populateSourceLocation(const clang::Diagnostic &diagnosticIn
         sourceLoc.filename = sourceFilename.str();
     }
 
+    if (!sourceLoc.filename.empty())
+    {
+        // the same relative path may name different files in different directories
+        llvm::SmallString<128> absolutePath(sourceLoc.filename);
+        sourceManager->getFileManager().makeAbsolutePath(absolutePath);
+        sourceLoc.filename = absolutePath.str().str();
+    }
+
     sourceLoc.line = sourceManager->getPresumedLineNumber(location);
     sourceLoc.column = sourceManager->getPresumedColumnNumber(location);
 
diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 0fd834f..f9973f9 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -51,6 +51,7 @@
 #include <sstream>
 
 #include <llvm/ADT/IntrusiveRefCntPtr.h>
+#include <llvm/ADT/SmallString.h>
 #include <llvm/ADT/StringRef.h>
 #include <llvm/Option/ArgList.h>
 #include <llvm/Support/FileSystem.h>
@@ -58,6 +59,7 @@
 #include <llvm/TargetParser/Host.h>
 #include <llvm/Support/raw_ostream.h>
 #include <clang/Basic/Diagnostic.h>
+#include <clang/Basic/FileManager.h>
 #include <clang/Driver/Compilation.h>
 #include <clang/Driver/Driver.h>
 #include <clang/Driver/Job.h>
@@ -175,6 +177,21 @@ static const llvm::opt::ArgStringList *getCC1Arguments(clang::driver::Compilatio
     return &cmd.getArguments();
 }
 
+// the same relative path may name different sources in different directories
+static void makeInputsAbsolute(clang::CompilerInvocation *compilerInvocation)
+{
+    clang::FileManager fileManager(compilerInvocation->getFileSystemOpts());
+    for (auto &input : compilerInvocation->getFrontendOpts().Inputs)
+    {
+        if (input.isFile() && input.getFile() != "-")
+        {
+            llvm::SmallString<128> path(input.getFile());
+            fileManager.makeAbsolutePath(path);
+            input = clang::FrontendInputFile(path, input.getKind(), input.isSystem());
+        }
+    }
+}
+
 static clang::CompilerInvocation *newCompilerInvocation(
     std::string &mainExecutable,
     std::vector<std::string> &commandLine,
@@ -222,7 +239,9 @@ static clang::CompilerInvocation *newCompilerInvocation(
     const std::unique_ptr<clang::driver::Compilation> compilation(
         driver->BuildCompilation(llvm::ArrayRef(argv)));
     auto cc1Args = getCC1Arguments(compilation.get());
-    return newInvocation(&diagnosticsEngine, *cc1Args);
+    auto invocation = newInvocation(&diagnosticsEngine, *cc1Args);
+    makeInputsAbsolute(invocation);
+    return invocation;
 }
 
 static oclint::CompilerInstance *newCompilerInstance(clang::CompilerInvocation *compilerInvocation,
-- 
2.43.0


From 37beec0ecde1f8fae376dda6bcf91ce3d6cbb304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 38/45] fix: rules do not crash on templates that are parsed
 late

---
 oclint-metrics/lib/NcssMetric.cpp                       | 3 ++-
 oclint-rules/rules/size/LongMethodRule.cpp              | 5 +++--
 oclint-rules/rules/size/NPathComplexityRule.cpp         | 2 +-
 oclint-rules/rules/unused/UnusedMethodParameterRule.cpp | 2 +-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/oclint-metrics/lib/NcssMetric.cpp b/oclint-metrics/lib/NcssMetric.cpp
index 2ad7071..b028802 100644
--- a/oclint-metrics/lib/NcssMetric.cpp
+++ b/oclint-metrics/lib/NcssMetric.cpp
@@ -125,7 +125,8 @@ int NcssMetric::ncss(clang::ObjCAutoreleasePoolStmt *stmt)
 
 extern "C" int getNcssCount(clang::Decl *decl)
 {
-    if (decl->hasBody())
+    // templates that are parsed late have no body yet
+    if (decl->hasBody() && decl->getBody())
     {
         NcssMetric ncssMetric;
         return ncssMetric.ncss(decl->getBody()) + 1;
diff --git a/oclint-rules/rules/size/LongMethodRule.cpp b/oclint-rules/rules/size/LongMethodRule.cpp
index a645e00..f7d8921 100644
--- a/oclint-rules/rules/size/LongMethodRule.cpp
+++ b/oclint-rules/rules/size/LongMethodRule.cpp
@@ -13,10 +13,11 @@ class LongMethodRule : public AbstractASTVisitorRule<LongMethodRule>
 private:
     void applyDecl(Decl *decl)
     {
-        if (decl->hasBody() &&
+        // templates that are parsed late have no body yet
+        Stmt *stmt = decl->hasBody() ? decl->getBody() : nullptr;
+        if (stmt &&
             !isCppMethodDeclLocatedInCppRecordDecl(dyn_cast<CXXMethodDecl>(decl)))
         {
-            Stmt *stmt = decl->getBody();
             int length = getLineCount(stmt->getSourceRange(), _carrier->getSourceManager());
             int threshold = RuleConfiguration::intForKey("LONG_METHOD", 50);
             if (length > threshold)
diff --git a/oclint-rules/rules/size/NPathComplexityRule.cpp b/oclint-rules/rules/size/NPathComplexityRule.cpp
index 8bf664a..42fca9a 100644
--- a/oclint-rules/rules/size/NPathComplexityRule.cpp
+++ b/oclint-rules/rules/size/NPathComplexityRule.cpp
@@ -21,7 +21,7 @@ private:
     {
         if (decl->hasBody())
         {
-            CompoundStmt *bodyStmt = dyn_cast<CompoundStmt>(decl->getBody());
+            CompoundStmt *bodyStmt = dyn_cast_or_null<CompoundStmt>(decl->getBody());
             if (bodyStmt)
             {
                 int npath = getNPathComplexity(bodyStmt);
diff --git a/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp b/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
index 866c0c1..6b35a7d 100644
--- a/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
+++ b/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
@@ -50,7 +50,7 @@ private:
     bool isCppFunctionDeclaration(DeclContext *context)
     {
         FunctionDecl *decl = dyn_cast<FunctionDecl>(context);
-        return isa<CXXRecordDecl>(context) || (decl && !decl->hasBody());
+        return isa<CXXRecordDecl>(context) || (decl && !decl->getBody());
     }
 
     bool isCppOverrideFunction(DeclContext *context)
-- 
2.43.0


From 64250f60dc23cb8a5fa5964e8076181a7e992e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 39/45] fix: hash of violations does not overflow

---
 oclint-core/lib/UniqueResults.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oclint-core/lib/UniqueResults.cpp b/oclint-core/lib/UniqueResults.cpp
index 922725d..54cc769 100644
--- a/oclint-core/lib/UniqueResults.cpp
+++ b/oclint-core/lib/UniqueResults.cpp
@@ -17,10 +17,10 @@ public:
         std::size_t hash1 = std::hash<const oclint::RuleBase*>()(violation.rule);
         std::size_t hash2 = std::hash<std::string>()(violation.path);
         std::size_t hash3 = std::hash<std::string>()(violation.message);
-        std::size_t hash4 = violation.startLine
-            ^ (violation.startColumn << 2)
-            ^ (violation.endLine << 4)
-            ^ (violation.endColumn << 8);
+        std::size_t hash4 = static_cast<std::size_t>(violation.startLine)
+            ^ (static_cast<std::size_t>(violation.startColumn) << 2)
+            ^ (static_cast<std::size_t>(violation.endLine) << 4)
+            ^ (static_cast<std::size_t>(violation.endColumn) << 8);
         return hash1 ^ (hash2 << 1) ^ (hash2 << 2) ^ (hash3 << 3) ^ (hash4 << 4);
     }
 };
-- 
2.43.0


From 26993b5bbe8375927620efcb09a4bb9433b707cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 40/45] fix: analysis writes no dependency, header list or
 diagnostic log files

---
 oclint-driver/lib/Driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index f9973f9..e6503cc 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -98,6 +98,8 @@ static clang::CompilerInvocation *newInvocation(clang::DiagnosticsEngine *diagno
     clang::CompilerInvocation::CreateFromArgs(*invocation, argStringList, *diagnostics);
     invocation->getFrontendOpts().DisableFree = false;
     invocation->getDiagnosticOpts().DiagnosticSerializationFile.clear();
+    invocation->getDiagnosticOpts().DiagnosticLogFile.clear();
+    invocation->getDependencyOutputOpts() = clang::DependencyOutputOptions();
     return invocation;
 }
 
-- 
2.43.0


From 6f7348c2654d43d50402c05c522f5ee0d7ca871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 41/45] fix: compiler errors are not reported as findings of
 the static analyzer

---
 oclint-driver/lib/DiagnosticDispatcher.cpp | 6 +++++-
 oclint-driver/lib/Driver.cpp               | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/oclint-driver/lib/DiagnosticDispatcher.cpp b/oclint-driver/lib/DiagnosticDispatcher.cpp
index 3b32bcc..ab11a08 100644
--- a/oclint-driver/lib/DiagnosticDispatcher.cpp
+++ b/oclint-driver/lib/DiagnosticDispatcher.cpp
@@ -87,7 +87,11 @@ void DiagnosticDispatcher::HandleDiagnostic(clang::DiagnosticsEngine::Level diag
     ResultCollector *results = ResultCollector::getInstance();
     if (_isCheckerCustomer)
     {
-        results->addCheckerBug(violation);
+        // findings are warnings, anything else is from compiling once more
+        if (diagnosticLevel == clang::DiagnosticsEngine::Warning)
+        {
+            results->addCheckerBug(violation);
+        }
     }
     else
     {
diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index e6503cc..803fa16 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -100,6 +100,7 @@ static clang::CompilerInvocation *newInvocation(clang::DiagnosticsEngine *diagno
     invocation->getDiagnosticOpts().DiagnosticSerializationFile.clear();
     invocation->getDiagnosticOpts().DiagnosticLogFile.clear();
     invocation->getDependencyOutputOpts() = clang::DependencyOutputOptions();
+    invocation->getAnalyzerOpts().AnalyzerWerror = false;
     return invocation;
 }
 
-- 
2.43.0


From c16c68b9eb25165a08192096024295e313a1f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 42/45] fix: the static analyzer option does not change how
 sources are compiled

---
 oclint-driver/lib/CompilerInstance.cpp | 8 +++-----
 oclint-driver/lib/Driver.cpp           | 2 ++
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/oclint-driver/lib/CompilerInstance.cpp b/oclint-driver/lib/CompilerInstance.cpp
index 374c150..8b6c058 100644
--- a/oclint-driver/lib/CompilerInstance.cpp
+++ b/oclint-driver/lib/CompilerInstance.cpp
@@ -50,12 +50,10 @@
 #include <clang/Frontend/FrontendActions.h>
 #include <clang/StaticAnalyzer/Frontend/FrontendActions.h>
 
-#include "oclint/Options.h"
-
 using namespace oclint;
 
-static clang::FrontendAction *getFrontendAction() {
-    if (option::enableClangChecker()) {
+static clang::FrontendAction *getFrontendAction(const clang::FrontendOptions &options) {
+    if (options.ProgramAction == clang::frontend::RunAnalysis) {
         return new clang::ento::AnalysisAction();
     }
     return new clang::SyntaxOnlyAction();
@@ -94,7 +92,7 @@ void CompilerInstance::start() {
             getSourceManager().clearIDTables();
         }
 
-        clang::FrontendAction *frontendAction = getFrontendAction();
+        clang::FrontendAction *frontendAction = getFrontendAction(getFrontendOpts());
         if(frontendAction->BeginSourceFile(*this, input)) {
             static_cast<void>(frontendAction->Execute());
             _actions.emplace_back(frontendAction);
diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index 803fa16..75024ff 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -243,6 +243,8 @@ static clang::CompilerInvocation *newCompilerInvocation(
         driver->BuildCompilation(llvm::ArrayRef(argv)));
     auto cc1Args = getCC1Arguments(compilation.get());
     auto invocation = newInvocation(&diagnosticsEngine, *cc1Args);
+    invocation->getFrontendOpts().ProgramAction =
+        runClangChecker ? clang::frontend::RunAnalysis : clang::frontend::ParseSyntaxOnly;
     makeInputsAbsolute(invocation);
     return invocation;
 }
-- 
2.43.0


From f82965dece8e18403b22145f082e188e906d2a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:30 +0000
Subject: [PATCH 43/45] fix: literals of different widths do not crash the
 redundant conditional operator rule

---
 .../rules/redundant/RedundantConditionalOperatorRule.cpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
index 7bcafdb..f464d45 100644
--- a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
@@ -93,7 +93,8 @@ private:
     {
         IntegerLiteral *trueInteger = dyn_cast_or_null<IntegerLiteral>(trueExpr);
         IntegerLiteral *falseInteger = dyn_cast_or_null<IntegerLiteral>(falseExpr);
-        return trueInteger && falseInteger && trueInteger->getValue() == falseInteger->getValue();
+        return trueInteger && falseInteger &&
+            llvm::APInt::isSameValue(trueInteger->getValue(), falseInteger->getValue());
     }
 
     bool isFloatingLiteralEquals(Expr *trueExpr, Expr *falseExpr)
-- 
2.43.0


From c2e808f7b5d9a29d7fffb98bd10ea515f995d75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:55 +0000
Subject: [PATCH 44/45] fix: wide string literals do not crash the redundant
 conditional operator rule

---
 .../rules/redundant/RedundantConditionalOperatorRule.cpp      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
index f464d45..294487e 100644
--- a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
@@ -117,7 +117,9 @@ private:
     {
         StringLiteral *trueStr = extractFromImplicitCastExpr<StringLiteral>(trueExpr);
         StringLiteral *falseStr = extractFromImplicitCastExpr<StringLiteral>(falseExpr);
-        return trueStr && falseStr && trueStr->getString() == falseStr->getString();
+        return trueStr && falseStr &&
+            trueStr->getCharByteWidth() == falseStr->getCharByteWidth() &&
+            trueStr->getBytes() == falseStr->getBytes();
     }
 
     bool isNotEquals(Expr *trueExpr, Expr *falseExpr)
-- 
2.43.0


From 95f268c6c7d94dddc980f91fae04127fcf91e580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:55 +0000
Subject: [PATCH 45/45] fix: the same string literals in a conditional operator
 are reported in C++ too

---
 .../rules/redundant/RedundantConditionalOperatorRule.cpp     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
index 294487e..27d7830 100644
--- a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
@@ -115,8 +115,9 @@ private:
 
     bool isStringLiteralEquals(Expr *trueExpr, Expr *falseExpr)
     {
-        StringLiteral *trueStr = extractFromImplicitCastExpr<StringLiteral>(trueExpr);
-        StringLiteral *falseStr = extractFromImplicitCastExpr<StringLiteral>(falseExpr);
+        // there is no implicit cast when the operator yields an lvalue
+        StringLiteral *trueStr = dyn_cast<StringLiteral>(trueExpr->IgnoreImpCasts());
+        StringLiteral *falseStr = dyn_cast<StringLiteral>(falseExpr->IgnoreImpCasts());
         return trueStr && falseStr &&
             trueStr->getCharByteWidth() == falseStr->getCharByteWidth() &&
             trueStr->getBytes() == falseStr->getBytes();
-- 
2.43.0

